"""Solving resumed from any partial answer yields exactly its completions."""
from collections import Counter
from .. import ref, drive, gens

PROPERTY = 'C10'
RULE = ('one case = a batch of partial matrices (prefixes of random normal-form labellings of known graphs at any row, and prefixes the search wanders to, dead ends included; some where hundreds or thousands of partial answers are alive side by side) '
        'solved to the end and compared, as multisets, with the completions found by the reference model; distinct non-trivial = distinct partial matrices')
NEED = {'prefixes_compared': 150, 'completions': 150, 'dead_ends': 15, 'prefixes_with_several_completions': 25, 'own_graph_found': 100, 'wide_searches': 15}
CASE_S = {'quick': 300, 'thorough': 900}
SMALL = ['paley9', 'paley13', 'petersen', 'petersen_c', 'T6', 'T6_c', 'rook4', 'rook4_c', 'shrikhande', 'shrikhande_c', 'clebsch', 'K33', 'K333', 'K2222', '3K4', '4K2', 'paley17']
MID = ['paley25', 'rook5', 'rook5_c', 'L3_5', 'T7', 'T7_c', 'T8', 'T8_c', 'chang1', 'chang2', 'chang3', 'chang1_c', 'schlaefli', 'schlaefli_c', 'paley29', 'rook6', 'L3_6', 'Sp42', 'clebsch_c', 'L4_5']
BIG = ['paley37', 'paley41', 'rook6_c', 'Sp43', 'Sp43_c', 'T9', 'HoSi', 'paley49', 'rook7', 'rook8', 'L3_7', 'L4_7', 'Sp62', 'VO6', 'T10']


def cases(seed, tier):
    m = {'quick': 6, 'thorough': 60}[tier]
    out = [('broad', p) for p in drive.broad(seed, tier)]
    for kind, n, size in (('big', 24, 1), ('mid', 160, 4), ('small', 160, 8)):
        out += [(kind, {'seed': seed, 'i': i, 'n': size}) for i in range(0, n * m, size)]
    return out


def run(kind, p, mon):
    if kind == 'broad':
        par, N, P = drive.broad_start(p)
        one(par, P, N, mon, limit=100000, most=10 ** 9)
        mon.count('wide_searches')
        return
    for j in range(p['i'], p['i'] + p['n']):
        rng = drive.rng_for('c10', kind, p['seed'], j)
        name = rng.choice({'small': SMALL, 'mid': MID, 'big': BIG}[kind])
        par, M = gens.build(name)
        v = par[0]
        N = ref.random_nf(M, rng)
        lo = {'small': 2, 'mid': v // 5, 'big': v // 3}[kind]
        own = rng.random() < .6
        for R in [rng.randint(max(2, lo), max(2, v - (1 if rng.random() < .5 else v // 2)))] + ([rng.randint(2, v - 1)] if kind == 'small' else []):
            P = N[:R]
            if not own:
                for _ in range(rng.randint(1, 5)):
                    try:
                        o = ref.next_rows(P, *par[1:], limit=5000) if len(P) < v - 1 else []
                    except ref.TooBig:
                        o = []
                    if not o:
                        break
                    P = ref.extend(P, rng.choice(sorted(o)))
            one(par, P, N if own else None, mon)


def one(par, P, N, mon, limit=200, most=30000):
    c = {}
    try:
        want = ref.completions(P, *par, limit=limit, counter=c)
        if c.get('ref_nodes', 0) > most:
            raise ref.TooBig
    except ref.TooBig:
        mon.count('too_big_for_the_reference')
        return
    want = {m for m in want if len(m) == par[0]}
    m = drive.arr(P)
    got = Counter(drive.tup(x) for x in drive.solve_from(m, cap=4 * len(want) + 200))
    missing, extra = want - set(got), set(got) - want
    mon.check(not missing, lambda: f'{par} resumed from {len(P)} rows {P}: missed {min(missing)}', 'missed')
    mon.check(not extra, lambda: f'{par} resumed from {len(P)} rows {P}: yielded {min(extra)}', 'extra')
    mon.check(all(n == 1 for n in got.values()), lambda: f'{par} resumed from {len(P)} rows {P}: an answer was yielded twice', 'repeated')
    mon.check(drive.tup(m) == tuple(P), 'the partial matrix was modified', 'input-modified')
    if N is not None:
        mon.check(N in got, lambda: f'{par} resumed from {len(P)} rows of {N}: does not lead back to it', 'own-graph')
        mon.count('own_graph_found')
    mon.count('prefixes_compared')
    mon.count('completions', len(want))
    mon.count('dead_ends', not want)
    mon.count('prefixes_with_several_completions', len(want) > 1)
    mon.seen(P)
    mon.sample({'params': par, 'rows_given': len(P), 'completions': len(want)})
