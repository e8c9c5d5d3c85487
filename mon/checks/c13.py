"""Maximising: isomorphic, normal form, idempotent, not smaller, input unmodified, among the answers."""
from .. import ref, drive, gens

PROPERTY = 'C13'
RULE = ('one case = a batch of graphs (all graphs of order up to 5, random graphs of every density, complete, empty, randomly relabelled strongly regular graphs and their complements), each maximised; '
        'distinct non-trivial = distinct inputs that were not in normal form already')
HANG_STEPS = 2_000_000  # whole cases (hundreds of calls) take less than 500 000
NEED = {'maximised': 1500, 'not_normal_before': 700, 'strongly_regular': 100, 'found_among_answers': 30, 'over_64_vertices': 80, 'orders_swept': 120}
CASE_S = {'quick': 120, 'thorough': 900}
SRG = ['pentagon', 'paley9', 'paley13', 'petersen', 'petersen_c', 'T6', 'T6_c', 'rook4', 'shrikhande', 'clebsch', 'clebsch_c', 'K33', 'K333', 'K2222', 'K66', '3K4', '4K2', 'paley17',
       'T7', 'paley25', 'paley29', 'rook5', 'T8', 'chang1', 'chang2', 'chang3', 'schlaefli', 'schlaefli_c', 'Sp42', 'HoSi', 'rook6', 'paley37']
BIG = ['T13', 'paley73', 'rook9', 'T13_c', 'paley89', 'T17']
SOLVABLE = ['pentagon', 'paley9', 'paley13', 'petersen', 'petersen_c', 'T6', 'T6_c', 'rook4', 'shrikhande', 'clebsch', 'K33', 'K333', 'K2222', '3K4', '4K2', 'paley17', 'rook4_c', 'shrikhande_c']


def cases(seed, tier):
    m = {'quick': 1, 'thorough': 20}[tier]
    out = [('big', {'seed': seed, 'name': n}) for n in BIG]
    out += [('all', {'n': n}) for n in ((2, 3, 4, 5) if tier == 'quick' else (2, 3, 4, 5, 6))]
    out += [('random', {'seed': seed, 'i': i}) for i in range(48 * m)]
    out += [('orders', {'seed': seed, 'list': list(range(lo, 161, 16))}) for lo in range(6, 22)]
    out += [('srg', {'seed': seed, 'i': i}) for i in range(16 * m)]
    out += [('answers', {'seed': seed, 'name': n}) for n in SOLVABLE]
    return out


def maximize(M, mon, why=True):
    from srg import sorter
    a = drive.arr(M)
    res = sorter.maximize(a)
    N = drive.tup(res)
    mon.count('maximised')
    mon.count('over_64_vertices', len(M) > 64)
    mon.check(drive.tup(a) == tuple(M), lambda: f'the input was modified: {M}', 'input-modified')
    bad = ref.why_not_nf(N)
    if bad is None and (N != tuple(map(tuple, zip(*N))) or any(N[i][i] for i in range(len(N)))):
        bad = 'not symmetric with zero diagonal'
    mon.check(bad is None, lambda: f'not in normal form: {bad}: {M} became {N}', 'not-normal')
    if N != ref.normalise(M):  # otherwise the relabelling is known
        mon.count('relabelling_searched')
        try:
            order = ref.relabelling(M, N)
            mon.check(order is not None, lambda: f'not the same graph with vertex 0 first: {M} became {N}', 'other-graph')
        except ref.TooBig:
            mon.count('relabelling_undecided')
    mon.check(ref.code(N) >= ref.code(M), lambda: f'smaller than the input: {M} became {N}', 'smaller')
    again = drive.tup(sorter.maximize(drive.arr(N)))
    mon.check(again == N, lambda: f'maximising again changes it: {N} became {again}', 'not-idempotent')
    if len(M) < 65 and drive.spoil(res):
        again = drive.tup(sorter.maximize(drive.arr(M)))
        mon.check(again == N, lambda: f'after an earlier result was overwritten, {M} becomes {again} instead of {N}', 'shared-result')
    if not ref.is_nf(M):
        mon.count('not_normal_before')
        mon.seen(M)
    mon.sample({'order': len(M), 'ones': sum(map(sum, M))})
    return N


def run(kind, p, mon):
    if kind == 'all':
        n = p['n']
        pairs = [(i, j) for i in range(n) for j in range(i + 1, n)]
        for bits in range(1 << len(pairs)):
            M = [[0] * n for _ in range(n)]
            for t, (i, j) in enumerate(pairs):
                M[i][j] = M[j][i] = bits >> t & 1
            maximize(tuple(map(tuple, M)), mon)
        return
    if kind == 'orders':  # every order once dense, once sparse, once nearly in normal form already
        rng = drive.rng_for('c13o', p)
        for n in p['list']:
            for t in range(3 if n < 80 else 1):
                d = rng.choice([.1, .5, .9])
                M = [[0] * n for _ in range(n)]
                for i in range(n):
                    for j in range(i):
                        M[i][j] = M[j][i] = int(rng.random() < d)
                if t == 1:
                    M = [list(r) for r in ref.normalise(M)]
                    i, j = rng.sample(range(n), 2)
                    M[i][j] ^= 1
                    M[j][i] ^= 1
                elif t == 2:
                    M = ref.relabel(gens.multipartite(2, n // 2)[1], rng.sample(range(n // 2 * 2), n // 2 * 2))
                maximize(tuple(map(tuple, M)), mon)
            mon.count('orders_swept')
        return
    if kind == 'random':
        rng = drive.rng_for('c13', p)
        for _ in range(30):
            n = rng.choice([2, 3, 6, 7, 8, 9, 12, 16, 17, 20, 33])
            d = rng.choice([0, .1, .3, .5, .7, .9, 1])
            M = [[0] * n for _ in range(n)]
            for i in range(n):
                for j in range(i):
                    M[i][j] = M[j][i] = int(rng.random() < d)
            if rng.random() < .3:  # twins: many columns not told apart until late
                t = rng.randint(2, 4)
                M = [[M[i // t][j // t] for j in range(n * t)] for i in range(n * t)]
            M = ref.relabel(M, rng.sample(range(len(M)), len(M)))
            maximize(M, mon)
        return
    if kind in ('srg', 'big'):
        rng = drive.rng_for('c13', p)
        for _ in range(10 if kind == 'srg' else 2):
            par, M = gens.build(p.get('name') or rng.choice(SRG))
            if rng.random() < .4:
                M = ref.complement(M)
                par = gens.params_of(M)
            M = ref.relabel(M, rng.sample(range(len(M)), len(M)))
            N = maximize(M, mon)
            mon.count('strongly_regular')
            mon.check(ref.why_not_srg(N, *par) is None, lambda: f'no longer strongly regular: {ref.why_not_srg(N, *par)}: {M}', 'other-graph')
            if len(M) <= 30:  # an answer: solving the last rows leads to it
                R = max(2, len(M) - rng.randint(1, 5))
                got = {drive.tup(x) for x in drive.solve_from(drive.arr(N[:R]), cap=5000)}
                mon.check(N in got, lambda: f'{par}: the maximised matrix is not among the answers that start like it: {N}', 'not-an-answer')
                mon.count('found_among_answers')
        return
    rng = drive.rng_for('c13', p)
    par, M = gens.build(p['name'])
    got = {drive.tup(x) for x in drive.solve(par)}
    for _ in range(8):
        N = maximize(ref.relabel(M, rng.sample(range(len(M)), len(M))), mon)
        mon.check(N in got, lambda: f'{par}: the maximised {p["name"]} is not among the answers: {N}', 'not-an-answer')
        mon.count('found_among_answers')
