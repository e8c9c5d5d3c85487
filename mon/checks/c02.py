"""The set of matrices yielded is exactly the set of normal-form SRGs."""
from .. import ref, drive, gens

PROPERTY = 'C02'
RULE = ('one case = a batch of parameter sets solved from their two seed rows, or a search with hundreds of partial answers resumed from the first rows of a known graph, and enumerated independently by the reference model; '
        'known constructions must appear among the answers; distinct non-trivial = distinct expected matrices plus distinct parameter sets without answer')
NEED = {'params_compared': 2500, 'expected_matrices': 100, 'known_graphs_found': 10, 'wide_searches': 15, 'graphs_of_wide_searches': 25}
CASE_S = {'quick': 300, 'thorough': 1800}
KNOWN = ['pentagon', 'paley9', 'paley13', 'paley17', 'petersen', 'petersen_c', 'T6', 'T6_c', 'rook4', 'rook4_c', 'shrikhande', 'shrikhande_c',
         'clebsch', 'clebsch_c', 'K33', 'K333', 'K2222', 'K66', '3K4', '4K2', 'rook5', 'rook6', 'T7_c']


def cases(seed, tier):
    out = [('solve', {'params': b, 'seed': seed}) for b in drive.batches(drive.param_sets(seed, tier))]
    wide = [('resumed', p) for p in drive.broad(seed, tier)]
    return wide[:6] + out + wide[6:]


def run(kind, p, mon):
    if kind == 'resumed':
        par, N, P = drive.broad_start(p)
        want = set(ref.completions(P, *par, limit=100000))
        got = {drive.tup(m) for m in drive.solve_from(drive.arr(P))}
        missing = sorted((want | {N}) - got)
        mon.check(not missing, lambda: f'solving {par} from {p["R"]} rows {P} missed {len(missing)} of {len(want)} graphs, e.g. {missing[0]}', 'missed')
        mon.count('wide_searches')
        mon.count('graphs_of_wide_searches', len(want))
        for m in want:
            mon.seen(m)
        return
    rng = drive.rng_for('c02', p['seed'], p['params'])
    graphs = {}
    for name in KNOWN:
        par, M = gens.build(name)
        graphs.setdefault(par, []).append((name, M))
    for q in p['params']:
        c = {}
        want = set(ref.enumerate_nf(*q, counter=c))
        got = {drive.tup(m) for m in drive.solve(q, cap=4 * len(want) + 1000)}
        missing = sorted(want - got)
        mon.check(not missing, lambda: f'solve{tuple(q)} missed {len(missing)} of {len(want)} graphs, e.g. {missing[0]}', 'missed')
        mon.count('params_compared')
        mon.count('expected_matrices', len(want))
        mon.count('reference_prefixes', c.get('ref_prefixes', 0))
        for m in want:
            mon.seen(m)
        if not want:
            mon.seen('none', tuple(q))
        for name, M in graphs.get(tuple(q), []):
            n = ref.random_nf(M, rng)
            mon.check(n in got, lambda: f'solve{tuple(q)} missed the known graph {name}: {n}', 'missed-known')
            mon.count('known_graphs_found')
        mon.sample({'params': q, 'expected': len(want), 'yielded': len(got)})
