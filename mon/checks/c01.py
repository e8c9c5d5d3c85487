"""Every matrix yielded is an SRG with the parameters asked for."""
from .. import ref, drive

PROPERTY = 'C01'
RULE = ('one case = a batch of parameter sets solved from their two seed rows, or a search with hundreds of partial answers resumed from the first rows of a known graph; every yielded matrix is checked against the definition; '
        'distinct non-trivial = distinct matrices yielded plus distinct parameter sets that ended without an answer')
NEED = {'params_solved': 2500, 'matrices': 100, 'params_without_answer': 1500, 'matrices_of_wide_searches': 25}
CASE_S = {'quick': 300, 'thorough': 1800}


def cases(seed, tier):
    wide = [('resumed', p) for p in drive.broad(seed, tier)]
    return wide[:6] + [('solve', {'params': b}) for b in drive.batches(drive.param_sets(seed, tier))] + wide[6:]


def run(kind, p, mon):
    if kind == 'resumed':
        par, N, P = drive.broad_start(p)
        for m in drive.solve_from(drive.arr(P)):
            M = drive.tup(m)
            bad = ref.why_not_srg(M, *par)
            mon.check(bad is None, lambda: f'solving {par} from {p["R"]} rows {P} yielded a matrix that is not such a graph: {bad}: {M}', 'not-srg')
            mon.count('matrices_of_wide_searches')
            mon.seen(M)
        return
    for q in p['params']:
        n = 0
        for m in drive.solve(q):
            M = drive.tup(m)
            bad = ref.why_not_srg(M, *q)
            mon.check(bad is None, lambda: f'solve{tuple(q)} yielded a matrix that is not such a graph: {bad}: {M}', 'not-srg')
            mon.count('matrices')
            mon.seen(M)
            n += 1
        mon.count('params_solved')
        if not n:
            mon.check(True, '')
            mon.count('params_without_answer')
            mon.seen('none', tuple(q))
        mon.sample({'params': q, 'answers': n})
