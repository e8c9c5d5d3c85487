"""No matrix is yielded twice; every yielded matrix is in normal form."""
from .. import ref, drive

PROPERTY = 'C03'
RULE = ('one case = a batch of parameter sets solved from their two seed rows, or a search with hundreds of partial answers resumed from the first rows of a known graph, every yielded matrix logged in order; '
        'distinct non-trivial = distinct matrices yielded')
NEED = {'params_solved': 2500, 'matrices': 100, 'params_with_several_answers': 5, 'wide_searches': 15, 'wide_searches_with_several_answers': 5}
CASE_S = {'quick': 300, 'thorough': 1800}


def cases(seed, tier):
    wide = [('resumed', p) for p in drive.broad(seed, tier)]
    return wide[:6] + [('solve', {'params': b}) for b in drive.batches(drive.param_sets(seed, tier))] + wide[6:]


def watch(what, answers, mon):
    first = {}
    for i, m in enumerate(answers):
        M = drive.tup(m)
        mon.check(M not in first, lambda: f'{what}: answer {i} repeats answer {first.get(M)}: {M}', 'repeated')
        first.setdefault(M, i)
        bad = ref.why_not_nf(M)
        mon.check(bad is None, lambda: f'{what}: answer {i} is not in normal form: {bad}: {M}', 'not-normal')
        mon.count('matrices')
        mon.seen(M)
    return first


def run(kind, p, mon):
    if kind == 'resumed':
        par, N, P = drive.broad_start(p)
        first = watch(f'{par} from {p["R"]} rows {P}', drive.solve_from(drive.arr(P)), mon)
        mon.count('wide_searches')
        mon.count('wide_searches_with_several_answers', len(first) > 1)
        return
    for q in p['params']:
        first = watch(f'solve{tuple(q)}', drive.solve(q), mon)
        mon.count('params_solved')
        mon.count('params_with_several_answers', len(first) > 1)
        mon.sample({'params': q, 'answers': len(first)})
