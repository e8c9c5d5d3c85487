"""The stored solutions are complete; problems stored as unsolvable are unsolvable."""
from .. import ref, drive, gens
from .c18 import stored

PROPERTY = 'C19'
RULE = ('one case = one stored problem, whose stored set is compared with all normal forms found by the reference model, by normalising known graphs in every possible way, and, where it is quick, by the solver; '
        'distinct non-trivial = distinct expected matrices and distinct problems without solution')
NEED = {'problems_compared': 15, 'expected_matrices': 180, 'solved_too': 10}
CASE_S = {'quick': 200, 'thorough': 1800}
FIRST_ONLY = {(25, 12, 5, 6), (26, 10, 3, 4)}
# sets too large for the row by row model: every graph with these parameters is known (T(8) and the three Chang graphs)
BY_GRAPHS = {(28, 12, 6, 4): ['T8', 'chang1', 'chang2', 'chang3']}
PALEY = {(29, 14, 6, 7): 'paley29', (25, 12, 5, 6): 'paley25'}


def cases(seed, tier):
    return [('problem', {'params': list(q), 'tier': tier}) for q in reversed(stored())]


def run(kind, p, mon):
    from srg import database as db
    q = tuple(p['params'])
    got = {drive.tup(a) for a in db.get_solutions(*q)}
    if q in FIRST_ONLY:
        mon.check(len(got) >= 1, lambda: f'{q}: the first solution is not stored', 'missing')
        M = gens.build(PALEY[q])[1] if q in PALEY else None
        for a in got:
            mon.check(ref.why_not_srg(a, *q) is None and ref.is_nf(a), lambda: f'{q}: the stored matrix is no answer', 'extra')
            mon.seen(a)
        return
    if q in PALEY:
        M = ref.normalise(gens.build(PALEY[q])[1])
        mon.check(bool(got), lambda: f'{q} is stored without solution although {PALEY[q]} is one', 'database-empty:' + '_'.join(map(str, q)))
        if got:
            mon.check(M in got, lambda: f'{q}: the stored solutions lack {PALEY[q]}: {M}', 'missing')
        mon.count('problems_compared')
        return
    if q in BY_GRAPHS:
        want = set()
        for n in BY_GRAPHS[q]:
            par, M = gens.build(n)
            assert par == q
            want |= ref.all_nf(M, 200000)
    else:
        want = set(ref.enumerate_nf(*q))
    mon.check(not want - got, lambda: f'{q}: {len(want - got)} of {len(want)} solutions are not stored, e.g. {min(want - got)}', 'missing')
    mon.check(not got - want, lambda: f'{q}: {len(got - want)} stored solutions are none, e.g. {min(got - want)}', 'extra')
    mon.count('problems_compared')
    mon.count('expected_matrices', len(want))
    for M in want:
        mon.seen(M)
    if not want:
        mon.seen('none', q)
    if drive.cost(q) <= (16 if p['tier'] == 'quick' else 300) and q not in BY_GRAPHS:
        s = {drive.tup(a) for a in drive.solve(q)}
        mon.check(s == got, lambda: f'{q}: solving gives {len(s)} answers, {len(got)} are stored', 'solver')
        mon.count('solved_too')
    mon.sample({'params': q, 'expected': len(want), 'stored': len(got)})
