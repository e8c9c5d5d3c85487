"""Simplification steps neither lose nor invent solutions."""
from .. import ref, drive, states
from ..common import helper
from ..states import State

PROPERTY = 'C08'
RULE = ('one case = a batch of walks from start questions through simplification and branching steps, in the order of the search or in random order; '
        'before and after every step all solutions are enumerated by the reference model and compared; distinct non-trivial = distinct states a step changed or refused')
HANG_STEPS = 2_000_000  # whole cases (hundreds of calls) take less than 500 000
NEED = {'steps_compared': 5000, 'refusals_compared': 150, 'changed_by_reduce_col': 200, 'changed_by_eliminate': 200, 'changed_by_zero_in_b': 200,
        'changed_by_only_1_element_in_row': 200}
CASE_S = {'quick': 120, 'thorough': 900}
LIMIT = 20000


def cases(seed, tier):
    return states.plan(seed, tier, 'c08') + [('helpers', {'seed': seed, 'i': i}) for i in range(8 if tier == 'quick' else 80)]


def run(kind, p, mon):
    if kind == 'helpers':
        return helper(mon, helpers, p, mon)
    cache = {}

    def sols(s):
        if s.key() not in cache:
            if len(cache) > 50:
                cache.clear()
            cache[s.key()] = s.solutions(LIMIT)
        return cache[s.key()]

    def on_step(name, before, q, raised, desc):
        try:
            a = sols(before)
            if raised:
                mon.check(not a, lambda: f'{name} reports no solution, but {sorted(a)[0]} is one; {before}; start {desc}', 'refused')
                mon.count('refusals_compared')
                mon.seen(name, 'refused', before.key())
                return
            after = State(q)
            b = sols(after)
        except ref.TooBig:
            mon.count('too_big_to_enumerate')
            return
        if after.sizes != before.sizes:
            a = states.project(a, before.sizes, after.sizes)
            if not mon.check(a is not None and name == 'reduce_col', lambda: f'{name} turned groups {before.sizes} into {after.sizes}; {before}', 'groups'):
                return
        mon.check(not a - b, lambda: f'{name} lost the solution {sorted(a - b)[0]}: {before} became {after}; start {desc}', 'lost')
        mon.check(not b - a, lambda: f'{name} invented the solution {sorted(b - a)[0]}: {before} became {after}; start {desc}', 'invented')
        mon.count('steps_compared')
        mon.count('solutions_compared', len(a))
        if after.key() != before.key():
            mon.count('changed_by_' + name)
            mon.seen(name, before.key())
        mon.sample({'step': name, 'before': repr(before)[:300], 'after': repr(after)[:300], 'solutions': len(a)})

    def on_fork(before, q, children, desc):
        return None

    for j in range(p['n']):
        rng = drive.rng_for('c08', p['seed'], p['i'], j)
        end = states.walk(rng, on_step, on_fork)
        mon.count('walks_' + end.replace(' ', '_'))


def helpers(p, mon):
    """bounds and one-entry equations on their own, on systems large and small"""
    from srg import bounds, srg as s
    rng = drive.rng_for('c08h', p['seed'], p['i'])
    for _ in range(60):
        R, C = rng.randint(1, 8), rng.choice([1, 2, 3, 5, 8, 70])
        d = rng.choice([.15, .3, .5])
        A = [[int(rng.random() < d) for _ in range(C)] for _ in range(R)]
        b = [rng.choice([0, 1, 2, 3, 100, 200]) for _ in range(R)]
        bnd = [rng.choice([0, 1, 2, 5, 150]) for _ in range(C)]
        x = s.array(bnd)
        ret = bounds.lower_upper_bound(s.array(A), s.array(b), x)
        x = x if ret is None else ret
        want = [min([bnd[c]] + [b[r] for r in range(R) if A[r][c]]) for c in range(C)]
        mon.check(drive.vec(x) == tuple(want), lambda: f'upper bounds {drive.vec(x)} instead of {want}: A={A} b={b} bounds={bnd}', 'bounds')
        z = [int(c) for c in bounds.zero_bound_loc(x)]
        mon.check(z == [c for c in range(C) if want[c] == 0], lambda: f'zero bounds at {z}: bounds={want}', 'zero-bounds')
        rcs = [(int(r), int(c)) for r, c in bounds.one_element_row_locs(s.array(A))]
        ones = {(r, next(c for c in range(C) if A[r][c])) for r in range(R) if sum(A[r]) == 1}
        mon.check(set(rcs) <= ones and sorted(c for _, c in rcs) == sorted({c for _, c in ones}),
                  lambda: f'one-entry equations {sorted(rcs)} instead of one row per column out of {sorted(ones)}: A={A}', 'one-element')
        mon.count('helpers_compared')
        mon.seen('helpers', str(A), str(b), str(bnd))
