"""Branching splits the solution set; children share no state."""
import math
from .. import ref, drive, states
from ..common import helper
from ..states import State

PROPERTY = 'C09'
RULE = ('one case = a batch of walks from start questions; at every branching the solution sets of parent and children are enumerated and compared, and every child is worked on and '
        'overwritten while parent and siblings are watched; distinct non-trivial = distinct states branched on with at least one solution or child')
HANG_STEPS = 2_000_000  # whole cases (hundreds of calls) take less than 500 000
NEED = {'branchings_compared': 800, 'children': 1000, 'branchings_with_several_children': 300, 'sibling_watches': 600}
CASE_S = {'quick': 120, 'thorough': 900}
LIMIT = 20000


def cases(seed, tier):
    return states.plan(seed, tier, 'c09') + [('enum', {'seed': seed, 'i': i}) for i in range(8 if tier == 'quick' else 100)]


def run(kind, p, mon):
    if kind == 'enum':
        return helper(mon, enum, p, mon)
    for j in range(p['n']):
        rng = drive.rng_for('c09', p['seed'], p['i'], j)
        states.walk(rng, lambda *a: None, lambda before, q, ch, desc: fork(mon, rng, before, q, ch, desc))


def fork(mon, rng, before, q, children, desc):
    snaps = [State(c) for c in children]
    mon.count('children', len(children))
    mon.count('branchings_with_several_children', len(children) > 1)
    mon.check(State(q).key() == before.key(), lambda: f'branching changed the question: {before} became {State(q)}', 'parent')
    try:
        a = before.solutions(LIMIT)
        parts = [s.solutions(LIMIT) for s in snaps]
    except ref.TooBig:
        mon.count('too_big_to_enumerate')
        parts = None
    if parts is not None:
        union = set().union(*parts)
        mon.check(not a - union, lambda: f'branching lost {sorted(a - union)[0]}: {before} split into {snaps}; start {desc}', 'lost')
        mon.check(not union - a, lambda: f'branching invented {sorted(union - a)[0]}: {before} split into {snaps}; start {desc}', 'invented')
        mon.check(sum(map(len, parts)) == len(union), lambda: f'branches overlap: {before} split into {snaps}; start {desc}', 'overlap')
        mon.count('branchings_compared')
        if a or children:
            mon.seen(before.key())
        mon.sample({'before': repr(before)[:300], 'children': len(children), 'solutions': len(a)})
    if not children:
        return None
    # work on one child to the end, overwrite another, overwrite the parent: the rest must not notice
    order = list(range(len(children)))
    rng.shuffle(order)
    keep = order[0]
    from srg import solver
    for i in order[1:4]:
        if math.prod(n + 1 for n in snaps[i].bounds) < 4000 and rng.random() < .5:
            for n, x in enumerate(solver.solve_question(children[i])):
                if n > 20:
                    break
        else:
            scribble(children[i])
        for j in order:
            if j != i and (j not in order[1:4] or order.index(j) > order.index(i)):
                now = State(children[j])
                mon.check(now.key() == snaps[j].key(), lambda: f'working on branch {i} changed branch {j}: {snaps[j]} became {now}', 'shared')
        now = State(q)
        mon.check(now.key() == before.key(), lambda: f'working on branch {i} changed the question branched on: {before} became {now}', 'shared')
        mon.count('sibling_watches')
    scribble(q)
    now = State(children[keep])
    mon.check(now.key() == snaps[keep].key(), lambda: f'overwriting the parent changed branch {keep}: {snaps[keep]} became {now}', 'shared')
    mon.count('sibling_watches')
    return children[keep]


def scribble(q):
    for a in (q.A, q.b, q.bounds, drive.held(q.answer)):
        try:
            a[...] = 97
        except ValueError:
            pass  # read-only: cannot be shared by accident


def enum(p, mon):
    """values for one unknown: all that the quota and the other bounds allow, each once, quotas adding up"""
    from srg import fork as f, srg as s
    rng = drive.rng_for('c09e', p['seed'], p['i'])
    for _ in range(80):
        C = rng.randint(1, 9)
        bnd = [rng.choice([0, 1, 2, 3, 7, 60, 200]) for _ in range(C)]
        loc = rng.randrange(C)
        quota = rng.randint(0, sum(bnd)) if rng.random() < .8 else rng.randint(0, 2 * sum(bnd) + 1)
        x = s.array(bnd)
        got = [(int(a), int(r)) for a, r in drive.take(f.enum(quota, x, loc), 2000, 'enum')]
        rest = sum(bnd) - bnd[loc]
        need = {a for a in range(bnd[loc] + 1) if 0 <= quota - a <= rest}
        vals = [a for a, _ in got]
        mon.check(len(set(vals)) == len(vals), lambda: f'value offered twice: quota {quota} bounds {bnd} position {loc}: {got}', 'enum')
        mon.check(need <= set(vals), lambda: f'value {min(need - set(vals))} not offered: quota {quota} bounds {bnd} position {loc}: {got}', 'enum')
        mon.check(all(0 <= a <= bnd[loc] and a + r == quota for a, r in got), lambda: f'impossible value: quota {quota} bounds {bnd} position {loc}: {got}', 'enum')
        mon.check(drive.vec(x) == tuple(bnd), 'the bounds were modified', 'enum')
        mon.count('enumerations')
        mon.seen('enum', quota, tuple(bnd), loc)
