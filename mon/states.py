"""Search states: semantic solution sets, and walks through the real simplification and branching steps."""
import functools
from . import ref, drive, questions

STEPS = ['reduce_col', 'eliminate', 'zero_in_b', 'only_1_element_in_row']


def steps():
    from srg import solver
    return {n: getattr(solver, n) for n in STEPS}


class State:
    """an exact, independent copy of a question"""

    def __init__(self, q):
        self.A = [drive.vec(r) for r in q.A]
        self.b = drive.vec(q.b)
        self.quota = int(q.quota)
        self.bounds = drive.vec(q.bounds)
        a = q.answer
        self.sizes = drive.vec(a.quota)
        self.values = drive.vec(drive.held(a))
        self.unknown = drive.vec(a.unknown_loc)
        self.len = len(a)

    def key(self):
        return (tuple(self.A), self.b, self.quota, self.bounds, self.sizes, self.values, self.len)

    def __repr__(self):
        return f'A={[list(r) for r in self.A]} b={list(self.b)} quota={self.quota} bounds={list(self.bounds)} sizes={list(self.sizes)} values={list(self.values)}'

    def solutions(self, limit):
        """all completed answers: per group, the number of ones"""
        eqs = list(zip(self.A, self.b)) + [((1,) * len(self.bounds), self.quota)]
        cols = [tuple(r[c] for r, _ in eqs) for c in range(len(self.bounds))]
        out = set()
        for s in ref.boxed_solutions(cols, list(self.bounds), [x for _, x in eqs], limit):
            v = list(self.values)
            for loc, x in zip(self.unknown, s):
                v[loc] = x
            if all(x <= n for x, n in zip(v, self.sizes)):
                out.add(tuple(v))
        return out

    def why_malformed(self):
        C = len(self.bounds)
        if any(len(r) != C for r in self.A):
            return f'{C} bounds but rows of length {sorted({len(r) for r in self.A})}'
        if len(self.A) != len(self.b):
            return f'{len(self.A)} equations but {len(self.b)} right hand sides'
        if len(self.unknown) != C:
            return f'{len(self.unknown)} unknown entries but {C} columns'
        if any(x not in (0, 1) for r in self.A for x in r):
            return 'a coefficient is not 0 or 1'
        if min(self.b, default=0) < 0 or min(self.bounds, default=0) < 0 or self.quota < 0:
            return 'something is negative'
        if sum(self.sizes) != self.len:
            return f'group sizes {self.sizes} do not add up to {self.len}'
        if any(v > n for v, n in zip(self.values, self.sizes)):
            return 'an entry is above its group size'
        if any(v < 0 for i, v in enumerate(self.values) if i not in self.unknown):
            return 'a fixed entry is negative'
        return None


def starts(sizes):
    """cut points of groups"""
    out, p = [], 0
    for n in sizes:
        out.append(p)
        p += n
    return out


def project(sols, fine, coarse):
    """counts per coarse group of answers given per fine group; None when the groups do not nest"""
    fs, cs = starts(fine), starts(coarse)
    if not set(cs) <= set(fs):
        return None
    idx = []
    j = -1
    for s in fs:
        if j + 1 < len(cs) and s == cs[j + 1]:
            j += 1
        idx.append(j)
    out = set()
    for x in sols:
        c = [0] * len(coarse)
        for i, n in zip(idx, x):
            c[i] += n
        out.add(tuple(c))
    return out


def start_question(rng, kind=None):
    """(question, description) or None"""
    kind = kind or rng.choice(['system', 'system', 'tiny', 'tiny', 'mid', 'wide', 'loose', 'params'])
    if kind in questions.NAMES:
        par, P = questions.prefix(rng, questions.NAMES[kind], wander=rng.random() < .6)
        if len(P) >= par[0]:
            return None
        q, A, b = questions.pose('prefix', par, P)
        return q, f'{par} {P}'
    if kind in ('loose', 'params'):
        par, P = questions.loose(rng) if kind == 'loose' else questions.from_seed(rng)
        if len(P) >= par[0]:
            return None
        q, A, b = questions.pose('prefix', par, P)
        return q, f'{par} {P}'
    if rng.random() < .35:
        return own_bounds(rng)
    A, b = questions.system(rng, kind == 'wide')
    q, A, b = questions.pose('system', None, (A, b))
    return q, f'A={A} b={b}'


def own_bounds(rng):
    """a question stated by hand: groups of several entries, some of them fixed, upper bounds of its own; equal columns side by side"""
    from srg.srg import Question, Answer
    A, _ = questions.system(rng)
    R = len(A)
    cols = rng.sample(list(zip(*A)), min(len(A[0]), rng.randint(1, 7)))
    first = rng.sample(sorted(set(cols)), len(set(cols)))
    cols.sort(key=first.index)
    sizes = [rng.choice([1, 1, 2, 3, 5]) for _ in cols]
    bounds = [rng.randint(0, n) if rng.random() < .5 else n for n in sizes]
    x = [rng.randint(0, m) for m in bounds]
    A = [[c[i] for c in cols] for i in range(R)]
    b = [sum(e * y for e, y in zip(r, x)) for r in A]
    if rng.random() < .3:
        i = rng.randrange(R)
        b[i] = max(0, b[i] + rng.choice([-1, 1, 2]))
    # entries fixed already, in between
    value, loc, n = [], [], 0
    for c, m in enumerate(sizes):
        while rng.random() < .25 and not (c and cols[c] == cols[c - 1]):
            g = rng.randint(1, 4)
            value.append(rng.randint(0, g))
            loc.append(n)
            n += g
        value.append(Answer.UNKNOWN)
        loc.append(n)
        n += m
    q = Question(drive.arr(A), drive.arr(b), quota=drive.arr(b)[-1], bounds=drive.arr(bounds), ans=Answer(value=drive.arr(value), location=drive.arr(loc), len=n))
    return q, f'A={A} b={b} bounds={bounds} groups at {loc} of {n} holding {value}'


PLAN = {'quick': (1200, 15), 'thorough': (4800, 30)}


def plan(seed, tier, salt):
    n, size = PLAN[tier]
    return [('walk', {'seed': seed, 'salt': salt, 'i': i, 'n': size}) for i in range(n)]


def walk(rng, on_step, on_fork, max_len=40, kind=None):
    """Walk from a start question to an end of the search, choosing steps and branches at random.
    on_step(name, before, question, raised) after every step; on_fork(before, question, children) at every branching;
    the walk continues with a random child."""
    st = start_question(rng, kind)
    if st is None or st[0] is None:
        return 'refused'
    q, desc = st
    no = drive.no_solution()
    fn = steps()
    from srg import solver
    free = rng.random() < .4
    merged = False
    i = 0
    for _ in range(max_len):
        before = State(q)
        if not before.unknown and not before.bounds:
            if i >= 4 or rng.random() < .3:
                return 'complete'
        if not merged:
            name = 'reduce_col'
        elif free:
            name = rng.choice(STEPS + ['fork_enum'])
        else:
            name = (STEPS + ['fork_enum'])[i % 5]
        i += 1
        if name == 'fork_enum':
            if not before.unknown:
                continue
            try:
                children = drive.take(solver.fork_enum(q), 5000, 'fork_enum')
            except no:
                children = []
            nxt = on_fork(before, q, children, desc)
            if nxt is None:
                if not children:
                    return 'dead end'
                nxt = rng.choice(children)
            q = nxt
            merged = True
            continue
        try:
            fn[name](q)
            raised = False
        except no:
            raised = True
        on_step(name, before, q, raised, desc)
        merged = True
        if raised:
            return 'no solution'
    return 'long'
