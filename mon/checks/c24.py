"""Answers, questions and partial graphs as value objects."""
import numpy as np
from .. import ref, drive, gens, states
from ..states import State

PROPERTY = 'C24'
RULE = ('one case = a batch of random histories on answers (build, complete, binarise, copy, modify, compare), questions (copy, modify one part, compare, set negative values) and partial graphs (append row after row); '
        'distinct non-trivial = distinct objects built')
HANG_STEPS = 2_000_000  # whole cases (hundreds of calls) take less than 500 000
NEED = {'answers_binarized': 800, 'answer_comparisons': 1500, 'question_comparisons': 800, 'negatives_rejected': 300, 'rows_appended': 300, 'copies_watched': 800, 'permuted_comparisons': 800, 'lengths_swept': 500}


def cases(seed, tier):
    n = {'quick': 12, 'thorough': 200}[tier]
    return ([(k, {'seed': seed, 'i': i}) for i in range(n) for k in ('answer', 'question', 'srg')]
            + [('sizes', {'lo': lo, 'hi': lo + 30}) for lo in range(1, 600 if tier == 'quick' else 1300, 30)])


def run(kind, p, mon):
    if kind == 'sizes':
        return do_sizes(p, mon)
    rng = drive.rng_for('c24', kind, p)
    for _ in range({'answer': 120, 'question': 40, 'srg': 6}[kind]):
        globals()['do_' + kind](rng, mon)


def permuted(rng, xs):
    """the same numbers in another order, or None"""
    if len(set(xs)) < 2:
        return None
    while True:
        ys = rng.sample(list(xs), len(xs))
        if ys != list(xs):
            return ys


def differ(mon, x, y, msg):
    mon.check(not (x == y) and not (y == x) and x != y and y != x, msg, 'equality')


def do_sizes(p, mon):
    """every length: fresh answers, full and empty groups"""
    from srg.srg import Answer
    for n in range(p['lo'], p['hi']):
        d = Answer.default(n)
        mon.check(len(d) == n and list(map(int, d.unknown_loc)) == list(range(n)) and drive.vec(d.quota) == (1,) * n, lambda: f'the default answer of length {n} is not all unknown single entries: {drive.vec(d.quota)}', 'default')
        for sizes in ([n], [1] * n, [n, 1, n]):
            for vals in ([0] * len(sizes), sizes, [s // 2 for s in sizes]):
                got = drive.vec(make(sizes, vals).binarize())
                mon.check(got == tuple(x for v, s in zip(vals, sizes) for x in [1] * v + [0] * (s - v)), lambda: f'values {vals} in groups {sizes} become {got}', 'binarize')
        mon.count('lengths_swept')
        mon.seen('length', n)


def make(sizes, values):
    from srg.srg import Answer
    return Answer(value=drive.arr(values), location=drive.arr(states.starts(sizes)), len=sum(sizes))


def do_answer(rng, mon):
    from srg.srg import Answer
    G = rng.choice([1, 1, 2, 3, 5, 12])
    sizes = [rng.choice([1, 1, 2, 3, 5, 30, 130]) for _ in range(G)]
    vals = [rng.choice([0, n, rng.randint(0, n)]) for n in sizes]
    a = make(sizes, vals)
    mon.check(drive.vec(a.quota) == tuple(sizes) and len(a) == sum(sizes), lambda: f'groups {sizes} read as {drive.vec(a.quota)}', 'groups')
    want = tuple(x for v, n in zip(vals, sizes) for x in [1] * v + [0] * (n - v))
    got = drive.vec(a.binarize())
    mon.check(got == want, lambda: f'values {vals} in groups {sizes} become {got}', 'binarize')
    mon.check(drive.vec(drive.held(a)) == tuple(vals), 'binarising changed the answer', 'input-modified')
    mon.count('answers_binarized')
    mon.seen('answer', tuple(sizes), tuple(vals))
    # unknowns
    unk = sorted(rng.sample(range(G), rng.randint(0, G)))
    b = make(sizes, [-1 if i in unk else v for i, v in enumerate(vals)])
    mon.check(list(map(int, b.unknown_loc)) == unk and bool(b.unknown) == bool(unk), lambda: f'unknown entries {list(map(int, b.unknown_loc))} instead of {unk}', 'unknown')
    # copies
    c = b.copy()
    mon.check(c == b and b == c and len(c) == len(b), 'a copy is not equal to the original', 'copy')
    drive.held(c)[:] = 0
    drive.held(c, '_loc')[:] = 0
    mon.check(list(map(int, b.unknown_loc)) == unk and drive.vec(b.quota) == tuple(sizes), 'changing a copy changed the original', 'copy')
    mon.count('copies_watched')
    # equality: exactly when values, groups and length agree
    i = rng.randrange(G)
    v2 = list(vals)
    v2[i] = rng.choice([x for x in range(-1, sizes[i] + 1) if x != vals[i]])
    differ(mon, a, make(sizes, v2), lambda: f'answers that differ in value {i} are equal: {vals} {v2}')
    same = make(sizes, vals)
    mon.check(a == same and same == a and not (a != same), lambda: f'answers that agree in all parts are not equal: {vals} in groups {sizes}', 'equality')
    swapped = permuted(rng, vals)
    if swapped and all(x <= n for x, n in zip(swapped, sizes)):
        differ(mon, a, make(sizes, swapped), lambda: f'answers with the same values in another order are equal: {vals} {swapped} in groups {sizes}')
        mon.count('permuted_comparisons')
    swapped = permuted(rng, sizes)
    if swapped and all(x <= n for x, n in zip(vals, swapped)):
        differ(mon, a, make(swapped, vals), lambda: f'answers with the same groups in another order are equal: {sizes} {swapped}')
        mon.count('permuted_comparisons')
    s2 = list(sizes)
    s2[-1] += rng.choice([1, 1, 2, 64, 256])
    differ(mon, a, make(s2, vals), lambda: f'answers of different length are equal: {sizes} {s2}')
    if G > 1:
        s3 = list(sizes)
        s3[0] += 1
        s3[1] -= 1
        if s3[1] > 0:
            differ(mon, a, make(s3, vals), lambda: f'answers with different groups are equal: {sizes} {s3}')
            mon.count('answer_comparisons')
        differ(mon, a, make(sizes[:-1], vals[:-1]), 'answers with a different number of groups are equal')
        # the same length in fewer groups
        differ(mon, a, make(sizes[:-2] + [sizes[-2] + sizes[-1]], vals[:-1]), 'answers with a different number of groups are equal')
    mon.count('answer_comparisons', 3)
    d = Answer.default(sum(sizes))
    mon.check(len(d) == sum(sizes) and len(d.unknown_loc) == sum(sizes) and drive.vec(d.quota) == (1,) * sum(sizes), 'the default answer is not all unknown single entries', 'default')


def do_question(rng, mon):
    from srg.srg import Question
    st = states.start_question(rng)
    if st is None or st[0] is None:
        return
    q = st[0]
    fn = states.steps()
    no = drive.no_solution()
    try:
        for name in states.STEPS[:rng.randint(0, 4)]:
            fn[name](q)
    except no:
        return
    s = State(q)
    c = q.copy()
    mon.check(State(c).key() == s.key() and c == q and q == c, lambda: f'a copy differs: {s}', 'copy')
    mon.seen('question', s.key())
    # every part on its own makes a difference
    parts = []
    if s.b:
        i = rng.randrange(len(s.b))

        def f(x, i=i):
            x.b[i] += 1
        parts.append(('right hand side', f))
    if s.A and s.bounds:
        r, col = rng.randrange(len(s.A)), rng.randrange(len(s.bounds))

        def f(x, r=r, col=col):
            x.A[r, col] ^= 1
        parts.append(('coefficient', f))

        def f(x, col=col):
            x.bounds[col] += 1
        parts.append(('bound', f))

    def f(x):
        x.quota = x.quota + 1
    parts.append(('quota', f))
    if s.values:
        e = rng.randrange(len(s.values))

        def f(x, e=e):
            drive.held(x.answer)[e] += 2
        parts.append(('answer', f))
    # the same numbers in another order
    for what, get, put in (('right hand sides', lambda x: x.b, lambda x, y: setattr(x, 'b', y)), ('bounds', lambda x: x.bounds, lambda x, y: setattr(x, 'bounds', y)),
                           ('answers', lambda x: drive.held(x.answer), lambda x, y: drive.held(x.answer).__setitem__(slice(None), y))):
        y = permuted(rng, [int(e) for e in get(q)])
        if y:
            def f(x, put=put, y=y):
                put(x, drive.arr(y))
            parts.append(('permutation of ' + what, f))
    for what, axis in (('rows', 0), ('columns', 1)):
        n = len(s.A) if axis == 0 else len(s.bounds)
        order = rng.sample(range(n), n)
        B = q.A.take(order, axis=axis) if n else q.A
        if n and not (B == q.A).all():
            def f(x, B=B):
                x.A = B.copy()
            parts.append(('permutation of ' + what, f))
    # parts moved from one entry to another: all sums stay
    if len(s.b) > 1 and max(s.b) > 0:
        i = rng.choice([i for i, e in enumerate(s.b) if e])
        j = rng.choice([j for j in range(len(s.b)) if j != i])

        def f(x, i=i, j=j):
            x.b[i] -= 1
            x.b[j] += 1
        parts.append(('right hand side, the sum staying the same', f))
    if len(s.bounds) > 1 and max(s.bounds) > 0:
        i = rng.choice([i for i, e in enumerate(s.bounds) if e])
        j = rng.choice([j for j in range(len(s.bounds)) if j != i])

        def f(x, i=i, j=j):
            x.bounds[i] -= 1
            x.bounds[j] += 1
        parts.append(('bound, the sum staying the same', f))
    # an equation more, an equation less
    if s.A and s.bounds:
        n = rng.randint(1, 3)

        def f(x, n=n):
            x.A, x.b = x.A[[0] * n + list(range(len(x.A)))], drive.arr([int(x.b[0])] * n + [int(e) for e in x.b])
        parts.append(('number of equations', f))

        def f(x):
            x.A, x.b = x.A[:-1].copy(), x.b[:-1].copy()
        parts.append(('number of equations', f))

        def f(x):
            x.A, x.b = x.A[:1].copy(), x.b[:1].copy()
        parts.append(('number of equations', f))
    for what, f in parts:
        d = q.copy()
        f(d)
        if State(d).key() == s.key():
            continue
        mon.count('permuted_comparisons', 'permut' in what or 'the sum' in what)
        differ(mon, d, q, lambda: f'questions that differ in a {what} are equal: {s}')
        mon.check(State(q).key() == s.key(), lambda: f'changing a {what} of a copy changed the original: {s} became {State(q)}', 'copy')
        mon.check(State(c).key() == s.key(), lambda: f'changing a {what} of a copy changed another copy', 'copy')
        mon.count('question_comparisons')
        mon.count('copies_watched')
    # negative parts are rejected and the question stays usable
    for what in ('b', 'bounds', 'quota'):
        d = q.copy()
        if what == 'quota':
            new = -rng.randint(1, 5)
        else:
            new = getattr(d, what).copy()
            if not new.size:
                continue
            new[rng.randrange(new.size)] = -rng.choice([1, 2, 100])
        try:
            setattr(d, what, new)
            mon.check(False, f'a negative {what} is accepted: {new}', 'negative')
        except Exception:
            mon.check(True, '')
            mon.count('negatives_rejected')
        kw = {'A': q.A.copy(), 'b': q.b.copy(), 'quota': q.quota, 'bounds': q.bounds.copy(), what: new}
        try:
            Question(kw['A'], kw['b'], kw['quota'], kw['bounds'], q.answer.copy())
            mon.check(False, f'a question with a negative {what} is accepted: {new}', 'negative')
        except Exception:
            mon.check(True, '')
            mon.count('negatives_rejected')


def do_srg(rng, mon):
    name = rng.choice(['petersen', 'rook4', 'T6', 'paley13', 'clebsch', 'T8', 'pentagon', '3K4', 'paley37'])
    par, M = gens.build(name)
    N = ref.random_nf(M, rng)
    v = par[0]
    s = drive.start(drive.arr(N[:2]))
    R = 2
    while R < v:
        mon.check(not s.solved(), lambda: f'solved after {R} of {v} rows', 'append')
        old = s.current_matrix
        t = s.append_and_return_new(drive.arr(list(N[R][R + 1:])))
        mon.check(drive.tup(old) == N[:R] and s.current_matrix is old or drive.tup(s.current_matrix) == N[:R], lambda: 'appending changed the old partial graph', 'append')
        got = drive.tup(t.current_matrix)
        mon.check(got == N[:R + 1], lambda: f'appending row {R} of {N} gives {got}', 'append')
        if rng.random() < .3:
            side = s.append_and_return_new(drive.arr([1 - x for x in N[R][R + 1:]]))  # a sibling
            try:
                side.current_matrix[...] = 9
            except ValueError:
                pass
            mon.check(drive.tup(t.current_matrix) == N[:R + 1] and drive.tup(s.current_matrix) == N[:R], 'partial graphs share rows', 'append')
        s = t
        R += 1
        mon.count('rows_appended')
        mon.seen('srg', N[:R])
    mon.check(bool(s.solved()), 'not solved after the last row', 'append')
