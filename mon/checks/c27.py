"""Elimination keeps exactly the non-negative solutions."""
from .. import ref, drive, questions

PROPERTY = 'C27'
RULE = ('one case = a batch of 0/1 systems without zero columns (random, nested, with copies, disjoint sums and contradictions, up to 300 columns) that are eliminated; all non-negative solutions before and after are enumerated, '
        'or, for wide systems, planted solutions and the span of the equations are compared; distinct non-trivial = distinct systems that elimination changed or refused')
HANG_STEPS = 2_000_000  # whole cases (hundreds of calls) take less than 500 000
NEED = {'systems_compared': 2500, 'refusals': 80, 'changed': 1000, 'over_64_columns': 400, 'sizes_swept': 250, 'redundant': 300, 'contradictory': 60}
CASE_S = {'quick': 120, 'thorough': 900}


def cases(seed, tier):
    n = {'quick': 40, 'thorough': 800}[tier]
    out = [('small', {'seed': seed, 'i': i}) for i in range(2 * n)] + [('wide', {'seed': seed, 'i': i}) for i in range(n // 4)]
    return out + [('sizes', {'seed': seed, 'list': list(range(lo, 331, 16))}) for lo in range(1, 17)]


def system(rng, wide, columns=None):
    while True:
        C = columns or (rng.choice([1, 2, 3, 4, 5, 6, 7]) if not wide else rng.choice([40, 62, 63, 64, 65, 66, 100, 128, 130, 200, 300]))
        R = rng.randint(1, 8)
        p = rng.choice([.3, .5, .7])
        rows = [[int(rng.random() < p) for _ in range(C)] for _ in range(R)]
        if wide and rng.random() < .25:
            # long runs of ones from the first or to the last column, whose encodings lie next to powers of two
            R = min(R, 3)
            rows = [[int(i >= n if side else i < n) for i in range(C)] for n, side in ((rng.choice([0, 1, 2, C, C - 1, C - 2, rng.randint(0, C)]), rng.random() < .5) for _ in range(R))]
        for _ in range(rng.choice([0, 1, 2, 4])):
            a, b = rng.choice(rows), rng.choice(rows)
            s, d = [x + y for x, y in zip(a, b)], [x - y for x, y in zip(a, b)]
            r = rng.random()
            rows.append(list(a) if r < .25 else [0] * C if r < .35 else s if max(s) <= 1 else d if min(d) >= 0 else [x & y for x, y in zip(a, b)] if r < .7 else [x | y for x, y in zip(a, b)])
        if rng.random() < .5:
            rows.append([1] * C)
        rng.shuffle(rows)
        if all(any(r[c] for r in rows) for c in range(C)):
            break
    top = rng.choice([1, 1, 2, 4]) if not wide else rng.choice([1, 3, 200])
    x = [rng.randint(0, top) for _ in range(C)]
    b = [sum(p_ * q_ for p_, q_ in zip(r, x)) for r in rows]
    hidden = True
    if rng.random() < .4:
        hidden = False
        for _ in range(rng.choice([1, 1, 2, 3])):
            i = rng.randrange(len(b))
            b[i] = max(0, b[i] + rng.choice([-2, -1, 1, 2]))
    return rows, b, x if hidden else None


def solve_all(rows, b, limit=20000):
    C = len(rows[0])
    caps = [min(x for r, x in zip(rows, b) if r[c]) for c in range(C)]
    return set(ref.boxed_solutions([tuple(r[c] for r in rows) for c in range(C)], caps, b, limit))


def run(kind, p, mon):
    from srg import gauss_elim
    from .c11 import rank
    no = drive.no_solution()
    rng = drive.rng_for('c27', kind, p)
    sizes = {'small': [None] * 100, 'wide': [None] * 30, 'sizes': [c for c in p.get('list', ()) for _ in range(8)]}[kind]
    mon.count('sizes_swept', len(p.get('list', ())))
    for columns in sizes:
        rows, b, x = system(rng, kind != 'small', columns)
        if not any(any(r) for r in rows):
            continue
        A, B = drive.arr(rows), drive.arr(b)
        C = len(rows[0])
        try:
            A2, b2 = gauss_elim.elim(A, B)
            raised = False
        except no:
            raised = True
        what = f'{rows if C < 20 else f"{C} columns"} = {b}'
        mon.check(drive.tup(A) == tuple(map(tuple, rows)) and drive.vec(B) == tuple(b), lambda: f'the system was modified: {what}', 'input-modified')
        mon.count('over_64_columns', C > 64)
        # what contradicts itself by rank must not be dropped
        aug = [r + [e] for r, e in zip(rows, b)]
        contradictory = rank(aug) > rank(rows)
        mon.count('contradictory', contradictory)
        if raised:
            mon.count('refusals')
            mon.seen('refused', str(rows), str(b))
            if x is not None:
                mon.check(False, f'refused, although {x} is a solution: {what}', 'refused')
            elif kind == 'small':
                try:
                    s = solve_all(rows, b)
                    mon.check(not s, lambda: f'refused, although {min(s)} is a solution: {what}', 'refused')
                except ref.TooBig:
                    pass
            continue
        R2, c2 = [drive.vec(r) for r in A2], drive.vec(b2)
        if not mon.check(all(len(r) == C for r in R2) and len(R2) == len(c2) and all(e in (0, 1) for r in R2 for e in r) and min(c2) >= 0,
                         lambda: f'not a 0/1 system with non-negative right hand sides: {R2} = {c2}; from {what}', 'shape'):
            continue
        if not mon.check(all(any(r[c] for r in R2) for c in range(C)), lambda: f'a column without entries is left: {R2} = {c2}; from {what}', 'lost-column'):
            continue
        aug2 = [list(r) + [e] for r, e in zip(R2, c2)]
        mon.check(rank(aug2 + aug) == rank(aug2) == rank(aug), lambda: f'the equations do not span the same: {R2} = {c2}; from {what}', 'span')
        mon.count('redundant', len(R2) < len(rows))
        if x is not None:
            mon.check(all(sum(p_ * q_ for p_, q_ in zip(r, x)) == e for r, e in zip(R2, c2)), lambda: f'the solution {x} is lost: {R2} = {c2}; from {what}', 'lost')
        if kind == 'small':
            try:
                s, t = solve_all(rows, b), solve_all(R2, c2)
                mon.check(s == t, lambda: f'{len(s)} solutions became {len(t)}, e.g. {min(s ^ t)}: {R2} = {c2}; from {what}', 'solutions')
                mon.count('solutions', len(s))
            except ref.TooBig:
                mon.count('too_big_to_enumerate')
        mon.count('systems_compared')
        if sorted(zip(R2, c2)) != sorted(zip(map(tuple, rows), b)):
            mon.count('changed')
            mon.seen(str(rows), str(b))
        try:
            A3, b3 = gauss_elim.elim(A2.copy(), b2.copy())
            same = sorted(zip((drive.vec(r) for r in A3), drive.vec(b3))) == sorted(zip(R2, c2))
        except no:
            same = False
        mon.check(same, lambda: f'eliminating again changes {R2} = {c2}', 'not-idempotent')
        if C < 70 and drive.spoil(A2, b2):
            A3, b3 = gauss_elim.elim(drive.arr(rows), drive.arr(b))
            mon.check(([drive.vec(r) for r in A3], drive.vec(b3)) == (R2, c2), lambda: f'another result after an earlier one was overwritten: {what}', 'shared-result')
        mon.sample({'equations': len(rows), 'columns': C, 'after': len(R2)})
