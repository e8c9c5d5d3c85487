"""Collapsing and expanding column runs."""
import numpy as np
from .. import ref, drive

PROPERTY = 'C23'
RULE = ('one case = a batch of 0/1 matrices made of runs of equal columns (1 to 300 rows, neighbouring runs differing in a single far-away entry, equal columns that are not neighbours), collapsed and expanded; '
        'distinct non-trivial = distinct matrices with at least two runs')
HANG_STEPS = 2_000_000  # whole cases (hundreds of calls) take less than 500 000
NEED = {'matrices': 500, 'over_64_rows': 300, 'sizes_swept': 300, 'repeated_columns_apart': 50}


def cases(seed, tier):
    out = [('runs', {'seed': seed, 'i': i}) for i in range({'quick': 48, 'thorough': 800}[tier])]
    return out + [('sizes', {'seed': seed, 'list': list(range(lo, 331, 12))}) for lo in range(1, 13)]


def run(kind, p, mon):
    from srg import unique
    rng = drive.rng_for('c23', kind, p)
    todo = [(rng.choice([1, 2, 3, 5, 9, 31, 32, 33, 62, 63, 64, 65, 66, 100, 128, 200, 300]), rng.choice([1, 1, 2, 3, 6, 12])) for _ in range(40)]
    if kind == 'sizes':  # every number of rows, and every number of runs
        todo = [x for s in p['list'] for x in ((s, 12), (s, 12), (rng.choice([9, 40, 70]), s))]
        mon.count('sizes_swept', len(p['list']))
    for R, n in todo:
        cols, cur = [], [rng.randint(0, 1) for _ in range(R)]
        for _ in range(n):
            for _ in range(rng.choice([1, 1, 2, 3, 9])):
                cols.append(tuple(cur))
            cur = list(rng.choice(cols)) if rng.random() < .3 else cur[:]
            if rng.random() < .7:
                cur[rng.choice([0, R - 1, rng.randrange(R)])] ^= 1
            elif rng.random() < .5:
                cur = [rng.randint(0, 1) for _ in range(R)]
        A = tuple(zip(*cols))
        a = np.array(A, dtype=rng.choice([np.int64, np.int8])) if rng.random() < .4 else drive.arr(A)
        red, lens, at = unique.reduce(a)
        cells = ref.cells_of(cols)
        starts = [sum(k for _, k in cells[:i]) for i in range(len(cells))]
        what = lambda: f'{len(cols)} columns of {R} rows in runs {[k for _, k in cells]}: {A if R < 12 else "(large)"}'
        mon.check([int(x) for x in lens] == [k for _, k in cells], lambda: f'lengths {[int(x) for x in lens]}: {what()}', 'lengths')
        mon.check([int(x) for x in at] == starts, lambda: f'positions {[int(x) for x in at]}: {what()}', 'positions')
        mon.check(drive.tup(red) == tuple(zip(*[c for c, _ in cells])), lambda: f'wrong columns kept: {what()}', 'columns')
        back = unique.expand(red, lens)
        mon.check(drive.tup(back) == A, lambda: f'expanding does not restore: {what()}', 'expand')
        mon.check(drive.tup(a) == A, lambda: f'collapsing modified its input: {what()}', 'input-modified')
        # expanding on its own, with other lengths
        m = [rng.choice([1, 2, 5]) for _ in cells]
        e = unique.expand(red, drive.arr(m))
        mon.check(drive.tup(e) == tuple(zip(*[c for (c, _), k in zip(cells, m) for _ in range(k)])), lambda: f'expanding by {m} is wrong: {what()}', 'expand')
        mon.check([int(x) for x in lens] == [k for _, k in cells], 'expanding modified the lengths', 'input-modified')
        if R < 70 and drive.spoil(red, lens, at, back, e):
            red, lens, at = unique.reduce(np.array(a))
            mon.check([int(x) for x in lens] == [k for _, k in cells] and [int(x) for x in at] == starts and drive.tup(red) == tuple(zip(*[c for c, _ in cells])),
                      lambda: f'another result after an earlier one was overwritten: {what()}', 'shared-result')
            mon.check(drive.tup(unique.expand(red, lens)) == A, lambda: f'expanding does not restore after an earlier result was overwritten: {what()}', 'shared-result')
        mon.count('matrices')
        mon.count('over_64_rows', R > 64)
        mon.count('repeated_columns_apart', len({c for c, _ in cells}) < len(cells))
        if len(cells) > 1:
            mon.seen(A)
        mon.sample({'rows': R, 'runs': [k for _, k in cells]})
