"""Bounded compositions: complete, once, in lexicographic order."""
import itertools
from .. import ref, drive

PROPERTY = 'C22'
RULE = ('one case = a block of (sum, bounds): all bounds up to 4 of length up to 4 exhaustively, larger ones at random; the yielded sequence is compared with the filtered product of the ranges; '
        'distinct non-trivial = distinct (sum, bounds) with at least one composition')
HANG_STEPS = 10_000_000  # whole cases take less than 3e6
NEED = {'sequences': 6000, 'tuples': 80000, 'empty_ones': 600, 'sizes_swept': 250}


def cases(seed, tier):
    hi = 3 if tier == 'quick' else 4
    out = [('grid', {'n': n, 'first': f, 'hi': hi}) for n in (1, 2, 3, 4, 5) for f in range(hi + 1)]
    out += [('random', {'seed': seed, 'i': i}) for i in range(48 if tier == 'quick' else 600)]
    out += [('sizes', {'seed': seed, 'list': list(range(lo, 301, 12))}) for lo in range(1, 13)]
    return out


def compositions(s, bounds):
    """independent: dynamic, not recursive over the tail"""
    cur = [((), s)]
    for i, b in enumerate(bounds):
        rest = sum(bounds[i + 1:])
        cur = [(t + (x,), r - x) for t, r in cur for x in range(b + 1) if 0 <= r - x <= rest]
    return [t for t, r in cur if r == 0]


def one(s, bounds, mon, given=None):
    from srg import partition
    want = compositions(s, list(bounds))
    given = list(bounds) if given is None else given
    keep = [int(x) for x in given]
    got = [tuple(x.item() if hasattr(x, 'item') else x for x in t) for t in drive.take(partition.enum(s, given), len(want) + 50, 'enum')]
    mon.check(got == want, lambda: f'{s} over {list(bounds)}: {len(got)} tuples instead of {len(want)}, the first difference: {next(((a, b) for a, b in itertools.zip_longest(got, want) if a != b), None)}', 'sequence')
    mon.check([int(x) for x in given] == keep, 'the bounds were modified', 'input-modified')
    mon.count('sequences')
    mon.count('tuples', len(want))
    mon.count('empty_ones', not want)
    if want:
        mon.seen(s, tuple(bounds))


def run(kind, p, mon):
    if kind == 'grid':
        for rest in itertools.product(range(p['hi'] + 1), repeat=p['n'] - 1):
            b = (p['first'],) + rest
            if p['n'] == 5 and sum(b) % 3:
                continue
            for s in range(sum(b) + 3):
                one(s, b, mon)
        return
    rng = drive.rng_for('c22', kind, p)
    if kind == 'sizes':  # every number of parts, and every sum, with few compositions each
        for n in p['list']:
            ones = [0] * n
            for i in rng.sample(range(n), min(n, 9)):
                ones[i] = rng.choice([1, 1, 2])
            full = [rng.randint(1, 3) for _ in range(n)]  # only small sums: the enumeration looks at every start
            for b, s in [(ones, rng.randint(0, sum(ones))), (ones, sum(ones) + 1), (full, 0), (full, 1), ([n, 1], n), ([n, n], n), ([1, n, 2], n + 1), ([n, 2 * n], 2 * n)]:
                if n <= 150 or len(b) < 4:  # the enumeration is recursive in the number of parts
                    one(s, b, mon, rng.choice([list(b), tuple(b), drive.arr(b)]))
            mon.count('sizes_swept')
        return
    for _ in range(60):
        n = rng.choice([1, 1, 2, 3, 6, 8, 12, 25])
        top = {1: 400, 2: 150, 3: 30, 6: 4, 8: 3, 12: 1, 25: 1}[n]
        b = [rng.randint(0, top) for _ in range(n)]
        s = rng.choice([0, 1, sum(b), sum(b) - 1, sum(b) + 1, rng.randint(0, sum(b) + 1), max(b), min(b)])
        if s < 0:
            continue
        if n >= 12:
            s = rng.choice([0, 1, 2, sum(b), max(0, sum(b) - 2), sum(b) + 1])
        given = rng.choice([list(b), tuple(b), drive.arr(b)])
        one(s, b, mon, given)
        mon.sample({'sum': s, 'bounds': b})
