"""Sorting is a stable permutation in the order of upper triangles; swapping relabels two vertices."""
from .. import ref, drive, gens

PROPERTY = 'C14'
RULE = ('one case = a batch of sequences of matrices (random, nearly equal, with repetitions, as list, tuple or generator) that are sorted, and of swaps; '
        'distinct non-trivial = distinct sequences of at least two different matrices, and distinct swaps of different vertices')
NEED = {'sequences': 300, 'sequences_with_repetitions': 80, 'swaps': 1000, 'orders_swept': 100}


def cases(seed, tier):
    out = [(k, {'seed': seed, 'i': i}) for i in range({'quick': 48, 'thorough': 800}[tier]) for k in ('sort', 'swap')]
    return out + [('orders', {'seed': seed, 'list': list(range(lo, 141, 12)) + [t for t in (181, 200, 255, 256, 257, 300) if t % 12 == lo % 12]}) for lo in range(2, 14)]


def rand_graph(rng, n, d):
    M = [[0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i):
            M[i][j] = M[j][i] = int(rng.random() < d)
    return tuple(map(tuple, M))


def flip(M, rng, last=False):
    n = len(M)
    A = [list(r) for r in M]
    i, j = (n - 2, n - 1) if last else rng.sample(range(n), 2)
    A[i][j] ^= 1
    A[j][i] ^= 1
    return tuple(map(tuple, A))


def run(kind, p, mon):
    from srg import sorter
    rng = drive.rng_for('c14', kind, p)
    if kind == 'orders':  # every order: pairs that differ in a single far away entry, in both orders
        for n in p['list']:
            base = rand_graph(rng, n, .5)
            others = [flip(base, rng), flip(base, rng, last=True)] if n > 1 else [base]
            lst = [base] + others + [base]
            arrs = [drive.arr(M) for M in lst]
            for _ in range(2):
                order = rng.sample(range(len(lst)), len(lst))
                out = [drive.tup(a) for a in sorter.sort([arrs[i] for i in order])]
                mon.check(out == sorted(lst, key=ref.code), lambda: f'{len(lst)} matrices of order {n} in the order {order} are not sorted', 'sort')
                mon.count('sequences')
            for i, j in [(0, n - 1), (n - 1, n - 2), (rng.randrange(n), rng.randrange(n))]:
                order = list(range(n))
                order[i], order[j] = j, i
                res = sorter.swap(arrs[0], i, j)
                mon.check(drive.tup(res) == ref.relabel(base, order), lambda: f'swapping {i} and {j} in a matrix of order {n} is wrong', 'swap')
                mon.check(drive.tup(arrs[0]) == base, f'swapping {i} and {j} in a matrix of order {n} modified it', 'input-modified')
                if drive.spoil(res):
                    mon.check(drive.tup(arrs[0]) == base, f'what swapping {i} and {j} in a matrix of order {n} returned is no new matrix', 'input-modified')
                    arrs[0] = drive.arr(base)
                    mon.check(drive.tup(sorter.swap(arrs[0], i, j)) == ref.relabel(base, order), f'swapping {i} and {j} in a matrix of order {n} is wrong after an earlier result was overwritten', 'swap')
                mon.count('swaps')
            mon.seen('order', n)
            mon.count('orders_swept')
        return
    if kind == 'sort':
        for _ in range(30):
            n = rng.choice([2, 3, 4, 5, 8, 13, 28, 50])
            k = rng.choice([0, 1, 2, 3, 7, 20]) if n < 30 else rng.choice([2, 3])
            base = rand_graph(rng, n, rng.random())
            if n >= 5 and rng.random() < .3:
                base = rng.choice([gens.build(x)[1] for x in ('petersen', 'T6', 'rook4', 'T8')])
            lst = []
            for _ in range(k):
                r = rng.random()
                lst.append(rng.choice(lst) if lst and r < .25 else flip(base, rng, last=r < .45) if r < .7 else ref.relabel(base, rng.sample(range(len(base)), len(base))) if r < .85
                           else rand_graph(rng, len(base), rng.random()))
            arrs = [drive.arr(M) for M in lst]
            given = rng.choice([list, tuple, iter])(arrs) if rng.random() < .5 else (a for a in arrs)
            keep = list(arrs)
            out = list(sorter.sort(given))
            want = sorted(range(k), key=lambda i: ref.code(lst[i]))
            got = [next((i for i in range(k) if arrs[i] is a), None) for a in out]
            if None in got:  # copies are as good as the matrices themselves
                mon.check([drive.tup(a) for a in out] == [lst[i] for i in want], lambda: f'sorting {lst} gives {[drive.tup(a) for a in out]}', 'sort')
            else:
                mon.check(got == want, lambda: f'sorting {lst} gives positions {got} instead of {want}', 'sort')
            mon.check(all(a is b for a, b in zip(arrs, keep)) and [drive.tup(a) for a in arrs] == lst, 'sorting modified its input', 'input-modified')
            mon.count('sequences')
            mon.count('sequences_with_repetitions', len(set(lst)) < k)
            if len(set(lst)) > 1:
                mon.seen('sort', tuple(lst))
            mon.sample({'matrices': k, 'order': n, 'positions': got})
    else:
        for _ in range(40):
            n = rng.choice([2, 3, 5, 9, 20, 70])
            M = rand_graph(rng, n, rng.random())
            i, j = rng.randrange(n), rng.randrange(n)
            order = list(range(n))
            order[i], order[j] = j, i
            want = ref.relabel(M, order)
            a = drive.arr(M)
            f = rng.choice([sorter.swap, sorter.swap_and_verify])
            s = f(a, i, j)
            mon.check(drive.tup(s) == want, lambda: f'swapping {i} and {j} in {M} gives {drive.tup(s)}', 'swap')
            mon.check(drive.tup(a) == M, lambda: f'swapping {i} and {j} modified its input {M}', 'input-modified')
            mon.check(drive.tup(f(s, i, j)) == M, lambda: f'swapping {i} and {j} twice does not restore {M}', 'swap')
            mon.check(drive.tup(a) == M, 'swapping modified its input', 'input-modified')
            mon.count('swaps')
            if want != M:
                mon.seen('swap', M, i, j)
