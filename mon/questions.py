"""Workload of next-row questions: systems A x = b over 0/1 vectors with equal columns side by side."""
import itertools

from . import ref, gens, drive
from .common import rng_for

TINY = ['pentagon', 'paley9', 'petersen', 'petersen_c', 'T6', 'T6_c', 'K33', 'K333', 'K2222', '3K4', '4K2', 'rook4', 'rook4_c', 'shrikhande', 'clebsch', 'clebsch_c']
MID = ['paley13', 'paley17', 'K66', 'T7', 'T7_c', 'shrikhande_c', 'paley25', 'rook5', 'rook5_c', 'L3_5', 'T8', 'T8_c', 'chang1', 'chang2', 'chang3', 'chang1_c', 'schlaefli',
       'schlaefli_c', 'paley29', 'rook6', 'L3_6', 'Sp42']
BIG = ['paley37', 'paley41', 'rook6_c', 'L4_5', 'Sp43', 'Sp43_c', 'T9', 'HoSi', 'paley49', 'rook7', 'rook8', 'L3_7', 'L4_7', 'Sp62', 'VO6', 'T10', 'T11', 'paley53', 'paley61']
VAST = ['paley73', 'paley89', 'rook9', 'rook10', 'rook12', 'L3_9', 'T13', 'T13_c', 'T14', 'rook12_c', 'paley101', 'L3_11', 'T17', 'T17_c', 'paley137']


def prefix(rng, names, wander):
    """(params, prefix): a prefix of a known graph, or (wander) one the search passes through that may be a dead end"""
    name = rng.choice(names)
    par, M = gens.build(name)
    N = ref.random_nf(M, rng)
    v = par[0]
    R = rng.randint(2, v - 1) if rng.random() < .6 else rng.randint(2, max(3, v // 3))
    P = N[:R]
    if wander:
        for _ in range(rng.randint(1, 4)):
            if len(P) >= v - 1:
                break
            try:
                opts = ref.next_rows(P, *par[1:], limit=20000)
            except ref.TooBig:
                break
            if not opts:
                break
            P = ref.extend(P, rng.choice(sorted(opts)))
    return par, P


def loose(rng):
    """seed rows continued by any rows in normal form, whatever the equations say: every count may be exceeded, the degree alone too"""
    par, _ = gens.build(rng.choice(TINY + MID[:8]))
    if rng.random() < .5:
        par = rng.choice([q for q in PARAMS if q[3] <= q[1]])
    P = ref.seed(*par)
    dense = rng.choice([0, .1, .3, .6, .9, 1])
    for r in range(rng.randint(1, par[0] - 3)):
        if rng.random() < .3:
            dense = rng.choice([0, .1, .5, .9, 1])
        n = len(P)
        tail = [int(rng.random() < dense) for _ in range(par[0] - n - 1)]
        lo = 0
        for _, size in ref.cells_of(list(zip(*[row[n + 1:] for row in P]))):
            tail[lo:lo + size] = sorted(tail[lo:lo + size], reverse=True)
            lo += size
        P = ref.extend(P, tuple(tail))
    return par, P


CROWDED = [(9, 4, 0, 3), (11, 5, 0, 4), (7, 3, 0, 2), (13, 6, 0, 5), (11, 5, 1, 3), (13, 6, 1, 4), (13, 6, 2, 3), (15, 6, 1, 3), (9, 4, 1, 2), (11, 5, 2, 2), (16, 6, 2, 2)]


def degree(rng):
    """a partial matrix whose next vertex has too many neighbours already, every other count being met so far"""
    for _ in range(400):
        par = rng.choice(CROWDED)
        v, k, l, u = par
        P = ref.seed(*par)
        while len(P) < v - 1:
            n = len(P)
            cells = ref.cells_of(list(zip(*[row[n + 1:] for row in P])))
            ones = [0] * len(cells)
            for _ in range(rng.choice([0, 1, 1, 2, 2, 3])):
                c = rng.choices(range(len(cells)), [1 / s for _, s in cells])[0] if rng.random() < .6 else len(cells) - 1
                ones[c] = min(ones[c] + 1, cells[c][1])
            P = ref.extend(P, tuple(x for t, (_, s) in zip(ones, cells) for x in [1] * t + [0] * (s - t)))
            if len(P) < v:
                rb = ref.row_equations(P, k, l, u)[1]
                if rb[-1] < 0 <= min(rb[:-1]):
                    return par, P
    return None


PARAMS = gens.identity_params(11, 4)


SETS = [q for q in gens.identity_params(64, 4) if q[3] <= q[1]]


def from_seed(rng):
    """(params, prefix): any parameters, whether or not there is a graph, and where the search may get from their seed"""
    par = rng.choice(SETS)
    P = ref.seed(*par)
    for _ in range(rng.choice([0, 0, 1, 2, 3, 5, 9])):
        if len(P) >= par[0] - 1:
            break
        try:
            opts = ref.next_rows(P, *par[1:], limit=5000)
        except ref.TooBig:
            break
        if not opts:
            break
        P = ref.extend(P, rng.choice(sorted(opts)))
    return par, P


def sized(rng, rows, columns):
    """(A, b) with exactly so many equations and columns, in few groups; most of the equations are repeated or sums of others"""
    base = rng.randint(1, min(4, rows - 1))
    cols = sorted({tuple(int(rng.random() < .5) for _ in range(base)) for _ in range(min(columns, rng.randint(2, 9)))}, key=lambda c: rng.random())
    G = len(cols)
    cuts = sorted(rng.sample(range(1, columns), G - 1)) if columns > 1 else []
    sizes = [e - s for s, e in zip([0] + cuts, cuts + [columns])]
    rows_ = [[c[i] for c in cols] for i in range(base)]
    while len(rows_) < rows - 1:
        a, b = rng.choice(rows_[:12]), rng.choice(rows_[:12])
        s = [x + y for x, y in zip(a, b)]
        d = [x - y for x, y in zip(a, b)]
        rows_.append(s if max(s) <= 1 else d if min(d) >= 0 else list(a))
    rng.shuffle(rows_)
    rows_ = rows_ + [[1] * G]
    x = [rng.choice([0, n, rng.randint(0, n)]) for n in sizes]
    b = [sum(r[g] * x[g] for g in range(G)) for r in rows_]
    if rng.random() < .25:
        i = rng.randrange(len(b))
        b[i] = max(0, b[i] + rng.choice([-1, 1]))
    return [[r[g] for g in range(G) for _ in range(sizes[g])] for r in rows_], b


def system(rng, wide=False):
    """(A, b): random columns in runs, redundant rows, a row of ones last; b from a hidden solution, or changed"""
    while True:
        R = rng.choice([1, 2, 3, 3, 4, 4, 5, 5, 6, 8])
        G = rng.randint(2, 12) if not wide else rng.randint(3, 7)
        p = rng.choice([.2, .4, .5, .6, .8])
        cols, seen = [], set()
        for _ in range(G):
            c = tuple(int(rng.random() < p) for _ in range(R))
            if c not in seen:
                seen.add(c)
                cols.append(c)
        if rng.random() < .6:
            cols.sort(reverse=True)
        top = rng.choice([1, 2, 3, 5]) if not wide else rng.choice([10, 20, 40])
        sizes = [rng.randint(1, top) for _ in cols]
        rows = [[cols[g][i] for g in range(len(cols))] for i in range(R)]
        # redundant rows: copies, disjoint sums, differences of nested rows, zero rows
        for _ in range(rng.randint(0, 4)):
            a, b = rng.choice(rows), rng.choice(rows)
            s = [x + y for x, y in zip(a, b)]
            d = [x - y for x, y in zip(a, b)]
            rows.append(s if max(s) <= 1 else d if min(d) >= 0 else [x & y for x, y in zip(a, b)])
        rng.shuffle(rows)
        rows.append([1] * len(cols))
        x = [rng.randint(0, n) for n in sizes] if rng.random() < .7 else [rng.choice([0, n]) for n in sizes]
        b = [sum(r[g] * x[g] for g in range(len(cols))) for r in rows]
        if rng.random() < .35:
            for _ in range(rng.choice([1, 1, 2, 4])):
                i = rng.randrange(len(b))
                b[i] = max(0, b[i] + rng.choice([-2, -1, 1, 1, 2]))
        A = [[r[g] for g in range(len(cols)) for _ in range(sizes[g])] for r in rows]
        return A, b


def unrelated(rng):
    """(A, b) with many different equations, none of which contains another: half of the groups of columns each"""
    G = rng.choice([7, 8, 9, 10, 10, 11, 12])
    w = rng.choice([G // 2, G // 2, (G + 1) // 2, G // 2 - 1])
    every = [c for c in itertools.combinations(range(G), w)]
    n = min(len(every), rng.choice([10, 20, 30, 41, 50, 64, 65, 80, 120, 200]))
    rows = [[int(g in c) for g in range(G)] for c in rng.sample(every, n)]
    sizes = [rng.choice([1, 1, 1, 2, 3]) for _ in range(G)]
    rows.append([1] * G)
    x = [rng.randint(0, n) for n in sizes]
    b = [sum(r[g] * x[g] for g in range(G)) for r in rows]
    if rng.random() < .3:
        i = rng.randrange(len(b))
        b[i] = max(0, b[i] + rng.choice([-1, 1]))
    return [[r[g] for g in range(G) for _ in range(sizes[g])] for r in rows], b


def reference(A, b, limit=200000, counter=None):
    """all 0/1 solutions with the ones first in each run of equal columns"""
    cols = list(zip(*A))
    cells = ref.cells_of(cols)
    sols = ref.boxed_solutions([c for c, _ in cells], [n for _, n in cells], b, limit, counter)
    out = []
    for s in sols:
        x = []
        for t, (_, n) in zip(s, cells):
            x += [1] * t + [0] * (n - t)
        out.append(tuple(x))
    return out


def why_bad(A, b, x):
    """None when x answers A x = b as demanded"""
    n = len(A[0])
    if len(x) != n:
        return f'length {len(x)} instead of {n}'
    if any(e not in (0, 1) for e in x):
        return 'not a 0/1 vector'
    for i, (r, want) in enumerate(zip(A, b)):
        s = sum(p & q for p, q in zip(r, x))
        if s != want:
            return f'equation {i}: {s} instead of {want}'
    cols = list(zip(*A))
    for c in range(n - 1):
        if cols[c] == cols[c + 1] and x[c] < x[c + 1]:
            return f'columns {c} and {c + 1} are equal but the one comes second'
    return None


PLAN = {'quick': {'tiny': 1500, 'mid': 800, 'big': 90, 'vast': 12, 'system': 8000, 'wide': 500, 'loose': 1500, 'degree': 40, 'params': 2000, 'columns': 660, 'rows': 160, 'unrelated': 200},
        'thorough': {'tiny': 6000, 'mid': 5000, 'big': 1500, 'vast': 150, 'system': 40000, 'wide': 5000, 'loose': 15000, 'degree': 400, 'params': 25000, 'columns': 6600, 'rows': 1600, 'unrelated': 2000}}
NAMES = {'tiny': TINY, 'mid': MID, 'big': BIG, 'vast': VAST}
BATCH = {'tiny': 25, 'mid': 10, 'big': 3, 'vast': 1, 'system': 100, 'wide': 25, 'loose': 50, 'degree': 4, 'params': 50, 'columns': 20, 'rows': 8, 'unrelated': 10}


def plan(seed, tier, salt):
    out = []
    for kind in ('vast', 'big', 'mid', 'wide', 'degree', 'params', 'columns', 'rows', 'unrelated', 'tiny', 'loose', 'system'):
        n = PLAN[tier][kind]
        for i in range(0, n, BATCH[kind]):
            out.append((kind, {'seed': seed, 'salt': salt, 'i': i, 'n': min(BATCH[kind], n - i)}))
    return out


def items(kind, p):
    """(A, b, what) of every question of a batch; A, b are lists of python integers"""
    for j in range(p['i'], p['i'] + p['n']):
        rng = rng_for(p['salt'], kind, p['seed'], j)
        if kind in NAMES:
            par, P = prefix(rng, NAMES[kind], wander=rng.random() < .5)
            yield 'prefix', par, P
        elif kind in ('loose', 'params', 'degree'):
            found = {'loose': loose, 'params': from_seed, 'degree': degree}[kind](rng)
            if found is not None and len(found[1]) < found[0][0]:
                yield 'prefix', found[0], found[1]
        elif kind == 'columns':  # every number of columns, up to 330
            yield 'system', None, sized(rng, rng.randint(2, 9), 1 + j % 330)
        elif kind == 'rows':  # every number of equations, up to 160
            yield 'system', None, sized(rng, 2 + j % 160, rng.randint(2, 60))
        elif kind == 'unrelated':
            yield 'system', None, unrelated(rng)
        else:
            yield 'system', None, system(rng, kind == 'wide')


def pose(what, par, data):
    """(question object or None, A, b): the system is taken from the reference model for prefixes"""
    from srg.srg import Question
    if what == 'prefix':
        cols, b = ref.row_equations(data, *par[1:])
        A = [[c[i] for c in cols] for i in range(len(b))]
        return drive.question(data), A, b
    A, b = data
    n = len(A[0])
    from srg import srg as s
    return Question(drive.arr(A), drive.arr(b), quota=s.array(b)[-1], bounds=s.ones(n)), A, b
