"""Orders above machine-word sizes: the same exact results."""
from collections import Counter
from .. import ref, drive, gens, questions

PROPERTY = 'C11'
RULE = ('one case = one large problem: a seed, a next-row question, a nearly complete graph, a complement, a normalisation, a column collapse or elimination with more than 64 rows or columns, '
        'or a complete solve of a degenerate family; results compared with the reference model; distinct non-trivial = distinct problems of order above 64')
NEED = {'orders_over_64': 60, 'orders_over_128': 30, 'orders_over_256': 8, 'completions': 15, 'question_answers': 40, 'degenerate_solved': 10, 'orders_swept': 200}
CASE_S = {'quick': 150, 'thorough': 900}
GRAPHS = {65: 'VO6 T13 T13_c paley73 rook9 L3_9 paley89', 100: 'rook10 paley101 T14 rook12 rook12_c L3_11', 129: 'T17 T17_c paley137'}


def huge(name):
    """graphs of order above 150"""
    kind, n = name.split(':')
    return {'T': lambda: gens.triangular(int(n)), 'Tc': lambda: gens.comp(gens.triangular(int(n))), 'rook': lambda: gens.latin(int(n)),
            'paley': lambda: gens.paley(int(n)), 'L3': lambda: gens.latin(int(n), 1)}[kind]()


HUGE = ['T:20', 'Tc:20', 'rook:14', 'T:24', 'rook:17', 'paley:257', 'L3:17', 'Tc:24', 'paley:181']
HUGER = ['T:30', 'rook:22', 'paley:401', 'Tc:30', 'L3:23', 'rook:24']


def cases(seed, tier):
    rng = drive.rng_for('c11', seed)
    names = ' '.join(GRAPHS.values()).split()
    out = []
    deg = []
    for v in {'quick': (66, 90, 129, 132, 200, 260), 'thorough': (66, 70, 90, 128, 129, 132, 160, 200, 256, 260, 300)}[tier]:
        divs = [d for d in range(2, v) if v % d == 0]
        for d in rng.sample(divs, min(2 if tier == 'quick' else 4, len(divs))) if divs else []:
            deg += [(v, v - d, v - 2 * d, v - d), (v, d - 1, d - 2, 0)]
    out += [('solve', {'params': list(q)}) for q in sorted(deg, reverse=True)]
    hs = HUGE + (HUGER if tier == 'thorough' else [])
    for n in hs:
        out.append(('ops', {'name': n, 'seed': seed}))
        for i in range(2 if tier == 'quick' else 8):
            out.append(('resume', {'name': n, 'seed': seed, 'i': i}))
    for n in names:
        out.append(('ops', {'name': n, 'seed': seed}))
        for i in range(3 if tier == 'quick' else 15):
            out.append(('resume', {'name': n, 'seed': seed, 'i': i}))
    out += [('systems', {'seed': seed, 'i': i}) for i in range(8 if tier == 'quick' else 80)]
    out += [('sizes', {'seed': seed, 'lo': lo, 'hi': lo + 6}) for lo in range(61, 325 if tier == 'quick' else 601, 6)]
    return out


def do_sizes(p, mon):
    """every order in turn: seed, first question and its answer, groups, elimination, collapse, complement"""
    from srg import utils, unique, gauss_elim, srg as s
    from .c07 import pose
    from .c27 import system
    from ..states import starts
    for v in range(p['lo'], p['hi']):
        rng = drive.rng_for('c11z', p['seed'], v)
        # vertex 0 and its k neighbours form a clique: the third row is forced
        k = rng.choice([2, 3, v // 3, v // 2, v - 3, rng.randint(2, v - 3)])
        par = v, k, k - 1, 0
        m = drive.tup(drive.seed_matrix(*par))
        mon.check(m == ref.seed(*par), f'seed{par} is wrong', 'seed')
        pose(par, m, mon)
        got = [drive.vec(x) for x in drive.answers_of(drive.question(m), cap=10)]
        mon.check(got == [(1,) * (k - 2) + (0,) * (v - k - 1)], lambda: f'third row after seed{par}: {got}', 'question')
        t = drive.start(drive.arr(m)).append_and_return_new(drive.arr([1] * (k - 2) + [0] * (v - k - 1))).current_matrix
        row = (1, 1, 0) + (1,) * (k - 2) + (0,) * (v - k - 1)
        mon.check(drive.tup(t) == m + (row,) and drive.integers(s.vklu(t)) == par, lambda: f'appending the third row to seed{par} gives {drive.tup(t)[2]}', 'append')
        # some other parameters with this order
        k = rng.randint(1, v - 2)
        ls = [l for l in range(k) if k * (k - l - 1) % (v - k - 1) == 0 and k * (k - l - 1) <= k * (v - k - 1)]
        if ls:
            l = rng.choice(ls)
            par = v, k, l, k * (k - l - 1) // (v - k - 1)
            m = drive.tup(drive.seed_matrix(*par))
            mon.check(m == ref.seed(*par) and drive.integers(s.vklu(drive.arr(m))) == par, f'seed{par} is wrong', 'seed')
            pose(par, m, mon)
        # groups
        sizes = rng.choice([[v], [1, v - 1], [v - 1, 1], [1] * v, [2] * (v // 2) + [1] * (v % 2)])
        vals = [rng.choice([0, n, rng.randint(0, n)]) for n in sizes]
        a = s.Answer(value=drive.arr(vals), location=drive.arr(starts(sizes)), len=v)
        got = drive.vec(a.binarize())
        mon.check(drive.vec(a.quota) == tuple(sizes) and got == tuple(x for c, n in zip(vals, sizes) for x in [1] * c + [0] * (n - c)), lambda: f'values {vals} in groups {sizes} become {got}', 'groups')
        d = s.Answer.default(v)
        mon.check(len(d.unknown_loc) == v and drive.vec(d.quota) == (1,) * v, lambda: f'the default answer of length {v} is not all unknown single entries: {drive.vec(d.quota)}', 'groups')
        # columns that differ in one row
        i = rng.choice([0, v - 1, rng.randrange(v)])
        c0 = [rng.randint(0, 1) for _ in range(v)]
        c1 = [x ^ (r == i) for r, x in enumerate(c0)]
        j, h = rng.sample(range(v), 2)
        c2 = [x ^ (r in (j, h)) for r, x in enumerate(c0)]
        cols = [tuple(c) for c in rng.sample([c0, c0, c1, c1, c2], 5)]
        red, n, at = unique.reduce(drive.arr([[c[r] for c in cols] for r in range(v)]))
        cells = ref.cells_of(cols)
        mon.check(list(map(int, n)) == [x for _, x in cells], lambda: f'{v} rows, columns differing in rows {i} or {j}, {h}: runs {list(map(int, n))} instead of {[x for _, x in cells]}', 'collapse')
        # rows nested but for one column
        x = [int(rng.random() < .3) for _ in range(v)]
        big = [1] * v
        big[rng.choice([0, v - 1, rng.randrange(v)])] = 0
        small = [e & (rng.random() < .5) for e in big]
        if rng.random() < .5:
            small[big.index(0)] = 1
        rows = rng.sample([big, small, [1] * v], 3)
        b = [sum(e & f for e, f in zip(r, x)) for r in rows]
        A2, b2 = gauss_elim.elim(drive.arr(rows), drive.arr(b))
        A2, b2 = [drive.vec(r) for r in A2], drive.vec(b2)
        mon.check(all(len(r) == v for r in A2) and all(sum(e * f for e, f in zip(r, x)) == w for r, w in zip(A2, b2)) and rank(A2) == rank(rows) == rank(list(A2) + rows), lambda: f'{v} columns: {rows} = {b} became {A2} = {b2}', 'eliminate')
        g = [[0] * v for _ in range(v)]
        for e in range(v):
            f = rng.randrange(v)
            if e != f:
                g[e][f] = g[f][e] = 1
        g = tuple(map(tuple, g))
        mon.check(drive.tup(utils.complement(drive.arr(g))) == ref.complement(g), f'complement of order {v} is wrong', 'complement')
        mon.count('orders_swept')
        order(mon, v, 'sizes')


def order(mon, v, *sig):
    for n in (64, 128, 256):
        mon.count(f'orders_over_{n}', v > n)
    if v > 64:
        mon.seen(v, *sig)


def graph(name):
    return huge(name) if ':' in name else gens.build(name)


def run(kind, p, mon):
    globals()['do_' + kind](p, mon)


def do_solve(p, mon):
    q = p['params']
    v, k, l, u = q
    # the only such graphs: complete multipartite / disjoint cliques, one normal form each
    if u == 0:
        s = k + 1
        M = tuple(tuple(int(i != j and i // s == j // s) for j in range(v)) for i in range(v))
    else:
        M = gens.multipartite(v // (v - k), v - k)[1]
    want = ref.normalise(M)
    got = [drive.tup(x) for x in drive.solve(q, cap=50)]
    mon.check(got == [want], lambda: f'solve{tuple(q)}: {len(got)} answers, {"not " if want not in got else ""}including the one that exists', 'degenerate')
    mon.count('degenerate_solved')
    order(mon, v, 'solve', tuple(q))


def do_ops(p, mon):
    from srg import utils, sorter, srg as s
    par, M = graph(p['name'])
    v, k, l, u = par
    rng = drive.rng_for('c11o', p)
    m = drive.tup(drive.seed_matrix(*par))
    mon.check(m == ref.seed(*par), f'seed{par} is wrong', 'seed')
    got = drive.integers(s.vklu(drive.arr(m)))
    mon.check(got == par, f'parameters {got} read off seed{par}', 'vklu')
    perm = list(range(v))
    rng.shuffle(perm)
    S = ref.relabel(M, perm)
    a = drive.arr(S)
    mon.check(drive.tup(utils.complement(a)) == ref.complement(S), f'complement of {p["name"]} is wrong', 'complement')
    mx = drive.tup(sorter.maximize(a))
    bad = ref.why_not_nf(mx) or ref.why_not_srg(mx, *par)
    mon.check(bad is None, lambda: f'maximised {p["name"]}: {bad}', 'maximize')
    mon.check(drive.tup(a) == S, 'the input was modified', 'input-modified')
    other = drive.arr(M)
    so = [drive.tup(x) for x in sorter.sort([a, other, a])]
    mon.check(so == sorted([S, M, S], key=ref.code), 'sorted wrongly', 'sort')
    order(mon, v, 'ops', p['name'])
    mon.sample({'graph': p['name'], 'params': par})
    # the first question, after the two seed rows
    from .c07 import pose
    pose(par, ref.seed(*par), mon)


def do_resume(p, mon):
    par, M = graph(p['name'])
    v = par[0]
    rng = drive.rng_for('c11r', p)
    N = ref.random_nf(M, rng)
    # one question at a random row, if the reference model can enumerate it
    for R in (rng.randint(2, v - 2), rng.randint(v // 3, v - 2)):
        P = N[:R]
        try:
            cols, b = ref.row_equations(P, *par[1:])
            A = [[c[i] for c in cols] for i in range(len(b))]
            want = questions.reference(A, b, 4000)
            if len(want) <= 60:
                q = drive.question(P)
                got = Counter(drive.vec(x) for x in drive.answers_of(q, cap=500)) if q is not None else Counter()
                mon.check(got == Counter(want), lambda: f'{p["name"]} row {R}: {len(got)} next rows instead of {len(want)}', 'question')
                mon.count('question_answers', len(want))
                order(mon, v, 'question', p['name'], R)
        except ref.TooBig:
            mon.count('too_big_for_the_reference')
    # nearly complete
    R = v - rng.randint(1, 6)
    want = set(ref.completions(N[:R], *par, limit=50))
    got = Counter(drive.tup(x) for x in drive.solve_from(drive.arr(N[:R]), cap=200))
    mon.check(set(got) == want and N in got and max(got.values()) == 1, lambda: f'{p["name"]} resumed from row {R}: {len(got)} answers instead of {len(want)}', 'resume')
    mon.count('completions', len(want))
    order(mon, v, 'resume', p['name'], R, p['i'])


def do_systems(p, mon):
    """column collapse and elimination with hundreds of rows and columns, telling columns and rows apart by single far-away entries"""
    from srg import unique, gauss_elim, srg as s
    rng = drive.rng_for('c11s', p)
    for _ in range(25):
        R, C = rng.choice([3, 63, 64, 65, 100, 127, 128, 129, 200, 300]), rng.choice([2, 5, 12])
        col = [rng.randint(0, 1) for _ in range(R)]
        cols = []
        for _ in range(C):
            if rng.random() < .5:
                col = col[:]
                i = rng.choice([0, R - 1, rng.randrange(R)])
                col[i] ^= 1
            cols.append(tuple(col))
        A = [[c[i] for c in cols] for i in range(R)]
        a = drive.arr(A)
        red, n, at = unique.reduce(a)
        cells = ref.cells_of(cols)
        starts, pos = [], 0
        for _, k in cells:
            starts.append(pos)
            pos += k
        mon.check(list(map(int, n)) == [k for _, k in cells] and list(map(int, at)) == starts and [tuple(int(x) for x in c) for c in red.T] == [c for c, _ in cells],
                  lambda: f'{R} rows: runs {list(map(int, n))} at {list(map(int, at))} instead of {[k for _, k in cells]} at {starts}', 'collapse')
        order(mon, R, 'collapse', p['i'], R, tuple(cols))
    for _ in range(25):
        C = rng.choice([64, 65, 66, 80, 127, 128, 129, 160, 200, 256, 300])
        # a planted solution; rows that nest only when compared in every bit
        rows = [[1] * C]
        x = [int(rng.random() < .4) for _ in range(C)]
        for _ in range(rng.randint(1, 5)):
            base = rng.choice(rows)
            rows.append([e & (rng.random() < .6) if rng.random() < .7 else e for e in base] if rng.random() < .7 else [int(rng.random() < .5) for _ in range(C)])
        far = [0] * C
        far[rng.choice([0, 1, C - 1])] = 1
        rows.append(far)
        rng.shuffle(rows)
        b = [sum(p_ & q_ for p_, q_ in zip(r, x)) for r in rows]
        A2, b2 = gauss_elim.elim(drive.arr(rows), drive.arr(b))
        A2, b2 = [drive.vec(r) for r in A2], drive.vec(b2)
        ok = all(len(r) == C for r in A2) and all(sum(p_ * q_ for p_, q_ in zip(r, x)) == w for r, w in zip(A2, b2)) and set(sum(map(tuple, A2), ())) <= {0, 1}
        mon.check(ok, lambda: f'{C} columns: the planted solution {x} no longer solves {rows} = {b}', 'eliminate')
        # every original equation follows from the new ones (all operations are subtractions of nested rows)
        mon.check(rank(A2) == rank(rows) == rank(list(A2) + rows), lambda: f'{C} columns: the new equations do not imply the old: {rows} {b}', 'eliminate')
        order(mon, C, 'eliminate', p['i'], tuple(map(tuple, rows)))


def rank(rows, mod=1000003):
    a = [list(r) for r in rows]
    rk = 0
    for c in range(len(a[0]) if a else 0):
        i = next((i for i in range(rk, len(a)) if a[i][c] % mod), None)
        if i is None:
            continue
        a[rk], a[i] = a[i], a[rk]
        inv = pow(a[rk][c], -1, mod)
        a[rk] = [x * inv % mod for x in a[rk]]
        for j in range(len(a)):
            if j != rk and a[j][c] % mod:
                f = a[j][c]
                a[j] = [(x - f * y) % mod for x, y in zip(a[j], a[rk])]
        rk += 1
        if rk == len(a):
            break
    return rk
