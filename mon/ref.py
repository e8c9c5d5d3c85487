"""Independent reference model.  Pure Python integers and lists: shares no code with /repo.

A graph on v vertices is a list of v row tuples of 0/1.  "Normal form" (NF): for every row r and
every two neighbouring columns c, c+1 > r that agree on the rows above r, row r has its 1 first.
"""
import itertools


class TooBig(Exception):
    pass


def rows_of(mat):
    return tuple(tuple(int(x) for x in row) for row in mat)


def params_ok(v, k, l, u):
    return (v - k - 1) * u == k * (k - l - 1)


def why_not_srg(M, v, k, l, u):
    """None when M is the adjacency matrix of an SRG(v,k,l,u), otherwise the first reason found."""
    if len(M) != v or any(len(r) != v for r in M):
        return f'shape {len(M)}x{set(map(len, M))} is not {v}x{v}'
    for i, r in enumerate(M):
        for j, x in enumerate(r):
            if x not in (0, 1):
                return f'entry {i},{j} is {x}'
            if M[j][i] != x:
                return f'not symmetric at {i},{j}'
        if r[i]:
            return f'loop at {i}'
    bits = [sum(x << j for j, x in enumerate(r)) for r in M]
    for i in range(v):
        d = bits[i].bit_count()
        if d != k:
            return f'vertex {i} has degree {d}, not {k}'
    for i in range(v):
        for j in range(i + 1, v):
            c = (bits[i] & bits[j]).bit_count()
            want = l if M[i][j] else u
            if c != want:
                return f'vertices {i},{j} ({"adjacent" if M[i][j] else "not adjacent"}) have {c} common neighbours, not {want}'
    return None


def why_not_nf(M):
    v = len(M[0])
    R = len(M)
    cols = list(zip(*M))
    for r in range(R):
        for c in range(r + 1, v - 1):
            if M[r][c] < M[r][c + 1] and cols[c][:r] == cols[c + 1][:r]:
                return f'row {r}: column {c + 1} has a 1, column {c}, not told apart by the rows above, has a 0'
    return None


def is_nf(M):
    return why_not_nf(M) is None


def code(M):
    """upper triangle, row by row: what matrices are ordered by"""
    v = len(M)
    return tuple(M[i][j] for i in range(v) for j in range(i + 1, v))


def relabel(M, order):
    return tuple(tuple(M[a][b] for b in order) for a in order)


def complement(M):
    return tuple(tuple(0 if i == j else 1 - x for j, x in enumerate(r)) for i, r in enumerate(M))


# ----------------------------------------------------------------- systems of linear equations

def cells_of(cols):
    """runs of neighbouring equal columns: [(column, size)]"""
    out = []
    for c in cols:
        if out and out[-1][0] == c:
            out[-1][1] += 1
        else:
            out.append([c, 1])
    return [(c, n) for c, n in out]


def boxed_solutions(cols, caps, b, limit=None, counter=None):
    """every integer x with 0 <= x_j <= caps_j and sum_j cols_j x_j == b (cols: tuples of ints >= 0)"""
    n, m = len(cols), len(b)
    suffix = [[0] * m for _ in range(n + 1)]  # most that columns j.. can still contribute
    for j in range(n - 1, -1, -1):
        suffix[j] = [s + cols[j][i] * caps[j] for i, s in enumerate(suffix[j + 1])]
    out = []
    nodes = 0
    x = [0] * n

    def rec(j, rem):
        nonlocal nodes
        nodes += 1
        if limit is not None and nodes > limit:
            raise TooBig(nodes)
        for i in range(m):
            if rem[i] < 0 or rem[i] > suffix[j][i]:
                return
        if j == n:
            out.append(tuple(x))
            return
        col = cols[j]
        for t in range(caps[j] + 1):
            x[j] = t
            nr = [r - t * a for r, a in zip(rem, col)]
            if min(nr, default=0) < 0:
                break
            rec(j + 1, nr)

    rec(0, list(b))
    if counter is not None:
        counter['ref_nodes'] = counter.get('ref_nodes', 0) + nodes
    return out


def row_equations(prefix, k, l, u):
    """what the unknown part of the next row has to satisfy: (columns, right hand sides).
    The last equation is the degree of the new vertex."""
    R, v = len(prefix), len(prefix[0])
    known = [prefix[i][R] for i in range(R)]
    b = []
    for i in range(R):
        want = l if known[i] else u
        b.append(want - sum(prefix[i][j] * known[j] for j in range(R)))
    b.append(k - sum(known))
    cols = [tuple(prefix[i][c] for i in range(R)) + (1,) for c in range(R + 1, v)]
    return cols, b


def next_rows(prefix, k, l, u, limit=None, counter=None):
    """every normal-form next row (the unknown part) of a partial matrix, in no particular order"""
    cols, b = row_equations(prefix, k, l, u)
    if min(b) < 0:
        return []
    cells = cells_of(cols)
    sols = boxed_solutions([c for c, _ in cells], [n for _, n in cells], b, limit, counter)
    return [tuple(itertools.chain.from_iterable([1] * t + [0] * (n - t) for t, (_, n) in zip(s, cells)))
            for s in sols]


def extend(prefix, suffix):
    R = len(prefix)
    return prefix + (tuple(prefix[i][R] for i in range(R)) + (0,) + tuple(suffix),)


def seed(v, k, l, u):
    """first two rows of a normal form with an edge"""
    r0 = (0,) + (1,) * k + (0,) * (v - 1 - k)
    a = k - l - 1
    r1 = (1, 0) + (1,) * l + (0,) * (k - 1 - l) + (1,) * a + (0,) * (v - 1 - k - a)
    return (r0[:v], r1[:v])


def seed_possible(v, k, l, u):
    return 0 < k < v and 0 <= l <= k - 1 and k - l - 1 <= v - k - 1


def completions(prefix, v, k, l, u, limit=None, counter=None):
    """every normal-form SRG that starts with the given rows"""
    level = [tuple(prefix)]
    while level and len(level[0]) < v:
        nxt = []
        for p in level:
            for s in next_rows(p, k, l, u, limit, counter):
                nxt.append(extend(p, s))
        level = nxt
        if counter is not None:
            counter['ref_prefixes'] = counter.get('ref_prefixes', 0) + len(nxt)
        if limit is not None and len(level) > limit:
            raise TooBig(len(level))
    return level


def enumerate_nf(v, k, l, u, limit=None, counter=None):
    if not seed_possible(v, k, l, u):
        return []
    return [m for m in completions(seed(v, k, l, u), v, k, l, u, limit, counter)
            if why_not_srg(m, v, k, l, u) is None]


# ----------------------------------------------------------------- normal forms of a given graph

def _refine(cells, nb):
    out = []
    for cell in cells:
        a = [x for x in cell if x in nb]
        b = [x for x in cell if x not in nb]
        if a:
            out.append(a)
        if b:
            out.append(b)
    return out


def nf_orders(M, choose):
    """one normal-form labelling: choose(cell) picks the next vertex out of the first cell"""
    v = len(M)
    nbs = [frozenset(j for j in range(v) if M[i][j]) for i in range(v)]
    cells = [list(range(v))]
    order = []
    while cells:
        x = choose(cells[0])
        order.append(x)
        rest = [y for y in cells[0] if y != x]
        cells = ([rest] if rest else []) + cells[1:]
        cells = _refine(cells, nbs[x])
    return order


def random_nf(M, rng):
    return relabel(M, nf_orders(M, rng.choice))


def all_nf(M, max_leaves):
    """the set of every normal form of the graph M"""
    v = len(M)
    nbs = [frozenset(j for j in range(v) if M[i][j]) for i in range(v)]
    out = set()
    leaves = 0

    def rec(order, cells):
        nonlocal leaves
        if all(len(c) == 1 for c in cells):
            leaves += 1
            if leaves > max_leaves:
                raise TooBig(leaves)
            # the rest of the order is forced
            cur, ordr = cells, list(order)
            while cur:
                x = cur[0][0]
                ordr.append(x)
                cur = cur[1:]
            out.add(relabel(M, ordr))
            return
        for x in cells[0]:
            rest = [y for y in cells[0] if y != x]
            rec(order + [x], _refine(([rest] if rest else []) + cells[1:], nbs[x]))

    rec([], [list(range(v))])
    return out


def normalise(M):
    """the normal form reached from the labelling M by stable sorting: a fixed point on normal forms"""
    return relabel(M, nf_orders(M, lambda cell: cell[0]))


# ----------------------------------------------------------------- exact determinant

def det(M):
    """Bareiss fraction-free elimination"""
    a = [list(map(int, r)) for r in M]
    n = len(a)
    sign, prev = 1, 1
    for i in range(n - 1):
        if a[i][i] == 0:
            for j in range(i + 1, n):
                if a[j][i]:
                    a[i], a[j] = a[j], a[i]
                    sign = -sign
                    break
            else:
                return 0
        p = a[i][i]
        for j in range(i + 1, n):
            q = a[j][i]
            rj, ri = a[j], a[i]
            for c in range(i + 1, n):
                rj[c] = (rj[c] * p - q * ri[c]) // prev
        prev = p
    return sign * a[n - 1][n - 1]


def relabelling(A, B, limit=200000):
    """an order (0 first) with relabel(A, order) == B, or None"""
    v = len(A)
    if len(B) != v or any(len(r) != v for r in B) or sum(map(sum, A)) != sum(map(sum, B)):
        return None
    nodes = 0
    order = []

    def rec(cells):
        # cells: ordered partition of what is left, all of one cell having the same entries in the rows placed so far
        nonlocal nodes
        nodes += 1
        if nodes > limit:
            raise TooBig(nodes)
        i = len(order)
        if i == v:
            return True
        # the columns of B must split into the same cells
        pos = i
        cands = None
        for c in cells:
            if cands is None:
                cands = c
            pos += len(c)
        for x in cands:
            rest = [y for y in cands if y != x]
            new, pos, ok = [], i + 1, True
            for c in ([rest] if rest else []) + cells[1:]:
                want = [B[i][pos + t] for t in range(len(c))]
                pos += len(c)
                ones = [y for y in c if A[x][y]]
                zeros = [y for y in c if not A[x][y]]
                n1 = sum(want)
                if n1 != len(ones):
                    ok = False
                    break
                # ones need not come first in B: split into runs that keep positions apart
                if want == [1] * n1 + [0] * (len(c) - n1):
                    new += [g for g in (ones, zeros) if g]
                else:
                    new.append(('mixed', ones, zeros, want))
            if not ok:
                continue
            if any(isinstance(g, tuple) for g in new):
                return None  # B is not in normal form: not decided here
            order.append(x)
            if rec(new):
                return True
            order.pop()
        return False

    # vertex 0 stays first
    def first():
        x = 0
        rest = [y for y in range(v) if y != x]
        ones = [y for y in rest if A[x][y]]
        zeros = [y for y in rest if not A[x][y]]
        if list(B[0]) != [0] + [1] * len(ones) + [0] * len(zeros):
            return False
        order.append(0)
        return rec([g for g in (ones, zeros) if g])
    return order if first() else None
