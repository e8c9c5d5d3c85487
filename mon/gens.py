"""Strongly regular graphs built from their mathematical definitions, and parameter families."""
import itertools
from . import ref


def _graph(n, adj):
    return tuple(tuple(1 if i != j and adj(i, j) else 0 for j in range(n)) for i in range(n))


def _gf(q):
    """(elements, sub, square set) of GF(q) for a prime or prime square q"""
    p = next(d for d in range(2, q + 1) if q % d == 0)
    if p == q:
        return list(range(q)), (lambda a, b: (a - b) % q), {x * x % q for x in range(1, q)}
    assert p * p == q
    sq = {x * x % p for x in range(p)}
    n = next(x for x in range(2, p) if x not in sq) if p > 2 else None
    if p == 2:
        els = [(a, b) for a in range(2) for b in range(2)]
        mul = lambda x, y: ((x[0] * y[0] + x[1] * y[1]) % 2, (x[0] * y[1] + x[1] * y[0] + x[1] * y[1]) % 2)
    else:
        els = [(a, b) for a in range(p) for b in range(p)]
        mul = lambda x, y: ((x[0] * y[0] + n * x[1] * y[1]) % p, (x[0] * y[1] + x[1] * y[0]) % p)
    sub = lambda x, y: ((x[0] - y[0]) % p, (x[1] - y[1]) % p)
    return els, sub, {mul(x, x) for x in els if x != (0, 0)}


def paley(q):
    els, sub, sq = _gf(q)
    return (q, (q - 1) // 2, (q - 5) // 4, (q - 1) // 4), _graph(q, lambda i, j: sub(els[i], els[j]) in sq)


def triangular(n):
    e = list(itertools.combinations(range(n), 2))
    return (len(e), 2 * (n - 2), n - 2, 4), _graph(len(e), lambda i, j: len(set(e[i]) & set(e[j])) == 1)


def latin(n, m=0, rng=None):
    """Latin square graph with m squares (0: rook graph).  m=1 with an rng: a random isotope-like square."""
    sqs = []
    if m >= 1:
        if rng is not None:
            sqs.append(_random_latin(n, rng))
        else:
            sqs.append([[(i + j) % n for j in range(n)] for i in range(n)])
    for t in range(2, m + 1):
        sqs.append([[(t * i + j) % n for j in range(n)] for i in range(n)])  # n prime
    pts = list(itertools.product(range(n), repeat=2))

    def adj(a, b):
        (i, j), (x, y) = pts[a], pts[b]
        return i == x or j == y or any(s[i][j] == s[x][y] for s in sqs)
    g = m + 2
    return (n * n, g * (n - 1), n - 2 + (g - 1) * (g - 2), g * (g - 1)), _graph(n * n, adj)


def _random_latin(n, rng):
    """a random Latin square: rows by repeated random perfect matching (Hall: always extendable)"""
    rows = []
    for _ in range(n):
        free = [[s for s in range(n) if all(r[c] != s for r in rows)] for c in range(n)]
        match = {}

        def try_(c, seen):
            opts = free[c][:]
            rng.shuffle(opts)
            for s in opts:
                if s in seen:
                    continue
                seen.add(s)
                if s not in match or try_(match[s], seen):
                    match[s] = c
                    return True
            return False
        cs = list(range(n))
        rng.shuffle(cs)
        for c in cs:
            assert try_(c, set())
        row = [None] * n
        for s, c in match.items():
            row[c] = s
        rows.append(row)
    return rows


def multipartite(parts, size):
    v = parts * size
    return (v, v - size, v - 2 * size, v - size), _graph(v, lambda i, j: i // size != j // size)


def cliques(parts, size):
    v = parts * size
    return (v, size - 1, size - 2, 0), _graph(v, lambda i, j: i // size == j // size)


def petersen():
    p, g = triangular(5)
    return (10, 3, 0, 1), ref.complement(g)


def shrikhande():
    d = {(0, 1), (0, 3), (1, 0), (3, 0), (1, 1), (3, 3)}
    pts = list(itertools.product(range(4), repeat=2))
    return (16, 6, 2, 2), _graph(16, lambda a, b: ((pts[a][0] - pts[b][0]) % 4, (pts[a][1] - pts[b][1]) % 4) in d)


def clebsch():
    """16,5,0,2: folded 5-cube"""
    return (16, 5, 0, 2), _graph(16, lambda a, b: (a ^ b).bit_count() == 1 or (a ^ b) == 15)


def schlaefli_complement():
    """27,10,1,5: two of the 27 lines adjacent when they meet"""
    v = [('a', i) for i in range(6)] + [('b', i) for i in range(6)] + [('c', i, j) for i, j in itertools.combinations(range(6), 2)]

    def adj(p, q):
        x, y = sorted((v[p], v[q]))
        if x[0] == 'a' and y[0] == 'b':
            return x[1] != y[1]
        if x[0] in 'ab' and y[0] == 'c':
            return x[1] in y[1:]
        if x[0] == y[0] == 'c':
            return not set(x[1:]) & set(y[1:])
        return False
    return (27, 10, 1, 5), _graph(27, adj)


def switch(M, S):
    S = set(S)
    return tuple(tuple(x if i == j or ((i in S) == (j in S)) else 1 - x for j, x in enumerate(r)) for i, r in enumerate(M))


def chang(which):
    """the three graphs with the parameters of T(8), by Seidel switching"""
    p, g = triangular(8)
    e = [tuple(x) for x in itertools.combinations(range(8), 2)]
    sets = {
        1: [(0, 1), (2, 3), (4, 5), (6, 7)],
        2: [(i, (i + 1) % 8) for i in range(8)],
        3: [(0, 1), (1, 2), (0, 2)] + [(3 + i, 3 + (i + 1) % 5) for i in range(5)],
    }[which]
    return p, switch(g, [e.index(tuple(sorted(x))) for x in sets])


def hoffman_singleton():
    """50,7,0,1: Robertson's pentagons and pentagrams"""
    n = {('P', h, j): i for i, (h, j) in enumerate(itertools.product(range(5), repeat=2))}
    n.update({('Q', h, j): 25 + i for i, (h, j) in enumerate(itertools.product(range(5), repeat=2))})
    E = set()
    for h, j in itertools.product(range(5), repeat=2):
        E.add((n['P', h, j], n['P', h, (j + 1) % 5]))
        E.add((n['Q', h, j], n['Q', h, (j + 2) % 5]))
        for i in range(5):
            E.add((n['P', h, j], n['Q', i, (h * i + j) % 5]))
    return (50, 7, 0, 1), _graph(50, lambda a, b: (a, b) in E or (b, a) in E)


def symplectic(m, q):
    """points of PG(2m-1,q), adjacent when orthogonal (q prime)"""
    d = 2 * m
    pts = [x for x in itertools.product(range(q), repeat=d) if any(x) and next(c for c in x if c) == 1]
    form = lambda x, y: sum(x[2 * i] * y[2 * i + 1] - x[2 * i + 1] * y[2 * i] for i in range(m)) % q
    v = (q ** d - 1) // (q - 1)
    k = q * (q ** (d - 2) - 1) // (q - 1)
    l = q * q * (q ** (d - 4) - 1) // (q - 1) + q - 1
    u = (q ** (d - 2) - 1) // (q - 1)
    return (v, k, l, u), _graph(v, lambda a, b: form(pts[a], pts[b]) == 0)


def affine_polar(m):
    """VO+/-: vectors of GF(2)^(2m), adjacent when the hyperbolic form of the difference vanishes"""
    n = 1 << (2 * m)
    Q = lambda x: sum(((x >> (2 * i)) & 1) & ((x >> (2 * i + 1)) & 1) for i in range(m)) & 1
    a = 2 ** (m - 1)
    k = (2 ** m - 1) * (a + 1)
    M = _graph(n, lambda i, j: Q(i ^ j) == 0)
    return params_of(M), M


def params_of(M):
    v, k = len(M), sum(M[0])
    l = u = None
    for j in range(1, v):
        c = sum(a & b for a, b in zip(M[0], M[j]))
        if M[0][j]:
            l = c
        else:
            u = c
    return v, k, l, u




def comp(pg):
    (v, k, l, u), g = pg
    return (v, v - k - 1, v - 2 - 2 * k + u, v - 2 * k + l), ref.complement(g)


SMALL = {
    'pentagon': lambda: paley(5), 'paley9': lambda: paley(9), 'paley13': lambda: paley(13), 'paley17': lambda: paley(17),
    'petersen': petersen, 'petersen_c': lambda: comp(petersen()),
    'T6': lambda: triangular(6), 'T6_c': lambda: comp(triangular(6)), 'T7': lambda: triangular(7),
    'T7_c': lambda: comp(triangular(7)),
    'rook4': lambda: latin(4), 'rook4_c': lambda: comp(latin(4)), 'shrikhande': shrikhande, 'shrikhande_c': lambda: comp(shrikhande()),
    'clebsch': clebsch, 'clebsch_c': lambda: comp(clebsch()),
    'K33': lambda: multipartite(2, 3), 'K333': lambda: multipartite(3, 3), 'K2222': lambda: multipartite(4, 2), 'K66': lambda: multipartite(2, 6),
    '3K4': lambda: cliques(3, 4), '4K2': lambda: cliques(4, 2),
}
MEDIUM = {
    'paley25': lambda: paley(25), 'paley29': lambda: paley(29), 'paley37': lambda: paley(37), 'paley41': lambda: paley(41),
    'rook5': lambda: latin(5), 'rook5_c': lambda: comp(latin(5)), 'rook6': lambda: latin(6), 'rook6_c': lambda: comp(latin(6)),
    'L3_5': lambda: latin(5, 1), 'L3_6': lambda: latin(6, 1), 'L4_5': lambda: latin(5, 2),
    'T8': lambda: triangular(8), 'T8_c': lambda: comp(triangular(8)),
    'chang1': lambda: chang(1), 'chang2': lambda: chang(2), 'chang3': lambda: chang(3), 'chang1_c': lambda: comp(chang(1)),
    'schlaefli_c': schlaefli_complement, 'schlaefli': lambda: comp(schlaefli_complement()),
    'Sp42': lambda: symplectic(2, 2), 'Sp43': lambda: symplectic(2, 3), 'Sp43_c': lambda: comp(symplectic(2, 3)),
    'T9': lambda: triangular(9),
}
LARGE = {
    'HoSi': hoffman_singleton, 'paley49': lambda: paley(49), 'paley53': lambda: paley(53), 'paley61': lambda: paley(61),
    'rook7': lambda: latin(7), 'rook8': lambda: latin(8), 'L3_7': lambda: latin(7, 1), 'L4_7': lambda: latin(7, 2), 'Sp62': lambda: symplectic(3, 2),
    'VO6': lambda: affine_polar(3), 'T10': lambda: triangular(10), 'T11': lambda: triangular(11),
}
HUGE = {
    'paley73': lambda: paley(73), 'paley89': lambda: paley(89), 'paley101': lambda: paley(101), 'rook9': lambda: latin(9), 'rook10': lambda: latin(10),
    'rook12': lambda: latin(12), 'L3_9': lambda: latin(9, 1), 'L3_11': lambda: latin(11, 1), 'T13': lambda: triangular(13), 'T14': lambda: triangular(14),
    'T13_c': lambda: comp(triangular(13)), 'rook12_c': lambda: comp(latin(12)), 'T17': lambda: triangular(17), 'T17_c': lambda: comp(triangular(17)),
    'paley137': lambda: paley(137),
}


def build(name):
    for d in (SMALL, MEDIUM, LARGE, HUGE):
        if name in d:
            return d[name]()
    raise KeyError(name)


def identity_params(vmax, vmin=3):
    """every (v,k,l,u) with 0 < k < v-1, 0 <= l < k and the counting identity"""
    out = []
    for v in range(vmin, vmax + 1):
        for k in range(1, v - 1):
            for l in range(0, k):
                n = k * (k - l - 1)
                if n % (v - k - 1) == 0:
                    out.append((v, k, l, n // (v - k - 1)))
    return out


def feasible_params(vmax):
    """arithmetically feasible, primitive or not: identity, 0<=u<=k, integral multiplicities"""
    from math import isqrt
    for (v, k, l, u) in identity_params(vmax):
        if u > k:
            continue
        disc = (l - u) ** 2 + 4 * (k - u)
        conf = 2 * k + (v - 1) * (l - u)
        if conf == 0:
            yield v, k, l, u
            continue
        s = isqrt(disc)
        if s * s != disc or s == 0 or conf % s:
            continue
        if ((v - 1) - conf // s) % 2:
            continue
        f, g = ((v - 1) - conf // s) // 2, ((v - 1) + conf // s) // 2
        if f < 0 or g < 0:
            continue
        yield v, k, l, u
