"""The calls into the code under test, and the shared parameter workloads."""
import functools
import os
import zlib
import numpy as np
from . import ref, gens
from .common import take, Violation, rng_for


def seed_matrix(v, k, l, u):
    from srg import solver
    return solver._seed(v, k, l, u)


def start(mat):
    from srg.srg import SRG
    return SRG(mat)


def arr(rows):
    """rows of python ints -> the repository's array type; matrices now by rows, now by columns, now as a view of a larger one"""
    from srg import srg as s
    a = s.array(rows)
    if a.ndim != 2 or a.size < 4:
        return a
    how = zlib.crc32(np.ascontiguousarray(a).tobytes()) % 8
    if how < 2:
        return np.asfortranarray(a)
    if how == 2:
        big = np.full((a.shape[0] + 1, 2 * a.shape[1]), 7, dtype=a.dtype)
        big[:-1, ::2] = a
        return big[:-1, ::2]
    return a


def spoil(*results):
    """what a caller may do with results: overwrite them; returns how many could be"""
    n = 0
    for x in results:
        if isinstance(x, np.ndarray) and x.size and x.flags.writeable:
            x[...] = 7
            n += 1
        elif isinstance(x, list) and x:
            x.append(x[0])
            n += 1
    return n


def tup(mat):
    """exact python-integer copy of a matrix"""
    try:
        out = tuple(tuple(x if type(x) is int else x.item() if hasattr(x, 'item') else int(x) for x in row) for row in mat)
    except (TypeError, ValueError) as e:
        raise Violation(f'no matrix of numbers ({e}): {mat!r:.300}', 'type')
    if any(isinstance(x, float) for row in out for x in row):
        raise Violation(f'no matrix of integers: {mat!r:.300}', 'type')
    return out


def vec(x):
    try:
        return tuple(e.item() if hasattr(e, 'item') else e for e in x)
    except (TypeError, ValueError) as e:
        raise Violation(f'no vector ({e}): {x!r:.300}', 'type')


def integers(x):
    """the exact python integers in x; what is no integer shows as text"""
    return tuple(repr(e) if isinstance(e, bool) or not isinstance(e, int) else e for e in vec(x))


def held(a, which='_v'):
    """the array of values (or of group starts) an answer holds, whatever it is called"""
    x = getattr(a, which, None)
    if x is None:
        x = [e for e in vars(a).values() if isinstance(e, np.ndarray)][0 if which == '_v' else 1]
    return x


def solve_from(mat, cap=200000):
    from srg import solver
    return take(solver.solve(start(mat)), cap, 'solve')


def solve(params, cap=200000):
    return solve_from(seed_matrix(*params), cap)


def question(prefix):
    """the question of a partial matrix, or None when the code says there is no solution"""
    from srg.srg import Question, NoSolution
    try:
        return Question.from_matrix(arr(prefix))
    except NoSolution:
        return None


def answers_of(q, cap=200000):
    from srg import solver
    return take(solver.solve_question(q), cap, 'solve_question')


def no_solution():
    from srg.srg import NoSolution
    return NoSolution


# ------------------------------------------------------------------ parameter workloads

# seconds one solve takes (measured once, only used to balance the work and to choose what fits the tier)
COST = {(19, 12, 8, 6): 60, (19, 10, 5, 5): 38, (19, 12, 7, 8): 32, (17, 12, 9, 6): 16, (19, 12, 9, 4): 14, (19, 9, 4, 4): 12, (19, 14, 11, 7): 10,
        (17, 10, 6, 5): 10, (15, 10, 7, 5): 6, (16, 10, 7, 4): 5, (16, 10, 6, 6): 3.6, (17, 12, 8, 9): 2.7,
        (49, 12, 5, 2): 5.6, (27, 10, 1, 5): 33, (22, 7, 0, 3): 22, (21, 10, 4, 5): 208, (64, 14, 6, 2): 303}
LARGER = [(49, 12, 5, 2), (27, 10, 1, 5), (21, 10, 5, 4), (36, 21, 10, 15), (36, 10, 4, 2), (25, 8, 3, 2), (21, 10, 3, 6)]
THOROUGH_ONLY = [(22, 7, 0, 3), (21, 10, 4, 5)]


@functools.lru_cache(None)
def costs():
    """costs.txt: the parameter sets of orders 19 to 64 that were solved within 25 (orders above 40: 3) seconds"""
    out = {}
    with open(os.path.join(os.path.dirname(__file__), 'costs.txt')) as f:
        for line in f:
            *p, c = line.split()
            out[tuple(map(int, p))] = float(c)
    out.update(COST)
    return out


def cost(p):
    p = tuple(p)
    return costs().get(p, 1e9 if p[0] > 20 else 60 if p[0] > 18 else .05 if p[0] < 13 else .5)


def degenerate(rng, n, vmax):
    """complete multipartite graphs and disjoint cliques: orders up to vmax, cheap to solve"""
    out = set()
    while len(out) < n:
        parts, size = rng.randint(2, 12), rng.randint(2, 12)
        if 4 <= parts * size <= vmax:
            v = parts * size
            out.add((v, v - size, v - 2 * size, v - size) if rng.random() < .5 else (v, size - 1, size - 2, 0))
    return sorted(out)


def param_sets(seed, tier):
    """parameter sets to solve from the two seed rows: all small ones, all larger ones that end quickly, a few that take longer"""
    rng = rng_for('params', seed)
    known = costs()
    ps = set(gens.identity_params(18)) | set(LARGER)
    if tier == 'thorough':
        ps |= set(known) | set(gens.identity_params(20)) | set(THOROUGH_ONLY) | set(degenerate(rng, 60, 110))
        ps.discard((64, 14, 6, 2))
    else:
        ps = {p for p in ps if cost(p) <= 16 or p in LARGER}
        ps |= {p for p, c in known.items() if p[0] <= 40 and c <= 3}
        ps |= set(rng.sample([p for p, c in sorted(known.items()) if p[0] > 40 and c <= 3], 900))
        ps |= set(rng.sample([p for p, c in sorted(known.items()) if 3 < c <= 25], 8))
        ps |= set(degenerate(rng, 20, 100))
    return sorted(ps, key=lambda p: (-cost(p), p))


def batches(ps, max_cost=1.5):
    """expensive ones alone, cheap ones together"""
    out, cur, c = [], [], 0.0
    for p in ps:
        w = cost(p)
        if cur and c + w > max_cost:
            out.append(cur)
            cur, c = [], 0.0
        cur.append(list(p))
        c += w
    if cur:
        out.append(cur)
    return out


def random_prefix(rng, name, rmin=2, rmax=None):
    """(params, prefix) of a random normal-form labelling of a known graph"""
    par, M = gens.build(name)
    N = ref.random_nf(M, rng)
    R = rng.randint(rmin, min(rmax or len(N) - 1, len(N) - 1))
    return par, N[:R]


# ------------------------------------------------------------------ searches resumed where they are wide

# (graph, rows given, seconds): hundreds to thousands of partial answers side by side, several answers
BROAD = [('T8', 4, 13), ('chang3', 4, 13), ('chang1', 4, 3), ('chang2', 4, 3), ('chang3', 5, 2), ('schlaefli_c', 8, 4), ('schlaefli_c', 9, 4), ('T9', 6, 3), ('T7', 3, 6), ('T7', 4, 1), ('L4_5', 7, 5),
         ('rook5_c', 7, 5), ('L3_6', 12, 4), ('paley25', 7, 4), ('L3_5', 6, 6), ('L3_5', 7, 4), ('chang1_c', 7, 2), ('Sp42', 5, .1), ('T8', 5, .5), ('T10', 8, 1), ('Sp43', 17, 3), ('Sp62', 40, 6), ('HoSi', 16, 3)]
BROADER = [('paley29', 8, 16), ('rook6_c', 9, 18), ('chang3', 3, 200), ('chang1', 3, 200), ('T8', 3, 300), ('schlaefli_c', 6, 60), ('paley25', 6, 60), ('Sp43', 10, 100), ('L3_6', 9, 60)]


def broad(seed, tier):
    """[{'name', 'R', 'i', 'seed'}], the longest first"""
    out = [(c, n, r, i) for n, r, c in BROAD for i in range(1 if tier == 'quick' else 6)]
    if tier == 'thorough':
        out += [(c, n, r, 0) for n, r, c in BROADER]
    return [{'name': n, 'R': r, 'i': i, 'seed': seed} for c, n, r, i in sorted(out, reverse=True)]


def broad_start(p):
    """(parameters, normal-form labelling, its first rows)"""
    par, M = gens.build(p['name'])
    N = ref.random_nf(M, rng_for('broad', p))
    return par, N, N[:p['R']]
