"""Eigenvalues, multiplicities, determinant."""
from .. import ref, drive, gens

PROPERTY = 'C16'
RULE = ('one case = the parameters of strongly regular graphs that can be constructed (named graphs, families and their complements); the spectrum is checked by exact identities and, for orders up to 150, against the '
        'matrix itself, the determinant against fraction-free elimination; distinct non-trivial = distinct parameter sets')
NEED = {'spectra': 2000, 'determinants': 2000, 'matrix_determinants': 30, 'matrix_spectra': 40, 'conference': 8}
CASE_S = {'quick': 120, 'thorough': 900}


POWERS = (2, 3, 4, 5, 7, 8, 9, 11, 13)
# graphs that exist and belong to none of the families below (Brouwer's tables)
SPORADIC = {(16, 5, 0, 2), (27, 10, 1, 5), (26, 10, 3, 4), (28, 12, 6, 4), (35, 16, 6, 8), (36, 14, 4, 6), (36, 15, 6, 6), (40, 12, 2, 4), (45, 12, 3, 3), (50, 7, 0, 1), (50, 21, 8, 9), (56, 10, 0, 2),
            (63, 30, 13, 15), (64, 18, 2, 6), (64, 27, 10, 12), (64, 28, 12, 12), (77, 16, 0, 4), (81, 20, 1, 6), (100, 22, 0, 6), (105, 32, 4, 12), (112, 30, 2, 10), (120, 42, 8, 18), (120, 56, 28, 24),
            (126, 50, 13, 24), (162, 56, 10, 24), (176, 70, 18, 34), (231, 30, 9, 3), (253, 112, 36, 60), (275, 112, 30, 56), (100, 36, 14, 12), (243, 22, 1, 2), (416, 100, 36, 20), (729, 112, 1, 20)}


def prime_power_of(q):
    p = next((d for d in range(2, q + 1) if q % d == 0), None)
    while p and q % p == 0:
        q //= p
    return p if q == 1 else None


def families(vmax):
    out = set()
    for q in range(5, vmax, 4):
        if prime_power_of(q):
            out.add((q, (q - 1) // 2, (q - 5) // 4, (q - 1) // 4))
    for n in range(3, 100):
        if n >= 4 and n * (n - 1) // 2 < vmax:
            out.add((n * (n - 1) // 2, 2 * (n - 2), n - 2, 4))
        # Latin square graphs: n - 1 squares exist for prime powers, two for n other than 2 and 6
        for g in range(2, n + 1) if prime_power_of(n) else (2, 3):
            if n * n < vmax and n > g:
                out.add((n * n, g * (n - 1), n - 2 + (g - 1) * (g - 2), g * (g - 1)))
    for a in range(2, vmax // 2):
        for b in range(2, vmax // a + 1):
            if 4 <= a * b < vmax:
                v = a * b
                out.add((v, v - b, v - 2 * b, v - b))
                out.add((v, b - 1, b - 2, 0))
    for s, t in [(q, q) for q in POWERS] + [(q, q * q) for q in POWERS] + [(q * q, q) for q in POWERS] + [(q - 1, q + 1) for q in POWERS] + [(q + 1, q - 1) for q in POWERS] \
            + [(q * q, q ** 3) for q in POWERS] + [(q ** 3, q * q) for q in POWERS]:  # generalised quadrangles
        out.add(((s + 1) * (s * t + 1), s * (t + 1), s - 1, t + 1))
    for m in range(2, 6):  # symplectic, and affine polar, over two elements
        out.add((2 ** (2 * m) - 1, 2 ** (2 * m - 1) - 2, 2 ** (2 * m - 2) - 3, 2 ** (2 * m - 2) - 1))
        for e in (1, -1):
            k = (2 ** m - e) * (2 ** (m - 1) + e)
            u = 2 ** (m - 1) * (2 ** (m - 1) + e)
            out.add((4 ** m, k, k - 1 - (4 ** m - k - 1) * u // k, u))
    out |= SPORADIC
    out = {q for q in out if 3 < q[0] < vmax and q[2] >= 0 and ref.params_ok(*q)}
    res = set()
    for v, k, l, u in out:
        res.add((v, k, l, u))
        res.add((v, v - k - 1, v - 2 - 2 * k + u, v - 2 * k + l))
    return sorted(q for q in res if 0 < q[1] < q[0] - 1)


def cases(seed, tier):
    fam = families(700 if tier == 'quick' else 2500)
    out = [('params', {'list': [list(q) for q in fam[i:i + 40]]}) for i in range(0, len(fam), 40)]
    # parameters alike in all but one or two numbers, one after another in the same process
    alike = []
    for pick in ((0, 1), (0, 2), (1, 2), (0, 3), (1, 3), (1, 2, 3), (0,), (1,)):
        groups = {}
        for q in fam:
            groups.setdefault(tuple(q[i] for i in pick), []).append(q)
        groups = [g for g in groups.values() if len(g) > 1]
        rng = drive.rng_for('c16', seed, pick)
        for g in rng.sample(groups, min(len(groups), 150 if tier == 'quick' else 1000)):
            alike.append(rng.sample(g, min(len(g), 4)))
    for i in range(0, len(alike), 25):
        out.append(('params', {'list': [list(q) for g in alike[i:i + 25] for q in g + g[::-1]]}))
    names = sorted({**gens.SMALL, **gens.MEDIUM, **gens.LARGE})
    if tier == 'thorough':
        names += sorted(gens.HUGE)
    out += [('graph', {'names': names[i:i + 3]}) for i in range(0, len(names), 3)]
    return out


def eigs(*q):
    from srg import utils
    return [tuple(x.item() if hasattr(x, 'item') else x for x in p) for p in utils.eig(*q)]


def spectrum(q, mon):
    v, k, l, u = q
    e = eigs(*q)
    conf = 2 * k + (v - 1) * (l - u) == 0
    ok = len(e) == 3 and e[0] == (k, 1) and all(isinstance(m, int) and m >= 0 for _, m in e)
    mon.check(ok, lambda: f'{q}: spectrum {e} does not start with degree {k} once, or a multiplicity is no count', 'spectrum')
    if not ok:
        return e
    (_, _), (r, f), (s, g) = e
    if conf:
        tol = 1e-9 * v
        ok = 1 + f + g == v and abs(r + s - (l - u)) < tol and abs(r * s - (u - k)) < tol and abs(k + f * r + g * s) < tol * v
    else:
        ok = r == int(r) and s == int(s) and 1 + f + g == v and r + s == l - u and r * s == u - k and k + f * r + g * s == 0 and k * k + f * r * r + g * s * s == v * k
    mon.check(ok, lambda: f'{q}: {e} is not its spectrum', 'spectrum')
    mon.count('spectra')
    mon.count('conference', conf)
    mon.seen(q)
    mon.sample({'params': q, 'spectrum': e})
    return e


def exact_det(q):
    """product of the eigenvalues, from exact integers only"""
    v, k, l, u = q
    if 2 * k + (v - 1) * (l - u) == 0:
        return k * (u - k) ** ((v - 1) // 2)
    from math import isqrt
    d = isqrt((l - u) ** 2 + 4 * (k - u))
    r, s = (l - u + d) // 2, (l - u - d) // 2
    # f + g = v - 1, f r + g s = -k
    f = (-k - (v - 1) * s) // (r - s)
    return k * r ** f * s ** (v - 1 - f)


def run(kind, p, mon):
    from srg import srg, utils
    import numpy
    if kind == 'params':
        for q in p['list']:
            q = tuple(q)
            spectrum(q, mon)
            for t in (int, numpy.int64):  # as given by hand, and as read off a matrix
                d = utils.determinant(*map(t, q))
                mon.check(d == exact_det(q), lambda: f'{q} of type {t.__name__}: determinant {d} instead of {exact_det(q)}', 'determinant')
                mon.count('determinants')
            mon.check(eigs(*map(numpy.int64, q)) == eigs(*q), lambda: f'{q}: another spectrum {utils.eig(*map(numpy.int64, q))} for 64-bit integers', 'spectrum')
        return
    np = numpy
    for n in p['names']:
        for par, M in ((lambda g: (g, gens.comp(g)))(gens.build(n))):
            if not 0 < par[1] < par[0] - 1:
                continue
            e = spectrum(par, mon)
            w = sorted(np.linalg.eigvalsh(np.array(M, dtype=float)))
            mine = sorted(float(x) for x, m in e for _ in range(m))
            mon.check(len(w) == len(mine) and max(abs(a - b) for a, b in zip(w, mine)) < 1e-6 * par[0], lambda: f'{n} {par}: {e} is not the spectrum of the matrix', 'spectrum')
            mon.count('matrix_spectra')
            if par[0] <= 70:
                want = ref.det(M)
                d = utils.determinant(*(srg.vklu(drive.arr(M)) if M[0][1] else map(numpy.int64, par)))
                mon.check(d == utils.determinant(*par), lambda: f'{n} {par}: determinant {d} for the parameters read off the matrix, {utils.determinant(*par)} for those given', 'determinant')
                mon.check(d == want == exact_det(par), lambda: f'{n} {par}: determinant {d}, of the matrix {want}', 'determinant')
                mon.count('matrix_determinants')
                mon.count('determinants')
            mon.check(utils.conference(*par) == 2 * par[1] + (par[0] - 1) * (par[2] - par[3]), lambda: f'{par}: conference {utils.conference(*par)}', 'conference')
