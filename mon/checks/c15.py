"""Complements of matrices and of parameters."""
from .. import ref, drive, gens
from .c14 import rand_graph

PROPERTY = 'C15'
RULE = ('one case = a batch of graphs complemented twice, or of parameter sets complemented twice and compared with the complement of a graph where one can be constructed; '
        'distinct non-trivial = distinct graphs and parameter sets')
HANG_STEPS = 2_000_000  # whole cases (hundreds of calls) take less than 500 000
NEED = {'matrices': 200, 'parameter_sets': 1000, 'parameters_of_real_graphs': 40, 'orders_swept': 250}


def cases(seed, tier):
    m = {'quick': 1, 'thorough': 20}[tier]
    out = [('matrix', {'seed': seed, 'i': i}) for i in range(12 * m)]
    out += [('orders', {'seed': seed, 'list': list(range(lo, 301, 12))}) for lo in range(1, 13)]
    out += [('params', {'lo': lo, 'hi': lo + 7}) for lo in range(3, 80 if tier == 'quick' else 160, 8)]
    out += [('graph', {'names': n}) for n in drive_chunks(sorted({**gens.SMALL, **gens.MEDIUM, **gens.LARGE}), 6)]
    if tier == 'thorough':
        out += [('graph', {'names': n}) for n in drive_chunks(sorted(gens.HUGE), 2)]
    return out


def drive_chunks(lst, n):
    return [lst[i:i + n] for i in range(0, len(lst), n)]


def matrix(M, mon):
    from srg import utils
    a = drive.arr(M)
    c = utils.complement(a)
    mon.check(drive.tup(c) == ref.complement(M), lambda: f'the complement of {M} is {drive.tup(c)}', 'matrix')
    mon.check(drive.tup(utils.complement(c)) == tuple(M), lambda: f'complementing {M} twice does not restore it', 'matrix')
    mon.check(drive.tup(a) == tuple(M), 'complementing modified its input', 'input-modified')
    if len(M) < 140 and drive.spoil(c):
        c = utils.complement(drive.arr(M))
        mon.check(drive.tup(c) == ref.complement(M), lambda: f'after an earlier result was overwritten, the complement of {M} is {drive.tup(c)}', 'shared-result')
    mon.count('matrices')
    mon.seen(M)


def params(q, mon):
    from srg import utils
    v, k, l, u = q
    c = tuple(utils.complement_vklu(*q))
    want = (v, v - 1 - k, v - 2 - 2 * k + u, v - 2 * k + l)
    mon.check(c == want, lambda: f'complementary parameters of {q}: {c} instead of {want}', 'params')
    mon.check(tuple(utils.complement_vklu(*c)) == tuple(q), lambda: f'complementing {q} twice gives {utils.complement_vklu(*c)}', 'params')
    mon.check(ref.params_ok(*c), lambda: f'{c}, complementary to {q}, violates the identity', 'params')
    mon.count('parameter_sets')
    mon.seen(q)
    mon.sample({'params': q, 'complement': c})


def run(kind, p, mon):
    if kind == 'matrix':
        rng = drive.rng_for('c15', p)
        for _ in range(25):
            matrix(rand_graph(rng, rng.choice([1, 2, 3, 5, 10, 30, 65, 130]), rng.choice([0, .2, .5, .8, 1])), mon)
    elif kind == 'orders':
        rng = drive.rng_for('c15o', p)
        for n in p['list']:
            matrix(rand_graph(rng, n, rng.choice([.3, .7])), mon)
            mon.count('orders_swept')
    elif kind == 'params':
        for q in gens.identity_params(p['hi'], p['lo']):
            params(q, mon)
    else:
        from srg import utils
        for n in p['names']:
            par, M = gens.build(n)
            matrix(M, mon)
            params(par, mon)
            C = drive.tup(utils.complement(drive.arr(M)))
            got = tuple(utils.complement_vklu(*par))
            bad = ref.why_not_srg(C, *got)
            mon.check(bad is None, lambda: f'the complement of {n} {par} does not have the complementary parameters {got}: {bad}', 'params')
            mon.count('parameters_of_real_graphs')
