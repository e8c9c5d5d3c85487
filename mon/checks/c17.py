"""Parameter validation accepts exactly the counting identity; parameters are recovered."""
import itertools
from .. import ref, drive, gens, questions

PROPERTY = 'C17'
RULE = ('one case = a block of integer quadruples (small ones exhaustively, large ones random, on and off the identity) or a batch of partial matrices whose parameters are read off; '
        'distinct non-trivial = distinct accepted quadruples plus distinct partial matrices')
HANG_STEPS = 2_000_000  # whole cases (hundreds of calls) take less than 500 000
NEED = {'accepted': 500, 'rejected': 50000, 'recovered': 6000, 'seeds': 5000}
LONG = ['pentagon', 'K2222', '3K4', 'petersen', 'paley17', 'chang1', 'schlaefli', 'HoSi', 'VO6', 'T11', 'rook9', 'T13_c', 'paley101', 'T17', 'paley137']


def cases(seed, tier):
    hi = {'quick': 20, 'thorough': 40}[tier]
    out = [('grid', {'v': v, 'lo': -3, 'hi': hi}) for v in range(-3, hi)]
    out += [('seeds', {'lo': lo, 'hi': lo + 4}) for lo in range(3, 64 if tier == 'quick' else 100, 5)]
    out += [('lengths', {'seed': seed, 'name': n}) for n in LONG]
    out += [('random', {'seed': seed, 'i': i}) for i in range({'quick': 4, 'thorough': 60}[tier])]
    out += [('recover', {'seed': seed, 'i': i}) for i in range({'quick': 8, 'thorough': 80}[tier])]
    return out


def verdict(q, mon):
    from srg import utils
    want = (q[0] - q[1] - 1) * q[3] == q[1] * (q[1] - q[2] - 1)
    try:
        utils.assert_srg(*q)
        got = True
    except AssertionError:
        got = False
    mon.check(got == want, lambda: f'{q} {"accepted" if got else "rejected"} although the identity {"holds" if want else "fails"}', 'verdict')
    mon.count('accepted' if got else 'rejected')
    if want:
        mon.seen(q)


def run(kind, p, mon):
    if kind == 'grid':
        for k, l, u in itertools.product(range(p['lo'], p['hi']), repeat=3):
            verdict((p['v'], k, l, u), mon)
    elif kind == 'seeds':  # every parameter set of these orders that has a normal form start
        from srg import srg as s
        for q in gens.identity_params(p['hi'], p['lo']):
            if q[3] <= q[1]:
                got = drive.integers(s.vklu(drive.seed_matrix(*q)))
                mon.check(got == q, lambda: f'parameters {got} read off the seed of {q}', 'recovered')
                mon.count('recovered')
                mon.count('seeds')
                mon.seen('seed', q)
    elif kind == 'lengths':  # one graph in normal form, cut after every row
        from srg import srg as s
        rng = drive.rng_for('c17l', p)
        par, M = gens.build(p['name'])
        N = ref.normalise(ref.relabel(M, rng.sample(range(len(M)), len(M))))
        for R in range(2, len(N) + 1):
            got = drive.integers(s.vklu(drive.arr(N[:R])))
            mon.check(got == par, lambda: f'parameters {got} read off the first {R} rows of {p["name"]} {par}', 'recovered')
            mon.count('recovered')
            mon.seen('length', p['name'], R)
    elif kind == 'random':
        rng = drive.rng_for('c17', p['seed'], p['i'])
        for _ in range(2500):
            v = rng.choice([50, 200, 1000, 10 ** 6])
            k, l = rng.randint(0, v), rng.randint(0, v)
            n, d = k * (k - l - 1), v - k - 1
            u = n // d if d and rng.random() < .6 else rng.randint(0, v)
            if rng.random() < .5 and d:  # on the identity
                t = rng.randint(1, 50)
                v, k, l, u = d * t + k + 1, k, k - 1 - d * rng.randint(0, 3), 0
                u = k * (k - l - 1) // (v - k - 1) if v != k + 1 else 0
            verdict((v, k, l, u), mon)
        for q in gens.identity_params(30):
            if rng.random() < .3:
                verdict(q, mon)
                i = rng.randrange(4)
                verdict(tuple(x + (rng.choice([-1, 1]) if j == i else 0) for j, x in enumerate(q)), mon)
    else:
        from srg import srg as s
        rng = drive.rng_for('c17r', p['seed'], p['i'])
        for _ in range(60):
            names = rng.choice([questions.TINY, questions.MID, questions.MID, questions.BIG])
            par, P = questions.prefix(rng, names, wander=False)
            got = drive.integers(s.vklu(drive.arr(P)))
            mon.check(got == par, lambda: f'parameters {got} read off a partial matrix of {par}: {P}', 'recovered')
            mon.count('recovered')
            mon.seen(P)
        for q in gens.identity_params(24):
            if q[3] <= q[1] and rng.random() < .3:
                got = drive.integers(s.vklu(drive.seed_matrix(*q)))
                mon.check(got == q, lambda: f'parameters {got} read off the seed of {q}', 'recovered')
                mon.count('recovered')
                mon.seen('seed', q)
