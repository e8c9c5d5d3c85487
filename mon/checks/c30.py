"""One level of the search: advancing partial graphs, telling finished ones, sorting equations."""
import itertools
from .. import ref, drive, gens, questions

PROPERTY = 'C30'
RULE = ('one case = a batch of partial graphs that are advanced by one row (as many longer graphs as the reference search finds rows), of mixed sequences of finished and unfinished graphs that are split, or of '
        'systems of equations of every size that are sorted; distinct non-trivial = distinct inputs with several outcomes')
NEED = {'advanced': 1500, 'advanced_to_several': 150, 'dead_ends': 100}
CASE_S = {'quick': 120, 'thorough': 900}
HANG_STEPS = 10_000_000  # the longest question seen takes 300 000


def cases(seed, tier):
    m = {'quick': 1, 'thorough': 12}[tier]
    out = []
    for kind, n, size in (('mid', 300, 20), ('tiny', 500, 50), ('loose', 500, 50), ('params', 800, 50), ('big', 24, 3)):
        out += [('advance', {'kind': kind, 'seed': seed, 'salt': 'c30', 'i': i, 'n': size}) for i in range(0, n * m, size)]
    out += [('split', {'seed': seed, 'i': i}) for i in range(16 * m)]
    out += [('sort', {'seed': seed, 'list': list(range(lo, 331, 16))}) for lo in range(1, 17)]
    out += [('sort', {'seed': seed + i, 'list': [1, 2, 3, 5, 16, 17, 40]}) for i in range(8 * m)]
    return out


def advance(p, mon):
    from srg import solver
    for what, par, P in questions.items(p['kind'], p):
        if what != 'prefix' or len(P) >= par[0]:
            continue
        c = {}
        try:
            want = ref.next_rows(P, *par[1:], limit=3000, counter=c)
        except ref.TooBig:
            mon.count('too_big_for_the_reference')
            continue
        if c.get('ref_nodes', 0) > 60000:
            continue
        m = drive.arr(P)
        s = drive.start(m)
        got = [drive.tup(t.current_matrix) for t in solver.advance(s)]
        mon.check(drive.tup(m) == tuple(map(tuple, P)) and drive.tup(s.current_matrix) == tuple(map(tuple, P)), lambda: f'advancing changed the partial graph {P}', 'input-modified')
        full = sorted(ref.extend(P, x) for x in want)
        mon.check(sorted(got) == full, lambda: f'{par}: advancing {P} gives {len(got)} partial graphs instead of {len(full)}: {sorted(set(got) ^ set(full))[:2]}', 'advance')
        mon.count('advanced')
        mon.count('advanced_to_several', len(full) > 1)
        mon.count('dead_ends', not full)
        if len(full) > 1:
            mon.seen(par, P)
        mon.sample({'params': par, 'rows': len(P), 'longer': len(full)})


def split(p, mon):
    from srg import solver
    if not hasattr(solver, 'partition_by_done'):
        return mon.count('helpers_left_out')
    rng = drive.rng_for('c30s', p)
    for _ in range(25):
        n = rng.choice([0, 1, 2, 3, 10, 40, 100, 300])
        all_, done = [], rng.choice([0, .1, .5, .9, 1])
        made = []
        for _ in range(min(n, 12)):
            par, M = gens.build(rng.choice(questions.TINY))
            N = ref.random_nf(M, rng)
            made.append(N if rng.random() < done else N[:rng.choice([2, 3, len(N) - 1, rng.randint(2, len(N) - 1)])])
        made = [rng.choice(made) for _ in range(n)]
        objs = [drive.start(drive.arr(N)) for N in made]
        given = rng.choice([list(objs), tuple(objs), iter(objs), (o for o in objs)])
        a, b = solver.partition_by_done(given)
        at = {id(o): i for i, o in enumerate(objs)}
        got = [[at.get(id(o)) for o in part] for part in (a, b)]
        want = [[i for i, N in enumerate(made) if len(N) == len(N[0])], [i for i, N in enumerate(made) if len(N) < len(N[0])]]
        mon.check(got == want, lambda: f'{n} partial graphs are split into {got} instead of {want}', 'split')
        mon.check(all(bool(o.solved()) == (len(N) == len(N[0])) for o, N in zip(objs, made)), lambda: 'finished and unfinished graphs are mistaken', 'split')
        mon.check(all(drive.tup(o.current_matrix) == tuple(map(tuple, N)) for o, N in zip(objs, made)), 'splitting changed a partial graph', 'input-modified')
        mon.count('sequences_split')
        if all(want):
            mon.seen('split', str(want))


def sort(p, mon):
    from srg import gauss_elim
    if not hasattr(gauss_elim, 'sort'):  # nothing of the search uses it
        return mon.count('helpers_left_out')
    rng = drive.rng_for('c30e', p)
    for R, top in itertools.product(p['list'], (1, 4, 10 ** 6)):
        C = rng.choice([1, 2, 9, 70])
        b = [rng.randint(0, top) for _ in range(R)]
        if rng.random() < .2:
            b.sort(reverse=rng.random() < .5)
        A = [[rng.randint(0, 1) for _ in range(C)] for _ in range(R)]
        a, y = drive.arr(A), drive.arr(b)
        gauss_elim.sort(a, y)
        A2, b2 = drive.tup(a), drive.vec(y)
        mon.check(list(b2) == sorted(b), lambda: f'the right hand sides {b} are sorted to {b2}', 'sort')
        mon.check(sorted(zip(A2, b2)) == sorted(zip(map(tuple, A), b)), lambda: f'sorting the equations {A if C < 10 else ""} = {b} changed them: {A2 if C < 10 else ""} = {b2}', 'sort')
        mon.count('systems_sorted')
        if list(b2) != b:
            mon.seen('sort', str(b))


def run(kind, p, mon):
    {'advance': advance, 'split': split, 'sort': sort}[kind](p, mon)
