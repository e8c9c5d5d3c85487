"""The question posed for a partial matrix states exactly the row conditions; seeds."""
from .. import ref, drive, gens, questions

PROPERTY = 'C07'
RULE = ('one case = a batch of seeds, or of partial matrices (prefixes of known graphs, prefixes the search wanders to, prefixes with a changed last row, rows in normal form that meet no equation, matrices in which only the degree is exceeded); '
        'the posed system is compared with the row conditions, by equations or by solution sets; distinct non-trivial = distinct partial matrices')
HANG_STEPS = 2_000_000  # whole cases (hundreds of calls) take less than 500 000
NEED = {'seeds': 150, 'questions': 4000, 'refusals': 100, 'over_64_columns': 20, 'only_the_degree_exceeded': 30}
CASE_S = {'quick': 120, 'thorough': 900}


def cases(seed, tier):
    k = {'quick': 10, 'thorough': 100}[tier]
    out = [('seed', {'seed': seed, 'lo': lo, 'hi': lo + 6}) for lo in range(3, 3 + 6 * (5 if tier == 'quick' else 12), 6)]
    for kind, n, step in (('vast', 12, 3), ('big', 45, 9), ('mid', 240, 20), ('tiny', 600, 50), ('changed', 1200, 25), ('loose', 1200, 25), ('params', 1000, 25), ('degree', 64, 4)):
        out += [(kind, {'seed': seed, 'i': i, 'n': step}) for i in range(0, n * k, step)]
    return out


def same_conditions(A, b, quota, bounds, cols, rb, limit=100000):
    """None when the posed system has the same 0/1 solutions as the row conditions"""
    n = len(cols)
    got = {(tuple(r), x) for r, x in zip(A, b)} | {((1,) * n, quota)}
    want = {(tuple(c[i] for c in cols), rb[i]) for i in range(len(rb))}
    if all(e >= 1 for e in bounds) and {e for e in got if any(e[0]) or e[1]} == {e for e in want if any(e[0]) or e[1]}:
        return None
    eqs = sorted(got | want)
    keys = [tuple(r[c] for r, _ in eqs) for c in range(n)]
    order = sorted(range(n), key=lambda c: (keys[c], min(bounds[c], 1)))
    sets = []
    for sel, cap in ((got, [min(x, 1) for x in bounds]), (want, [1] * n)):
        sel = sorted(sel)
        sets.append(set(ref.boxed_solutions([tuple(r[c] for r, _ in sel) for c in order], [cap[c] for c in order], [x for _, x in sel], limit)))
    if sets[0] == sets[1]:
        return None
    d = sorted(sets[0] ^ sets[1])[0]
    x = [0] * n
    for c, e in zip(order, d):
        x[c] = e
    return f'{x} {"solves" if d in sets[0] else "does not solve"} the question but {"does not meet" if d in sets[0] else "meets"} the row conditions'


def run(kind, p, mon):
    if kind == 'seed':
        rng = drive.rng_for('c07', p)
        from srg import srg as s
        ps = [q for q in gens.identity_params(p['hi'] - 1, p['lo']) if q[3] <= q[1]]
        ps += [par for par, _ in (gens.build(n) for n in rng.sample(sorted(gens.LARGE), 2))]
        for q in ps:
            m = drive.tup(drive.seed_matrix(*q))
            mon.check(m == ref.seed(*q), lambda: f'seed{tuple(q)} is {m} instead of {ref.seed(*q)}', 'seed')
            bad = ref.why_not_nf(m)
            mon.check(bad is None, lambda: f'seed{tuple(q)} is not in normal form: {bad}', 'seed')
            got = drive.integers(s.vklu(drive.arr(m)))
            mon.check(got == tuple(q), lambda: f'parameters read off seed{tuple(q)}: {got}', 'vklu')
            mon.count('seeds')
            mon.seen('seed', tuple(q))
            pose(q, m, mon)
        return
    for j in range(p['i'], p['i'] + p['n']):
        rng = drive.rng_for('c07', kind, p['seed'], j)
        if kind == 'changed':
            par, P = questions.prefix(rng, questions.TINY + questions.MID[:12], wander=rng.random() < .3)
            P = list(P)
            if len(P) > 2:
                R = len(P) - 1
                tail = list(P[R][R + 1:])
                if rng.random() < .5:
                    rng.shuffle(tail)
                else:
                    tail = [int(rng.random() < .5) for _ in tail]
                P[R] = P[R][:R + 1] + tuple(tail)
            P = tuple(P)
        elif kind == 'loose':
            par, P = questions.loose(rng)
        elif kind == 'params':
            par, P = questions.from_seed(rng)
        elif kind == 'degree':
            found = questions.degree(rng)
            if found is None:
                continue
            par, P = found
        else:
            par, P = questions.prefix(rng, questions.NAMES[kind], wander=rng.random() < .6)
        pose(par, P, mon)


def pose(par, P, mon):
    v = par[0]
    if len(P) >= v:
        return
    cols, rb = ref.row_equations(P, *par[1:])
    m = drive.arr(P)
    keep = m.copy()
    from srg.srg import Question
    try:
        q = Question.from_matrix(m)
    except drive.no_solution():
        q = None
    mon.check((m == keep).all(), 'posing the question modified the matrix', 'input-modified')
    mon.seen(P)
    mon.count('only_the_degree_exceeded', rb[-1] < 0 and min(rb[:-1]) >= 0)
    if min(rb) < 0:
        mon.check(q is None, lambda: f'a count is already exceeded (conditions {rb}) but a question is posed for {par} {P}', 'not-refused')
        mon.count('refusals')
        return
    if not mon.check(q is not None, lambda: f'no question although no count is exceeded (conditions {rb}) for {par} {P}', 'refused'):
        return
    mon.count('questions')
    mon.count('over_64_columns', len(cols) > 64)
    A = [list(drive.vec(r)) for r in q.A]
    b = [int(x) for x in q.b]
    bounds = [int(x) for x in q.bounds]
    if not mon.check(all(len(r) == len(cols) for r in A) and len(A) == len(b) and len(bounds) == len(cols),
                     lambda: f'shapes do not fit: {len(A)} equations, {len(b)} right hand sides, {len(bounds)} bounds, {len(cols)} columns', 'shape'):
        return
    mon.check(len(q.answer) == len(cols) and len(q.answer.unknown_loc) == len(cols), 'not every entry of the next row is unknown', 'shape')
    try:
        bad = same_conditions(A, b, int(q.quota), bounds, cols, rb)
    except ref.TooBig:
        mon.count('too_big_to_compare')
        return
    mon.check(bad is None, lambda: f'{bad}: {par} {P}', 'conditions')
    mon.sample({'params': par, 'rows_given': len(P), 'b': b})
