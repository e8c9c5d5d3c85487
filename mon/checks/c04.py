"""Histories: repeated, interleaved, threaded, differently hashed solves; writes to inputs and outputs."""
import hashlib
import json
import os
import subprocess
import sys
import threading
import time
from .. import ref, drive, gens, steps
from ..common import VERIF, REPO

PROPERTY = 'C04'
RULE = ('one case = one history of solves (repeated, interleaved step by step in random order, in threads with a tiny switch interval, in fresh processes with '
        'other hash seeds, after problems alike in some respect, after being interrupted by an exception at any step, with outputs overwritten or inputs write-protected) whose answer sequences are compared with those of undisturbed solves; '
        'distinct non-trivial = distinct (history kind, problem, disturbance) that produced at least one compared answer')
NEED = {'answers_compared': 200, 'interleavings': 20, 'context_switches_between_solves': 50, 'outputs_overwritten': 50, 'inputs_write_protected': 20,
        'process_digests': 4, 'fresh_digests': 60, 'related_problems': 40, 'interrupted': 60, 'other_uses': 60, 'same_start_object': 30, 'thread_answers': 40}
ASSUMPTIONS = ['thread schedules are those the interpreter produced with a 1 microsecond switch interval']
CASE_S = {'quick': 120, 'thorough': 900}
PARAMS = [(10, 6, 3, 4), (13, 6, 2, 3), (15, 6, 1, 3), (15, 8, 4, 4), (16, 6, 2, 2), (16, 9, 4, 6), (17, 8, 3, 4), (10, 3, 0, 1), (5, 2, 0, 1),
          (9, 4, 1, 2), (12, 8, 4, 8), (12, 3, 2, 0), (14, 6, 1, 3), (11, 5, 2, 2), (16, 5, 0, 2), (8, 4, 0, 4), (4, 2, 0, 2), (13, 4, 1, 1)]
PREFIX = ['T8', 'chang1', 'chang2', 'schlaefli', 'schlaefli_c', 'rook5', 'rook5_c', 'L3_5', 'paley17', 'shrikhande_c', 'T7', 'Sp42', 'T6_c', 'rook4_c']


def problems(rng, n):
    """start matrices: seeds and prefixes that leave few rows (few seconds at most), and next-row questions"""
    out = []
    for _ in range(n):
        r = rng.random()
        if r < .45:
            out.append(['solve', [list(x) for x in drive.tup(drive.seed_matrix(*rng.choice(PARAMS)))]])
        else:
            name = rng.choice(PREFIX)
            par, M = gens.build(name)
            N = ref.random_nf(M, rng)
            R = rng.randint(2, par[0] - 2) if rng.random() < .5 else rng.randint(2, max(3, par[0] // 4))
            small = R >= par[0] // 3
            out.append(['solve' if small and r < .75 else 'question', [list(x) for x in N[:R]]])
    return out


def cases(seed, tier):
    n = {'quick': 8, 'thorough': 60}[tier]
    out = []
    for i in range(n):
        for kind in ('repeat', 'interleave', 'overwrite', 'protect', 'interrupt', 'threads'):
            out.append((kind, {'seed': seed, 'i': i}))
    out += [('fresh', {'seed': seed, 'i': i}) for i in range(n)]
    for hs in range({'quick': 3, 'thorough': 12}[tier]):
        out.append(('process', {'seed': seed, 'i': hs}))
    return out


def gen_of(p, mat=None, start=None):
    """an iterator over the answers of a problem, on fresh inputs"""
    from srg import solver
    m = drive.arr(p[1]) if mat is None else mat
    if p[0] == 'solve':
        return solver.solve(drive.start(m) if start is None else start)
    q = drive.question(p[1]) if mat is None else _question(m)
    return iter(()) if q is None else solver.solve_question(q)


def _question(m):
    from srg.srg import Question
    try:
        return Question.from_matrix(m)
    except drive.no_solution():
        return None


def frozen(x):
    return drive.tup(x) if x.ndim == 2 else drive.vec(x)


CAP = 400


def baseline(p):
    out = []
    for x in gen_of(p):
        out.append(frozen(x))
        if len(out) >= CAP:
            break
    return out


def other(rng, mon):
    """any other use of the package, failing ones too"""
    from srg import solver, utils, sorter, unique, gauss_elim, partition, database
    par, M = gens.build(rng.choice(PREFIX))
    m = drive.arr(ref.relabel(M, rng.sample(range(len(M)), len(M))))
    what = rng.choice(['eig', 'complement', 'maximize', 'sort', 'columns', 'elim', 'refused', 'partition', 'stored', 'unknown', 'identity', 'print', 'step'])
    try:
        if what == 'eig':
            utils.eig(*par), utils.determinant(*par), utils.complement_vklu(*par)
        elif what == 'complement':
            utils.complement(m)[...] = 3
        elif what == 'maximize':
            sorter.maximize(m)[...] = 3
        elif what == 'sort':
            sorter.sort([m, sorter.swap(m, 1, 2), m])
        elif what == 'columns':
            r, lens, at = unique.reduce(m)
            unique.expand(r, lens)[...] = 3
            lens[...] = 1
        elif what == 'elim':
            for x in gauss_elim.elim(drive.arr([[1, 1, 1], [1, 0, 0]]), drive.arr([2, 1])):
                x[...] = 3
        elif what == 'refused':
            gauss_elim.elim(drive.arr([[1, 1, 1], [1, 1, 1], [1, 0, 0]]), drive.arr([2, 1, 1]))
        elif what == 'partition':
            next(partition.enum(3, [2, 2, 2]))
        elif what == 'stored':
            database.list_problems(), database.get_solutions(10, 3, 0, 1)
        elif what == 'unknown':
            database.get_solutions(11, 3, 0, 1)
        elif what == 'identity':
            utils.assert_srg(10, 3, 1, 1)
        else:
            q = drive.question(ref.random_nf(M, rng)[:rng.randint(2, len(M) - 1)])
            if q is not None and what == 'print':
                str(q), repr(q.answer)
            elif q is not None:
                next(iter(solver.solve_question(q)), None)
    except Exception:
        pass  # other checks judge these; here only what comes after counts
    mon.count('other_uses')


def same(mon, p, got, want, what, whole=True):
    ok = got == want if whole else got == want[:len(got)]
    first = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
    mon.check(ok, lambda: f'{what}: {p[0]} from {p[1]}: {len(got)} answers instead of {len(want)}, the first difference is answer {first}: '
              f'{got[first] if first < len(got) else None} instead of {want[first] if first < len(want) else None}', 'differs')
    mon.count('answers_compared', len(got))


def run(kind, p, mon):
    rng = drive.rng_for('c04', kind, p['seed'], p['i'])
    if kind == 'process':
        return process(p, mon)
    if kind == 'fresh':
        return fresh(rng, mon)
    if kind == 'repeat':
        ps = problems(rng, 5)
        base = [baseline(x) for x in ps]
        for _ in range(12):
            for _ in range(rng.choice([0, 1, 3])):
                other(rng, mon)
            j = rng.randrange(len(ps))
            m = drive.arr(ps[j][1])
            keep = m.copy()
            got = []
            for x in gen_of(ps[j], m):
                got.append(frozen(x))
                if len(got) >= CAP:
                    break
                if rng.random() < .02:
                    break  # an abandoned solve is part of the history
            same(mon, ps[j], got, base[j], 'repeated', whole=False)
            if len(got) == len(base[j]):
                mon.seen('repeat', repr(ps[j]))
            mon.check((m == keep).all(), lambda: f'the matrix {ps[j][0]} started from was modified: {keep.tolist()} became {m.tolist()}', 'input-modified')
        for j, x in enumerate(ps):
            same(mon, x, baseline(x), base[j], 'repeated after other solves')
    elif kind == 'interleave':
        ps = problems(rng, 4)
        if rng.random() < .5:
            ps[1] = ps[0]  # twice the same problem at the same time
        base = [baseline(x) for x in ps]
        for rounds in range(4):
            shared = {}
            gens_ = []
            for j, x in enumerate(ps):
                # the same start matrix object may serve several solves
                m = shared.setdefault(repr(x[1]), drive.arr(x[1]))
                gens_.append([j, gen_of(x, m), []])
            live = list(gens_)
            last = None
            while live:
                g = rng.choice(live)
                if last is not None and last is not g:
                    mon.count('context_switches_between_solves')
                last = g
                try:
                    x = next(g[1])
                    g[2].append(x)
                    if len(g[2]) >= CAP:
                        live.remove(g)
                except StopIteration:
                    live.remove(g)
            for j, _, out in gens_:
                # the arrays are read only now: later steps must not have changed them
                same(mon, ps[j], [frozen(x) for x in out], base[j], 'interleaved')
                mon.seen('interleave', repr(ps[j]), rounds)
            mon.count('interleavings')
    elif kind == 'overwrite':
        for x in problems(rng, 6):
            base = baseline(x)
            got = []
            for y in gen_of(x):
                got.append(frozen(y))
                try:
                    y[...] = rng.choice([7, 0, 1])
                    mon.count('outputs_overwritten')
                except ValueError:
                    mon.count('outputs_read_only')
                if len(got) >= CAP:
                    break
            same(mon, x, got, base, 'with outputs overwritten')
            mon.seen('overwrite', repr(x))
    elif kind == 'interrupt':
        for x in problems(rng, 4):
            base = baseline(x)
            with steps.Steps(10 ** 12) as st:
                baseline(x)
            m = drive.arr(x[1])
            keep = m.copy()
            start = drive.start(m) if x[0] == 'solve' else None
            for _ in range(5):
                got = []
                it = gen_of(x, m, start)
                at = rng.randint(1, max(1, st.n)) if rng.random() < .7 else rng.randint(1, 40)
                try:
                    with steps.Steps(at):
                        for y in it:
                            got.append(frozen(y))
                            if len(got) >= CAP:
                                break
                except steps.OverBudget:
                    mon.count('interrupted')
                same(mon, x, got, base, 'interrupted', whole=False)
                mon.check((m == keep).all(), lambda: 'the matrix solving started from was modified', 'input-modified')
                got = []
                for y in gen_of(x, m, start):
                    got.append(frozen(y))
                    if len(got) >= CAP:
                        break
                same(mon, x, got, base, f'again, from the same start, after an exception at step {at} of {st.n}')
                mon.count('same_start_object', start is not None)
            mon.seen('interrupt', repr(x))
    elif kind == 'protect':
        for x in problems(rng, 6):
            base = baseline(x)
            m = drive.arr(x[1])
            m.setflags(write=False)
            keep = m.copy()
            got = []
            for y in gen_of(x, m):
                got.append(frozen(y))
                if len(got) >= CAP:
                    break
            mon.check((m == keep).all(), lambda: 'the matrix solving started from was modified', 'input-modified')
            same(mon, x, got, base, 'from a write-protected matrix')
            mon.count('inputs_write_protected')
            mon.seen('protect', repr(x))
    elif kind == 'threads':
        ps = problems(rng, 4)
        base = [baseline(x) for x in ps]
        outs, errs = {}, []
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)

        def work(t, j):
            try:
                out = []
                for y in gen_of(ps[j]):
                    out.append(frozen(y))
                    if len(out) >= CAP:
                        break
                outs[t] = (j, out)
            except BaseException as e:
                errs.append((j, repr(e)))
        try:
            ts = [threading.Thread(target=work, args=(t, t % len(ps))) for t in range(8)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        finally:
            sys.setswitchinterval(old)
        mon.check(not errs, lambda: f'solving in threads raised {errs[:2]}', 'thread-exception')
        for t, (j, out) in sorted(outs.items()):
            same(mon, ps[j], out, base[j], 'in a thread')
            mon.count('thread_answers', len(out))
            mon.seen('thread', repr(ps[j]))


PROG = '''
import sys, json, hashlib
sys.path.insert(0, sys.argv[1])
from mon import common
common.setup_repo()
from mon.checks import c04
out = []
for p in json.load(sys.stdin):
    out.append(hashlib.sha256(repr(c04.baseline(p)).encode()).hexdigest()[:16])
print(json.dumps(out))
'''


# what one problem leaves behind must not be taken for another that is alike in some parameters
ALIKE = [lambda q: q[:2], lambda q: q[:2], lambda q: q[:2], lambda q: q[0], lambda q: q[1:], lambda q: (q[0], q[2]), lambda q: (q[0], q[3]), lambda q: q[1:3]]


def alike(rng):
    """parameter sets that solve quickly and agree in some parameters, one with an answer at least"""
    ps = [q for q in gens.identity_params(16, 4) if drive.cost(q) <= .5]
    part = rng.choice(ALIKE)
    while True:
        like = part(rng.choice(PARAMS))
        group = [q for q in ps if part(q) == like]
        if len(group) > 1:
            return rng.sample(group, min(4, len(group)))


def related(rng):
    out = []
    for q in alike(rng) + alike(rng):
        out.append(['solve', [list(x) for x in drive.tup(drive.seed_matrix(*q))]])
    name = rng.choice(PREFIX)
    par, M = gens.build(name)
    N1, N2 = ref.random_nf(M, rng), ref.random_nf(M, rng)
    R = rng.randint(max(3, par[0] // 3), par[0] - 2)
    rows = [N1[:R], N2[:R], N1[:R - 1], N1[:R + 1]]
    try:
        kids = sorted(ref.next_rows(N1[:R - 1], *par[1:], limit=2000))
        rows += [ref.extend(N1[:R - 1], x) for x in rng.sample(kids, min(3, len(kids)))]
    except ref.TooBig:
        pass
    for P in rows:
        out.append([rng.choice(['solve', 'question']) if len(P) >= par[0] / 2 else 'question', [list(x) for x in P]])
    rng.shuffle(out)
    return out


def digests(ps, hashseed):
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE='1')
    r = subprocess.run([sys.executable, '-c', PROG, VERIF], input=json.dumps(ps), env=env, capture_output=True, text=True)
    if r.returncode:
        return None, r.stderr[-600:]
    return json.loads(r.stdout.strip().splitlines()[-1]), None


def fresh(rng, mon):
    """each problem alone in a process of its own, against all of them one after another in one process"""
    ps = related(rng)
    want = []
    for x in ps:
        d, err = digests([x], 0)
        if not mon.check(d is not None, lambda: f'solving in a fresh process failed: {x}: {err}', 'process'):
            return
        want.append(d[0])
    mon.count('related_problems', len(ps))
    for _ in range(2):
        order = [rng.randrange(len(ps)) for _ in range(3)] + rng.sample(range(len(ps)), len(ps))
        d, err = digests([ps[j] for j in order], 0)
        if not mon.check(d is not None, lambda: f'solving one problem after another failed: {[ps[j] for j in order]}: {err}', 'process'):
            return
        for n, (j, x) in enumerate(zip(order, d)):
            mon.check(x == want[j], lambda: f'{ps[j][0]} from {ps[j][1]} gives other answers after {[ps[i] for i in order[:n]]} than alone', 'history')
        mon.count('fresh_digests', len(d))
        mon.seen('fresh', repr([ps[j] for j in order]))


def process(p, mon):
    rng = drive.rng_for('c04', 'process', p['seed'])
    ps = problems(rng, 12)
    want = [hashlib.sha256(repr(baseline(x)).encode()).hexdigest()[:16] for x in ps]
    for k in range(2):
        order = list(range(len(ps)))
        drive.rng_for('order', p['seed'], p['i'], k).shuffle(order)
        env = dict(os.environ, PYTHONHASHSEED=str(1 + 7919 * p['i'] + k), PYTHONDONTWRITEBYTECODE='1')
        r = subprocess.run([sys.executable, '-c', PROG, VERIF], input=json.dumps([ps[j] for j in order]), env=env, capture_output=True, text=True)
        if r.returncode:
            mon.check(False, f'solving in a fresh process failed: {r.stderr[-600:]}', 'process')
            return
        got = json.loads(r.stdout.strip().splitlines()[-1])
        for j, d in zip(order, got):
            mon.check(d == want[j], lambda: f'hash seed {env["PYTHONHASHSEED"]}: another answer sequence for {ps[j][0]} from {ps[j][1]}', 'hash-seed')
            mon.seen('process', env['PYTHONHASHSEED'], j)
        mon.count('process_digests', len(got))
