"""Runs a fixed workload on the srg package found under the given root and prints what it did as JSON lines.
Run as: python parity.py ROOT SEED PART PARTS SIZE COMPILED"""
import json
import os
import sys
import warnings

root, seed, part, parts, size, compiled = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5]), sys.argv[6] == '1'
sys.path.insert(0, root)
sys.path.insert(1, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
warnings.simplefilter('ignore')
import srg.srg
import srg.solver
import srg.unique
import srg.bounds
import srg.fork
import srg.gauss_elim
import srg.partition
import srg.utils
import srg.sorter

MODULES = ['srg', 'solver', 'unique', 'bounds', 'fork', 'gauss_elim', 'partition', 'utils']
for m in MODULES:
    f = sys.modules['srg.' + m].__file__
    assert f.startswith(root + os.sep), f
    if compiled != f.endswith('.so'):
        print(json.dumps(['module', m, f]))
        sys.exit(3)

import numpy as np
from mon import ref, gens, drive, questions
from mon.common import rng_for


def plain(x):
    if isinstance(x, np.ndarray):
        return [plain(e) for e in x]
    if isinstance(x, (list, tuple)):
        return [plain(e) for e in x]
    if isinstance(x, set):
        return sorted(plain(e) for e in x)
    if hasattr(x, 'item'):
        return plain(x.item())
    if x is None or isinstance(x, (int, float, str, bool)):
        return x
    return type(x).__name__


def attempt(what, f):
    try:
        r = plain(f())
    except Exception as e:
        r = ['raised', type(e).__name__]
    print(json.dumps([what, r]), flush=True)


def draws(g, n=400):
    out = []
    for x in g:
        out.append(x)
        if len(out) >= n:
            break
    return out


jobs = []
ps = [q for q in gens.identity_params(13 if size < 3 else 16) if drive.cost(q) < .6] + [(15, 8, 4, 4), (16, 9, 4, 6), (17, 8, 3, 4), (25, 8, 3, 2), (36, 10, 4, 2), (66, 64, 62, 64), (70, 1, 0, 0)]
for q in ps:
    jobs.append((f'solve {q}', lambda q=q: draws(srg.solver.solve(srg.srg.SRG(srg.solver._seed(*q))))))
    jobs.append((f'params {q}', lambda q=q: [srg.utils.complement_vklu(*q), srg.utils.conference(*q), srg.utils.eig(*q), srg.utils.determinant(*q), srg.utils.assert_srg(*q)]))
    jobs.append((f'reject {q}', lambda q=q: srg.utils.assert_srg(q[0], q[1], q[2], q[3] + 1)))
# parameters of large graphs too, whose determinants need many more bits than a machine word has
from mon.checks.c16 import families
big = families(700)
for q in rng_for('parity families', seed).sample(big, 80 * size) + [(275, 112, 30, 56), (253, 112, 36, 60), (162, 56, 10, 24)]:
    jobs.append((f'params {q}', lambda q=q: [srg.utils.complement_vklu(*q), srg.utils.conference(*q), srg.utils.eig(*q), srg.utils.determinant(*q), srg.utils.assert_srg(*q)]))
    jobs.append((f'params of 64 bits {q}', lambda q=[np.int64(x) for x in q]: [srg.utils.complement_vklu(*q), srg.utils.conference(*q), srg.utils.eig(*q), srg.utils.assert_srg(*q)]))
for j in range(120 * size):
    rng = rng_for('parity', seed, j)
    kind = rng.choice(['system', 'tiny', 'mid', 'wide', 'elim', 'partition', 'reduce', 'bounds', 'complement', 'error', 'states', 'rows', 'sort', 'text'])
    if kind in ('tiny', 'mid'):
        par, P = questions.prefix(rng, questions.NAMES[kind], wander=True)
        if len(P) >= par[0]:
            continue
        cols, b = ref.row_equations(P, *par[1:])
        try:
            if min(b) >= 0:
                questions.reference([[c[i] for c in cols] for i in range(len(b))], b, 2000)
        except ref.TooBig:
            continue
        jobs.append((f'question {kind} {j}', lambda P=P: draws(srg.solver.solve_question(srg.srg.Question.from_matrix(drive.arr(P))))))
    elif kind in ('system', 'wide'):
        A, b = questions.system(rng)
        n = len(A[0])
        jobs.append((f'question {kind} {j}', lambda A=A, b=b, n=n: draws(srg.solver.solve_question(srg.srg.Question(drive.arr(A), drive.arr(b), quota=b[-1], bounds=srg.srg.ones(n))))))
    elif kind == 'elim':
        from mon.checks.c27 import system
        A, b, x = system(rng, rng.random() < .3)
        jobs.append((f'elim {j}', lambda A=A, b=b: srg.gauss_elim.elim(drive.arr(A), drive.arr(b))))
    elif kind == 'partition':
        bd = [rng.randint(0, 4) for _ in range(rng.randint(1, 5))]
        s, form = rng.randint(0, sum(bd) + 1), rng.choice(['list', 'tuple', 'array', 'object array'])
        given = {'list': list, 'tuple': tuple, 'array': drive.arr, 'object array': lambda x: np.array(x, dtype=object)}[form](bd)
        jobs.append((f'compositions {s} {form} {bd}', lambda given=given, s=s: draws(srg.partition.enum(s, given))))
    elif kind == 'reduce':
        R = rng.choice([2, 9, 65, 130])
        c = [tuple(rng.randint(0, 1) for _ in range(R)) for _ in range(3)]
        A = tuple(zip(*[rng.choice(c) for _ in range(9)]))
        jobs.append((f'collapse {j}', lambda A=A: [srg.unique.reduce(drive.arr(A)), srg.unique.expand(drive.arr(A), drive.arr([2] * 9))]))
    elif kind == 'bounds':
        A = [[rng.randint(0, 1) for _ in range(4)] for _ in range(4)]
        b, bd = [rng.randint(0, 3) for _ in range(4)], [rng.randint(0, 5) for _ in range(4)]

        def f(A=A, b=b, bd=bd):
            x = drive.arr(bd)
            srg.bounds.lower_upper_bound(drive.arr(A), drive.arr(b), x)
            return [x, srg.bounds.zero_bound_loc(x), srg.bounds.one_element_row_locs(drive.arr(A)), draws(srg.fork.enum(3, drive.arr(bd), 1))]
        jobs.append((f'bounds {j}', f))
    elif kind == 'states':
        A, b = questions.system(rng)
        n = len(A[0])

        def f(A=A, b=b, n=n, order=[rng.choice(['reduce_col', 'eliminate', 'zero_in_b', 'only_1_element_in_row']) for _ in range(6)], small=rng.choice([np.int8, np.int32, np.int64])):
            q = srg.srg.Question(np.array(A, dtype=small), np.array(b, dtype=small), quota=b[-1], bounds=np.ones(n, dtype=small))
            out = []
            for name in ['reduce_col'] + order:
                try:
                    getattr(srg.solver, name)(q)
                    out.append([name, q.A, q.b, int(q.quota), q.bounds, q.answer.unknown_loc, q.answer.quota, bool(q.answer.unknown), len(q.answer)])
                except srg.srg.NoSolution:
                    return out + [name, 'no solution']
            if q.answer.unknown:
                for c in draws(srg.solver.fork_enum(q)):
                    out.append(['branch', c.A, c.b, int(c.quota), c.bounds, c.answer.unknown_loc])
            return out
        jobs.append((f'states {j}', f))
    elif kind == 'rows':
        par, P = questions.prefix(rng, questions.TINY, wander=True)

        def f(P=P):
            s = srg.srg.SRG(drive.arr(P))
            done, rest = srg.solver.partition_by_done(iter([s]))
            more = srg.solver.advance(s) if rest else []
            more = list(more)
            d2, r2 = srg.solver.partition_by_done(more)
            return [len(done), len(rest), len(d2), len(r2), [x.current_matrix for x in more], list(srg.srg.vklu(drive.arr(P)))]
        jobs.append((f'rows {j}', f))
    elif kind == 'sort':
        R, C = rng.choice([1, 2, 16, 17, 40]), rng.choice([1, 3, 20])
        A, b = [[rng.randint(0, 1) for _ in range(C)] for _ in range(R)], rng.sample(range(1000), R)

        def f(A=A, b=b):
            A, b = drive.arr(A), drive.arr(b)
            srg.gauss_elim.sort(A, b)
            return [A, b]
        jobs.append((f'sort {j}', f))
    elif kind == 'text':
        A, b = questions.system(rng)

        def f(A=A, b=b):
            q = srg.srg.Question(drive.arr(A), drive.arr(b), quota=b[-1], bounds=srg.srg.ones(len(A[0])))
            return [repr(q).split(), repr(q.answer).split()]
        jobs.append((f'text {j}', f))
    elif kind == 'complement':
        n = rng.randint(1, 12)
        M = [[0] * n for _ in range(n)]
        for i in range(n):
            for k in range(i):
                M[i][k] = M[k][i] = rng.randint(0, 1)
        jobs.append((f'complement {j}', lambda M=M: [srg.utils.complement(drive.arr(M)), srg.sorter.maximize(drive.arr(M))] if len(M) > 1 else srg.utils.complement(drive.arr(M))))
    else:
        e = rng.randint(0, 3)
        jobs.append((f'error {e} {j}', [
            lambda: srg.srg.Question(drive.arr([[1]]), drive.arr([-1]), 0, drive.arr([1])),
            lambda: srg.srg.Question(drive.arr([[1, 1]]), drive.arr([1]), -1, drive.arr([1, 1])),
            lambda: srg.srg.Question(drive.arr([[1, 1]]), drive.arr([1, 2]), 1, drive.arr([1, 1])),
            lambda: draws(srg.partition.enum(-1, [1, 2]))][e]))
for i, (what, f) in enumerate(jobs):
    if i % parts == part:
        attempt(what, f)
print(json.dumps(['end', len(jobs)]))
