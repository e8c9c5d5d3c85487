"""Runs jobs on the srg package under given interpreter settings and prints what each gave as JSON lines (fd 3).
Run as: python [flags] settings.py ROOT with {"settings": {...}, "jobs": [[kind, data], ...]} on standard input."""
import json
import os
import sys

spec = json.load(sys.stdin)
S = spec['settings']
out = os.fdopen(3, 'w')
if S.get('closed'):
    # what a service may leave a process with: no standard streams
    sys.stdin.close()
    sys.stdin = sys.stdout = None
root, VERIF = sys.argv[1], os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[0:1] = ([os.getcwd()] if S.get('cwd_first') else []) + [root, VERIF]

import decimal
import fractions
import gc
import io
import locale
import random
import threading
import warnings
import numpy as np
warnings.simplefilter('ignore')


def listing():
    return sorted(os.listdir('.'))


def state():
    po = dict(np.get_printoptions())
    po['formatter'] = sorted((po.get('formatter') or {}))
    return {'print options': repr(sorted(po.items(), key=str)), 'numpy errors': repr(sorted(np.geterr().items())), 'numpy random': repr(np.random.get_state()), 'random': repr(random.getstate()),
            'recursion limit': sys.getrecursionlimit(), 'integer digits': sys.get_int_max_str_digits(), 'directory': os.getcwd(), 'files': listing(), 'gc': [gc.isenabled(), list(gc.get_threshold())],
            'decimal': repr(decimal.getcontext().prec), 'environment': sorted(os.environ.items()), 'locale': repr(locale.setlocale(locale.LC_ALL)), 'path': list(sys.path),
            'threads': threading.active_count(), 'switch interval': sys.getswitchinterval(), 'trace': repr(sys.gettrace()), 'hooks': repr([sys.excepthook is sys.__excepthook__, sys.stdout is here])}


def plain(x):
    if isinstance(x, np.ndarray):
        return [plain(e) for e in x] if x.ndim else plain(x.item())
    if isinstance(x, (list, tuple)):
        return [plain(e) for e in x]
    if isinstance(x, (set, frozenset)):
        return sorted(plain(e) for e in x)
    if hasattr(x, 'item'):
        return plain(x.item())
    if isinstance(x, float):
        return repr(x)
    if isinstance(x, (int, str, bool)):
        return x if not isinstance(x, int) else hex(x)
    return None if x is None else type(x).__name__


here = sys.stdout
if not S.get('closed'):
    here = sys.stdout = io.StringIO()
if 'print' in S:
    opt = dict(S['print'])
    if opt.pop('marks', None):
        opt['formatter'] = {'all': lambda x: '#'}
    np.set_printoptions(**opt)
if 'seterr' in S:
    np.seterr(all=S['seterr'])
if 'random' in S:
    np.random.seed(S['random'])
    random.seed(S['random'])
if 'prec' in S:
    decimal.getcontext().prec = S['prec']
if 'digits' in S:
    sys.set_int_max_str_digits(S['digits'])
if 'recursion' in S:
    sys.setrecursionlimit(S['recursion'])
if S.get('gc') == 'off':
    gc.disable()
if S.get('gc') == 'often':
    gc.set_threshold(1, 1, 1)
if 'locale' in S:
    for name in S['locale']:
        try:
            locale.setlocale(locale.LC_ALL, name)
            break
        except locale.Error:
            pass
if S.get('trace'):
    sys.settrace(lambda *a: None)

before = state()
import srg
import srg.srg
import srg.solver
import srg.unique
import srg.gauss_elim
import srg.partition
import srg.bounds
import srg.fork
import srg.utils
import srg.sorter
import srg.database
NS = srg.srg.NoSolution


def arr(x):
    return srg.srg.array(x)


def take(g, n=3000):
    r = []
    for x in g:
        r.append(plain(x))
        if len(r) >= n:
            break
    return r


def mats(ms):
    return [arr(m) for m in ms]


def steps(d):
    q = srg.srg.Question(arr(d['A']), arr(d['b']), quota=d['b'][-1], bounds=srg.srg.ones(len(d['A'][0])))
    r = []
    for name in d['order']:
        try:
            getattr(srg.solver, name)(q)
        except NS:
            return r + [[name, 'no solution']]
        r.append([name, q.A, q.b, q.quota, q.bounds, q.answer.unknown_loc, q.answer.quota])
    if q.answer.unknown:
        r += [[c.A, c.b, c.quota, c.bounds, c.answer.unknown_loc, c == c.copy(), c == q] for c in srg.solver.fork_enum(q)]
    return r


def elim(d):
    try:
        return srg.gauss_elim.elim(arr(d['A']), arr(d['b']))
    except NS:
        return 'no solution'


def question(P):
    try:
        q = srg.srg.Question.from_matrix(arr(P))
    except NS:
        return 'no solution'
    return [q.A, q.b, q.quota, q.bounds, take(srg.solver.solve_question(q))]


def answer(d):
    a = srg.srg.Answer(arr(d['values']), arr(d['starts']), d['len'])
    return [a.binarize(), a.quota, a == a.copy(), a == srg.srg.Answer.default(d['len']), len(a), bool(a.unknown)]


JOBS = {
    'solve': lambda p: take(srg.solver.solve(srg.srg.SRG(srg.solver._seed(*p)))),
    'resume': lambda P: take(srg.solver.solve(srg.srg.SRG(arr(P))), 300),
    'question': question, 'steps': steps, 'elim': elim, 'answer': answer,
    'system': lambda d: take(srg.solver.solve_question(srg.srg.Question(arr(d['A']), arr(d['b']), quota=d['b'][-1], bounds=srg.srg.ones(len(d['A'][0])))), 300),
    'params': lambda p: [srg.utils.complement_vklu(*p), srg.utils.assert_srg(*p), srg.utils.eig(*p), srg.utils.determinant(*p)],
    'collapse': lambda A: [srg.unique.reduce(arr(A)), srg.unique.expand(*(lambda m, b, *_: (m, b))(*srg.unique.reduce(arr(A))))],
    'compose': lambda d: take(srg.partition.enum(d['s'], d['bounds'])),
    'maximize': lambda M: srg.sorter.maximize(arr(M)), 'sort': lambda ms: srg.sorter.sort(mats(ms)), 'complement': lambda M: srg.utils.complement(arr(M)),
    'vklu': lambda P: srg.srg.vklu(arr(P)),
    'stored': lambda p: srg.database.get_solutions(*p), 'listing': lambda _: [sorted(srg.database.list_problems()), [srg.database.extract_vklu(x) for x in sorted(srg.database.list_problems())]],
}


def run():
    for i, (kind, data) in enumerate(spec['jobs']):
        try:
            r = plain(JOBS[kind](data))
        except Exception as e:
            r = ['raised', type(e).__name__, str(e)[:300]]
        out.write(json.dumps([i, r]) + '\n')


if S.get('thread'):
    t = threading.Thread(target=run)
    t.start()
    t.join()
    time_left = threading.active_count()
else:
    run()
after = state()
out.write(json.dumps(['changed', [[k, before[k], after[k]] for k in before if before[k] != after[k]]], default=str) + '\n')
out.write(json.dumps(['printed', '' if S.get('closed') else here.getvalue()[:2000]]) + '\n')
out.write(json.dumps(['end', len(spec['jobs']), __debug__, sys.flags.optimize]) + '\n')
out.close()
