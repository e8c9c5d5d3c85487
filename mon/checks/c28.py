"""Interpreter and numpy settings: the same results whatever they are, and none is changed."""
import json
import os
import subprocess
import sys
import tempfile
import shutil
from .. import ref, drive, gens, questions, cli
from ..common import VERIF, REPO, CaseTimeout

PROPERTY = 'C28'
RULE = ('one case = one batch of valid operations run in processes of their own under the usual settings and under several others (assertions off, print options, error handling, locale, ...), '
        'their results compared entry by entry and the settings, the files and the standard output looked at before and after; distinct non-trivial = distinct (setting, operation) compared with equal results')
NEED = {'entries_compared': 3000, 'processes': 40, 'without_assertions': 600, 'print_options': 600, 'settings_watched': 40, 'command_lines': 8}
ASSUMPTIONS = ['locales other than C and C.UTF-8 are used only where they are installed']
CASE_S = {'quick': 200, 'thorough': 1500}
DEADLINE_S = {'quick': 700, 'thorough': 3 * 3600}
RUNNER = os.path.join(VERIF, 'mon', 'settings.py')
MODES = {
    'optimised': (['-O'], {}, {}), 'doubly optimised': (['-OO'], {}, {}),
    'short prints': ([], {'print': {'threshold': 3, 'edgeitems': 1}}, {}),
    'odd prints': ([], {'print': {'marks': True, 'linewidth': 7}}, {}),
    'legacy prints': ([], {'print': {'legacy': '1.13', 'precision': 1, 'suppress': True, 'threshold': 5, 'edgeitems': 0}}, {}),
    'numpy errors raised': ([], {'seterr': 'raise'}, {}),
    'random state': ([], {'random': 4711, 'gc': 'often'}, {}),
    'no collection': ([], {'gc': 'off', 'recursion': 20000}, {}),
    'few digits': ([], {'prec': 2, 'digits': 640}, {}),
    'no streams': ([], {'closed': True}, {}),
    'thread': ([], {'thread': True}, {'PYTHONMALLOC': 'debug'}),
    'locale': ([], {'locale': ['de_DE.UTF-8', 'fr_FR.UTF-8', 'C']}, {'LC_ALL': 'C', 'LANG': 'C', 'TZ': 'Asia/Tokyo', 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0'}),
    'developer mode': (['-X', 'dev'], {}, {}),
    'namesakes': ([], {'cwd_first': True}, {}),
    'traced': ([], {'trace': True}, {}),
}
NAMESAKES = ['solver', 'gauss_elim', 'bounds', 'fork', 'partition', 'sorter', 'unique', 'problem_13_6_2_3']
SOLVES = [(4, 2, 0, 2), (5, 2, 0, 1), (8, 4, 0, 4), (8, 1, 0, 0), (9, 4, 1, 2), (10, 3, 0, 1), (10, 6, 3, 4), (12, 3, 2, 0), (12, 8, 4, 8), (13, 6, 2, 3), (13, 4, 1, 1), (15, 6, 1, 3), (15, 8, 4, 4),
          (16, 5, 0, 2), (16, 6, 2, 2), (16, 9, 4, 6), (16, 10, 6, 6), (17, 8, 3, 4), (11, 5, 2, 2), (14, 6, 1, 3), (25, 8, 3, 2), (70, 1, 0, 0), (66, 64, 62, 64)]


def cases(seed, tier):
    n = {'quick': 8, 'thorough': 120}[tier]
    return [('batch', {'seed': seed, 'i': i, 'n': 8 if tier == 'quick' else 15}) for i in range(n)] + [('command', {'seed': seed, 'i': i}) for i in range(2 if tier == 'quick' else 8)]


def graph(rng):
    n = rng.choice([2, 3, 5, 8, 12, 20, 40, 70])
    p = rng.choice([.2, .5, .8])
    M = [[0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i):
            M[i][j] = M[j][i] = int(rng.random() < p)
    return M


def tractable(P, par):
    """no long search: the reference finds the next rows with little effort"""
    cols, b = ref.row_equations(P, *par[1:])
    if min(b) < 0:
        return True
    return light([[c[i] for c in cols] for i in range(len(b))], b)


def light(A, b):
    try:
        questions.reference(A, b, 2000)
        return True
    except ref.TooBig:
        return False


def jobs(rng):
    from .c16 import families
    from .c27 import system as plain_system
    out = [['listing', None]]
    cheap = [q for q in SOLVES if drive.cost(q) < 1.5 or q in ((70, 1, 0, 0), (66, 64, 62, 64), (25, 8, 3, 2))]
    out += [['solve', list(q)] for q in rng.sample(cheap, 5)]
    exist = families(400)
    out += [['params', list(q)] for q in rng.sample(exist, 12)]
    out += [['stored', list(q)] for q in rng.sample([(13, 6, 2, 3), (16, 9, 4, 6), (10, 3, 0, 1), (17, 8, 3, 4), (26, 10, 3, 4), (29, 14, 6, 7)], 2)]
    for _ in range(10):
        par, P = questions.prefix(rng, questions.TINY if rng.random() < .6 else questions.MID, wander=True)
        if len(P) < par[0]:
            out.append(['vklu', [list(r) for r in P]])
            if tractable(P, par):
                out.append(['question', [list(r) for r in P]])
            if len(P) >= par[0] * .75 and tractable(P, par):
                out.append(['resume', [list(r) for r in P]])
    for par, P in [questions.prefix(rng, questions.BIG + questions.VAST, wander=False) for _ in range(2)]:
        if len(P) >= .6 * par[0] and tractable(P, par):
            out.append(['question', [list(r) for r in P]])
        out.append(['vklu', [list(r) for r in P]])
    for _ in range(10):
        A, b = questions.system(rng)
        out.append(['steps', {'A': A, 'b': b, 'order': ['reduce_col'] + [rng.choice(['reduce_col', 'eliminate', 'zero_in_b', 'only_1_element_in_row']) for _ in range(5)]}])
        if light(A, b):
            out.append(['system', {'A': A, 'b': b}])
    for rows, columns in ((3, 1100), (70, 30), (rng.randint(20, 60), rng.randint(10, 40))):
        # above a thousand entries numpy prints an outline only
        A, b = questions.sized(rng, rows, columns)
        if light(A, b):
            out.append(['system', {'A': A, 'b': b}])
    for _ in range(8):
        A, b, _ = plain_system(rng, rng.random() < .3)
        out.append(['elim', {'A': A, 'b': b}])
    for _ in range(6):
        R = rng.choice([1, 3, 9, 65, 130, 1100])
        c = [[rng.randint(0, 1) for _ in range(R)] for _ in range(3)]
        c.append(list(c[0]))
        c[3][R // 2] ^= 1  # two columns that differ in one entry far from both ends
        out.append(['collapse', [list(x) for x in zip(*[rng.choice(c) for _ in range(rng.randint(1, 9))])]])
        bd = [rng.randint(0, 4) for _ in range(rng.randint(1, 6))]
        out.append(['compose', {'s': rng.randint(0, sum(bd) + 1), 'bounds': bd}])
        M = graph(rng)
        out.append(['complement', M])
        if len(M) <= 20:
            out.append(['maximize', M])
        ms = [graph(rng) for _ in range(1)]
        n = len(ms[0])
        for _ in range(3):
            X = [list(r) for r in rng.choice(ms)]
            if n > 2:
                i, j = rng.sample(range(n), 2)
                X[i][j] = X[j][i] = 1 - X[i][j]
            ms.append(X)
        out.append(['sort', ms])
        sizes = [rng.randint(1, 5) for _ in range(rng.randint(1, 8))]
        out.append(['answer', {'values': [rng.randint(0, s) for s in sizes], 'starts': [sum(sizes[:i]) for i in range(len(sizes))], 'len': sum(sizes)}])
    rng.shuffle(out)
    return out


def perform(js, mode):
    flags, settings, extra = MODES.get(mode, ([], {}, {}))
    d = tempfile.mkdtemp(prefix='verif-set-')
    try:
        if settings.get('cwd_first'):
            for n in NAMESAKES:
                with open(os.path.join(d, n + '.py'), 'w') as f:
                    f.write('raise RuntimeError("this file has nothing to do with the package")\n')
        env = {k: v for k, v in os.environ.items() if k in ('PATH', 'LANG', 'TERM', 'OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'PYTHONHASHSEED')}
        env.update(PYTHONDONTWRITEBYTECODE='1', HOME=d, TMPDIR=d, **extra)
        res = os.path.join(d, '..', os.path.basename(d) + '.out')
        try:
            with open(res, 'w') as o:
                fd = o.fileno()
                p = subprocess.Popen(['bash', '-c', 'exec "$0" "$@" 3>"$OUT_FILE"', sys.executable] + flags + [RUNNER, REPO], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                     text=True, cwd=d, env=dict(env, OUT_FILE=res))
                try:
                    so, se = p.communicate(json.dumps({'settings': settings, 'jobs': js}))
                finally:
                    if p.poll() is None:
                        p.kill()
                        p.wait()
            with open(res) as f:
                lines = [json.loads(x) for x in f if x.startswith('[') and x.endswith(']\n')]
        finally:
            os.unlink(res)
        return p.returncode, lines, so, se[-800:]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(kind, p, mon):
    rng = drive.rng_for('c28', kind, p['seed'], p['i'])
    if kind == 'command':
        return command(rng, mon)
    js = jobs(rng)
    rc, base, _, err = perform(js, None)
    if rc or not base or base[-1][0] != 'end':
        raise RuntimeError(f'the workload does not run under the usual settings: status {rc}: {err}')
    want = {e[0]: e[1] for e in base if isinstance(e[0], int)}
    usual = {i for i, r in want.items() if not (isinstance(r, list) and r[:1] == ['raised'])}
    mon.count('processes')
    mon.count('raising_left_out', len(want) - len(usual))
    watch(mon, 'the usual settings', base)
    names = list(MODES)
    # every case has the modes that matter most, and a share of the others
    chosen = ['optimised', 'short prints'] + [names[(p['i'] * 5 + j) % len(names)] for j in range(p['n'] - 2)]
    for mode in dict.fromkeys(chosen):
        rc, got, so, err = perform(js, mode)
        done = bool(got) and got[-1][0] == 'end'
        mon.check(rc == 0 and done, lambda: f'{mode}: the workload ends with status {rc} after {len(got)} of {len(js)} operations: {err}', 'ended')
        mon.count('processes')
        have = {e[0]: e[1] for e in got if isinstance(e[0], int)}
        if mode.endswith('optimised') and done:
            mon.check(got[-1][2] is False, 'harness: assertions are still on')
        for i in sorted(have):
            if i not in usual:
                continue
            mon.check(have[i] == want[i], lambda: f'{mode}: {js[i][0]} of {str(js[i][1])[:300]} gives {str(have[i])[:300]} instead of {str(want[i])[:300]}', 'differs')
            mon.count('entries_compared')
            mon.count('without_assertions', mode.endswith('optimised'))
            mon.count('print_options', mode.endswith('prints'))
            mon.seen(mode, repr(js[i]))
        watch(mon, mode, got)
        if len(mon.samples) < 3:
            mon.sample({'mode': mode, 'operations': len(have), 'first': str(js[0])[:120]})


def watch(mon, mode, lines):
    """no operation changes a setting, leaves a file or prints anything"""
    for e in lines:
        if e[0] == 'changed':
            mon.check(not e[1], lambda: f'{mode}: the operations changed {str(e[1])[:600]}', 'changed')
            mon.count('settings_watched')
        elif e[0] == 'printed':
            mon.check(not e[1], lambda: f'{mode}: the operations printed {e[1][:300]!r}', 'printed')


def command(rng, mon):
    """the command lines with assertions off and in narrow terminals"""
    todo = [['-m', 'srg', *map(str, rng.choice([q for q in SOLVES if drive.cost(q) < .3]))], ['-m', 'srg.database'], ['-m', 'srg.database', 'list', '10', '6', '3', '4'], ['-m', 'srg', '70', '1', '0', '0']]
    for args in todo:
        with cli.Scratch() as d:
            want = cli.run(args, d)
        if want[0]:
            raise RuntimeError(f'{args} ends with {want[0]}: {want[2][-300:]}')
        for flags, extra in ((['-O'], {}), (['-OO'], {}), ([], {'COLUMNS': '20', 'LINES': '5'}), ([], {'LC_ALL': 'C', 'PYTHONUTF8': '0', 'NO_COLOR': '1', 'TZ': 'Asia/Tokyo'}), (['-X', 'dev'], {'PYTHONHASHSEED': '77'}), (['-u', '-B'], {})):
            with cli.Scratch() as d:
                got = cli.run(flags + args, d, **extra)
            mon.check(got[:2] == want[:2], lambda: f'python {" ".join(flags + args)} with {extra} ends with {got[0]} and prints {got[1][:200]!r} instead of {want[1][:200]!r}; {got[2][-200:]}', 'command')
            mon.count('command_lines')
            mon.seen('command', repr(args), repr(flags), repr(extra))
