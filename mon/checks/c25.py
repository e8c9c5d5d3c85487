"""The compiled build behaves like the interpreted sources."""
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile
from .. import drive
from ..common import REPO, VERIF, CaseTimeout

PROPERTY = 'C25'
RULE = ('one case = a copy of the working tree built with the repository\'s own script (undefined-behaviour sanitizer on; address sanitizer too in the thorough tier), then one workload run on the compiled and on the interpreted modules, '
        'their logs compared entry by entry and the sanitizer logs read; distinct non-trivial = distinct workload entries with equal results')
NEED = {'compiled_modules': 8, 'entries_compared': 400, 'solves_compared': 100, 'sanitized_runs': 1}
ASSUMPTIONS = ['built with gcc at low optimisation; the results of another optimisation level are not observed']
CASE_S = {'quick': 700, 'thorough': 3000}
DEADLINE_S = {'quick': 800, 'thorough': 6000}
PARTS = 8


def cases(seed, tier):
    out = [('build', {'seed': seed, 'size': 2 if tier == 'quick' else 12, 'sanitize': 'undefined'})]
    if tier == 'thorough':
        out.append(('build', {'seed': seed + 1, 'size': 4, 'sanitize': 'address'}))
        out.append(('build', {'seed': seed + 2, 'size': 12, 'sanitize': ''}))
    return out


def run(kind, p, mon):
    d = tempfile.mkdtemp(prefix='verif-cy-')
    try:
        build_and_compare(d, p, mon)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def build_and_compare(d, p, mon):
    src, cy = os.path.join(d, 'py'), os.path.join(d, 'cy')
    ignore = shutil.ignore_patterns('.git', '__pycache__', '*.so', '*.c', '*.pyx', 'build', '*.egg-info')
    shutil.copytree(REPO, src, ignore=ignore)
    shutil.copytree(REPO, cy, ignore=ignore)
    san = p['sanitize']
    env = dict(os.environ, PATH=os.path.dirname(sys.executable) + ':' + os.environ.get('PATH', '/usr/bin:/bin'), HOME=d,
               CFLAGS='-O0 -w -g0' + (f' -fsanitize={san} -fno-sanitize-recover=none'.replace(' -fno-sanitize-recover=none', '') if san else ''),
               LDFLAGS=f'-fsanitize={san}' if san else '', TMPDIR=d)
    env.pop('PYTHONPYCACHEPREFIX', None)
    r = subprocess.run(['bash', os.path.join(cy, 'cythonize.sh')], cwd=cy, env=env, capture_output=True, text=True)
    sos = glob.glob(os.path.join(cy, 'srg', '*.so'))
    if r.returncode or len(sos) < 8:
        # tell a source that does not compile from a sandbox without a compiler
        if 'Error compiling Cython file' in r.stdout + r.stderr or 'CompileError' in r.stderr and 'Cython' in r.stderr:
            mon.check(False, f'the compiled build fails: {(r.stdout + r.stderr)[-1200:]}', 'build')
            return
        raise RuntimeError(f'build: status {r.returncode}, {len(sos)} modules: {r.stderr[-1500:]}')
    mon.count('compiled_modules', len(sos))
    logs = os.path.join(d, 'san')
    base = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', HOME=d, TMPDIR=d)
    senv = dict(base, UBSAN_OPTIONS=f'log_path={logs}:print_stacktrace=1', ASAN_OPTIONS=f'detect_leaks=0:log_path={logs}')
    if san:
        lib = subprocess.run(['gcc', '-print-file-name=lib%s.so' % {'undefined': 'ubsan', 'address': 'asan'}[san]], capture_output=True, text=True).stdout.strip()
        senv['LD_PRELOAD'] = lib
    procs = []
    import resource
    lift = lambda: resource.setrlimit(resource.RLIMIT_AS, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
    for root, e, c in ((cy, senv, '1'), (src, base, '0')):
        for i in range(PARTS):
            out = open(os.path.join(d, f'out-{c}-{i}'), 'w+')
            err = open(os.path.join(d, f'err-{c}-{i}'), 'w+')
            procs.append((c, i, out, err, subprocess.Popen([sys.executable, os.path.join(VERIF, 'mon', 'parity.py'), root, str(p['seed']), str(i), str(PARTS), str(p['size']), c],
                                                           stdout=out, stderr=err, env=e, cwd=d, preexec_fn=None if not san == 'address' else lift)))
    res = {}
    try:
        for c, i, out, err, pr in procs:
            rc = pr.wait()
            out.seek(0)
            err.seek(0)
            lines = [json.loads(x) for x in out.read().splitlines() if x.startswith('[')]
            tail = err.read()[-600:]
            if not lines or lines[-1][0] != 'end':
                if c == '0' and rc:
                    # the interpreted sources themselves cannot run the workload: not for this property to judge
                    raise RuntimeError(f'interpreted run ended with {rc}: {tail}')
                mon.check(False, f'the compiled modules end the workload with status {rc} after {lines[-1:]}: {tail}', 'compiled-run')
            res[c, i] = lines
            out.close()
            err.close()
    finally:
        for *_, pr in procs:
            if pr.poll() is None:
                pr.kill()
                pr.wait()
    for i in range(PARTS):
        a, b = res['1', i], res['0', i]
        mon.check(len(a) == len(b), f'compiled: {len(a)} entries, interpreted: {len(b)}', 'entries')
        for x, y in zip(a, b):
            mon.check(x == y, lambda: f'{y[0]}: compiled {str(x[1])[:300]}, interpreted {str(y[1])[:300]}', 'differs')
            mon.count('entries_compared')
            mon.count('solves_compared', str(y[0]).startswith('solve'))
            mon.count('entries_raising', isinstance(y[1], list) and y[1][:1] == ['raised'])
            mon.seen(y[0])
            if len(mon.samples) < 3:
                mon.sample({'entry': y[0], 'result': str(y[1])[:120]})
    if san:
        mon.count('sanitized_runs', PARTS)
        bad = ''
        for f in glob.glob(logs + '*'):
            with open(f) as g:
                bad += g.read()[:800]
        mon.check(not bad, f'the {san} sanitizer reports: {bad[:1000]}', 'sanitizer')
