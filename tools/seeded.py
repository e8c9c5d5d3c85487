#!/usr/bin/env python3
"""Development aid, used by no check: tools/seeded.py [-t] [-c CHECKS|own|all] ID...
For each seeded/<ID>: copy /repo to /tmp, apply patch.diff, run the existing tests (-t), run demo.sh without and with the patch,
then the named checks (default: the one of meta.json) on the patched copy."""
import argparse
import json
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg')
PY = '/opt/venv/bin/python'


def sh(cmd, cwd, env=ENV, timeout=900):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, shell=isinstance(cmd, str), capture_output=True, text=True, timeout=timeout)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, 'timeout'


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('-t', action='store_true')
    ap.add_argument('-d', action='store_true', help='skip demo')
    ap.add_argument('-c', default='own')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--seed', default='1')
    ap.add_argument('ids', nargs='*')
    a = ap.parse_args()
    for i in a.ids or sorted(os.listdir(os.path.join(VERIF, 'seeded'))):
        d = os.path.join(VERIF, 'seeded', i)
        meta = json.load(open(os.path.join(d, 'meta.json')))
        work = f'/tmp/seeded_{os.getpid()}_{i}'
        shutil.copytree('/repo', work, ignore=shutil.ignore_patterns('.git', '__pycache__'))
        try:
            out = [f'{i} [{meta["property"]}]']
            demo = os.path.join(work + '_demo')
            shutil.copytree(d, demo)
            if not a.d:
                rc0, o0 = sh(['bash', os.path.join(demo, 'demo.sh')], work, timeout=300)
            rc, o = sh(['git', 'apply', os.path.join(d, 'patch.diff')], work)
            if rc:
                print(i, 'DOES NOT APPLY', o)
                continue
            if not a.d:
                rc1, o1 = sh(['bash', os.path.join(demo, 'demo.sh')], work, timeout=300)
                out.append(f'demo {"ok" if rc0 == 0 and rc1 != 0 else f"BAD {rc0} {rc1} {o0[-300:]} {o1[-300:]}"}')
                if a.v:
                    out.append(o1[-400:])
            if a.t:
                rc, o = sh([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--timeout=300', 'tests'], work)
                out.append('tests ' + ('ok' if rc == 0 and '92 passed' in o else 'FAIL ' + o[-500:]))
            checks = [meta['property']] if a.c == 'own' else [f'C{n:02d}' for n in range(1, 28)] if a.c == 'all' else a.c.split(',')
            for c in checks:
                t = time.time()
                rc, o = sh(['./check', c], VERIF, dict(ENV, VERIF_REPO=work, VERIF_SEED=a.seed, VERIF_TIER='quick'))
                hit = rc == 1 and f'VIOLATION property={c} ' in o
                if a.c != 'all' or hit or rc not in (0, 1):
                    out.append(f'{c}:{"caught" if hit else f"rc={rc}"} {time.time() - t:.0f}s')
                if a.v or rc not in (0, 1):
                    out.append(o[-1500:])
            print(' | '.join(out), flush=True)
        finally:
            shutil.rmtree(work, ignore_errors=True)
            shutil.rmtree(work + '_demo', ignore_errors=True)


main()
