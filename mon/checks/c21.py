"""The database command line lists and draws what is stored."""
import json
import os
import re
from .. import ref, drive, cli, gens
from ..common import REPO, VERIF
from .c18 import stored

PROPERTY = 'C21'
RULE = ('one case = one run of the database command line in a scratch directory; names and matrices printed are parsed, new files are compared with the expected ones, and labels, vertices and edges of every figure are recorded '
        'at the moment it is saved; distinct non-trivial = distinct argument lists, and distinct matrices drawn')
NEED = {'listings': 2, 'problems_listed': 15, 'drawings': 100, 'edges_drawn': 10000, 'refusals': 25}
CASE_S = {'quick': 150, 'thorough': 900}
BIG = {(28, 12, 6, 4)}


def cases(seed, tier):
    rng = drive.rng_for('c21', seed)
    all_ = stored()
    out = []
    out += [('draw', {'params': list(q)}) for q in sorted(all_, key=lambda q: (q not in BIG, q[0]), reverse=False)]
    out += [('names', {'args': a}) for a in ([], ['list'])]
    out += [('list', {'params': list(q)}) for q in all_]
    bad = [['list', '10', '3', '0', '2'], ['draw', '10', '3', '0', '2'], ['draw', '13', '6', '2', '4'], ['list', '16', '6', '2', '3'], ['paint', '10', '3', '0', '1'], ['Draw', '10', '3', '0', '1'],
           ['', '10', '3', '0', '1'], ['remove', '13', '6', '2', '3'], ['list', '9', '4', '1', '2'], ['draw', '9', '4', '1', '2'], ['draw', '36', '10', '4', '2'], ['list', '12', '5', '0', '5'],
           ['draw', '6', '3', '0', '3'], ['drawing', '5', '2', '0', '1'], ['listing', '5', '2', '0', '1']]
    # parameters that satisfy the identity but are not stored, and stored ones changed or in another order
    ids = [list(q) for q in gens.identity_params(30) if q not in all_]
    for _ in range(24 if tier == 'quick' else 200):
        q = rng.choice(ids) if rng.random() < .5 else list(rng.choice(all_))
        if tuple(q) in all_:
            q[rng.randrange(4)] += rng.choice([1, 2, 3])
            if rng.random() < .3:
                rng.shuffle(q)
        if tuple(q) not in all_:
            bad.append([rng.choice(['list', 'draw'])] + [str(x) for x in q])
    for w in ['paint', 'LIST', 'lis', 'lists', 'drawn', '-', 'show', 'delete', 'solve', '0']:
        bad.append([w] + [str(x) for x in rng.choice(all_)])
    out += [('bad', {'args': a}) for a in bad]
    return out


def files(d):
    return sorted(os.path.relpath(os.path.join(r, f), d) for r, _, fs in os.walk(d) for f in fs if '.mpl' not in r.split(os.sep) and '.cache' not in r and '.config' not in r)


def repo_state():
    return sorted((os.path.join(r, f), os.stat(os.path.join(r, f)).st_mtime_ns) for r, _, fs in os.walk(REPO) for f in fs if '.git' not in r.split(os.sep))


def run(kind, p, mon):
    with cli.Scratch() as d:
        if kind == 'names':
            rc, out, err = cli.run(['-m', 'srg.database'] + p['args'], d)
            mon.check(rc == 0, lambda: f'srg.database {p["args"]} ends with status {rc}: {err[-400:]}', 'status')
            names = re.findall(r'problem_(\d+)_(\d+)_(\d+)_(\d+)', out)
            got = sorted(tuple(map(int, x)) for x in names)
            mon.check(got == stored(), lambda: f'srg.database {p["args"]} names {got} instead of {stored()}', 'names')
            mon.check(not files(d), lambda: f'listing wrote {files(d)}', 'files')
            mon.count('listings')
            mon.seen('names', tuple(p['args']))
        elif kind == 'list':
            q = tuple(p['params'])
            rc, out, err = cli.run(['-m', 'srg.database', 'list'] + [str(x) for x in q], d)
            from srg import database as db
            want = [drive.tup(a) for a in db.get_solutions(*q)]
            got = cli.matrices(out)
            mon.check(rc == 0, lambda: f'srg.database list {q} ends with status {rc}: {err[-400:]}', 'status')
            mon.check(got == want, lambda: f'srg.database list {q} prints {len(got)} matrices, {len(set(got) & set(want))} of the {len(want)} stored: {out[:300]}', 'list')
            mon.check(not files(d), lambda: f'listing wrote {files(d)}', 'files')
            mon.count('problems_listed')
            mon.seen('list', q)
        elif kind == 'bad':
            rc, out, err = cli.run(['-m', 'srg.database'] + p['args'], d)
            mon.check(rc != 0, lambda: f'srg.database {p["args"]} ends with status 0: {out[-300:]}', 'accepted')
            mon.check(not files(d), lambda: f'srg.database {p["args"]} wrote {files(d)}', 'files')
            mon.check(not cli.matrices(out), lambda: f'srg.database {p["args"]} prints an answer', 'accepted')
            mon.count('refusals', rc != 0)
            mon.seen('bad', tuple(p['args']))
        else:
            draw(tuple(p['params']), d, mon)


def draw(q, d, mon):
    from srg import database as db
    want = [drive.tup(a) for a in db.get_solutions(*q)]
    os.makedirs(os.path.join(d, 'cwd'))
    cwd = os.path.join(d, 'cwd')
    log = os.path.join(d, 'figures.json')
    before = repo_state()
    rc, out, err = cli.run([os.path.join(VERIF, 'mon', 'drawwatch.py'), log, 'draw'] + [str(x) for x in q], cwd, timeout=600)
    mon.check(rc == 0, lambda: f'srg.database draw {q} ends with status {rc}: {err[-400:]}', 'status')
    if rc:
        return
    mon.check(repo_state() == before, 'drawing changed files of the repository', 'files')
    names = ['srg_%d_%d_%d_%d_%d.png' % (*q, i) for i in range(len(want))]
    mon.check(files(cwd) == sorted(names) and files(d) == sorted(['figures.json'] + [os.path.join('cwd', n) for n in names]),
              lambda: f'draw {q} wrote {files(d)} instead of {names}', 'files')
    for n in names:
        try:
            with open(os.path.join(cwd, n), 'rb') as f:
                data = f.read()
        except OSError:
            continue
        mon.check(data[:8] == b'\x89PNG\r\n\x1a\n' and data[-8:-4] == b'IEND' and len(data) > 500, lambda: f'{n} is no complete PNG', 'png')
    with open(log) as f:
        recs = [r for r in json.load(f)]
    by = {}
    for r in recs:
        by.setdefault(os.path.basename(r['file']), []).append(r)
    for i, n in enumerate(names):
        if n not in by:
            mon.count('figures_not_recorded')
            continue
        r = by[n][-1]
        bad = why_wrong(r, want[i], q[0])
        mon.check(bad is None, lambda: f'{n}: {bad}', 'drawing')
        mon.count('drawings')
        mon.count('edges_drawn', len(r['edges']))
        mon.seen('drawn', want[i])
    mon.sample({'params': q, 'figures': len(recs), 'files': files(cwd)[:3]})


def near(a, b):
    return (a[0] - b[0]) ** 2 + (a[1] - b[1]) ** 2 < 1e-8


def why_wrong(r, M, v):
    """the drawing must show v labelled vertices, and exactly the edges of M between them"""
    labels = [(t, x) for t, x in r['labels'] if t.strip()]
    if sorted(t for t, _ in labels) != sorted(str(i) for i in range(v)):
        return f'labels {sorted(t for t, _ in labels)} instead of 0..{v - 1}'
    pos = {int(t): x for t, x in labels}
    if any(near(pos[i], pos[j]) for i in range(v) for j in range(i)):
        return 'two labels at the same place'
    if len(r['nodes']) < v or any(not any(near(pos[i], x) for x in r['nodes']) for i in range(v)):
        return f'{len(r["nodes"])} vertices drawn, not one at every label'

    def at(x):
        for i, y in pos.items():
            if near(x, y):
                return i
    got = set()
    for a, b in r['edges']:
        i, j = at(a), at(b)
        if i is None or j is None:
            return f'an edge from {a} to {b} does not join two vertices'
        got.add((min(i, j), max(i, j)))
    want = {(i, j) for i in range(v) for j in range(i + 1, v) if M[i][j]}
    if got != want:
        d = sorted(got ^ want)[0]
        return f'edge {d} is {"drawn but not there" if d in got else "there but not drawn"}'
    return None
