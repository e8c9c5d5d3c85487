"""The command line prints all answers in full, in order."""
import random
from .. import ref, drive, gens, cli

PROPERTY = 'C20'
RULE = ('one case = one run of the command line in a scratch directory, with good parameters (piped, or on a terminal) or with a bad argument list; the printed matrices are parsed and compared with the sorted reference answers; '
        'distinct non-trivial = distinct argument lists')
NEED = {'runs_with_answers': 40, 'runs_without_answer': 80, 'runs_over_31_vertices': 15, 'bad_arguments_refused': 15, 'runs_on_a_terminal': 4, 'runs_in_other_environments': 8, 'matrices_printed': 30}
CASE_S = {'quick': 120, 'thorough': 600}
GOOD = [(10, 3, 0, 1), (10, 6, 3, 4), (13, 6, 2, 3), (15, 8, 4, 4), (15, 6, 1, 3), (16, 6, 2, 2), (16, 9, 4, 6), (17, 8, 3, 4), (16, 5, 0, 2), (5, 2, 0, 1), (9, 4, 1, 2), (4, 2, 0, 2), (4, 1, 0, 0),
        (25, 8, 3, 2), (3, 1, 0, 0), (21, 10, 3, 6), (36, 10, 4, 2)]
LARGE = [(32, 30, 28, 30), (32, 3, 2, 0), (33, 30, 27, 30), (40, 36, 32, 36), (40, 4, 3, 0), (60, 50, 40, 50), (66, 1, 0, 0), (70, 68, 66, 68), (50, 24, 23, 0), (34, 1, 0, 0)]


def cases(seed, tier):
    rng = drive.rng_for('c20', seed)
    out = [('good', {'params': list(q), 'tty': False}) for q in GOOD[::-1]]
    larger = LARGE if tier == 'thorough' else rng.sample(LARGE, 6)
    larger += [(2 * n, 2 * n - 2, 2 * n - 4, 2 * n - 2) if rng.random() < .5 else (2 * n, 1, 0, 0) for n in range(9, 40)]
    out += [('good', {'params': list(q), 'tty': False}) for q in larger]
    out += [('good', {'params': list(q), 'tty': True}) for q in rng.sample(GOOD[:-1], 4) + [rng.choice(LARGE)] + [(10, 6, 3, 4)]]
    envs = [{'PYTHONIOENCODING': 'ascii'}, {'LC_ALL': 'C', 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0'}, {'PYTHONIOENCODING': 'latin-1'}, {'PYTHONUNBUFFERED': '1'}, {'COLUMNS': '20', 'LINES': '4'}, {'NO_COLOR': '1'}, {'FORCE_COLOR': '1'}, {'PYTHONOPTIMIZE': '1'}]
    out += [('good', {'params': list(rng.choice(GOOD[:-1] if i % 3 else larger)), 'tty': False, 'env': e}) for i, e in enumerate(envs)]
    ids = [q for q in gens.identity_params(14 if tier == 'quick' else 17) if drive.cost(q) < 5]
    out += [('good', {'params': list(q), 'tty': False}) for q in rng.sample(ids, min(len(ids), 250 if tier == 'quick' else 1000))]
    bad = [['0', '0', '0', '1'], ['-5', '2', '0', '1'], ['10', '3', '0', '-1'], ['1e1', '3', '0', '1'], ['10,', '3', '0', '1'], ['10 3 0 1'], [' '], ['10', '3', '0', 'None'], [], ['10'], ['10', '3', '0'], ['10', '3', '0', '1', '1'], ['10', '3', '0', '2'], ['10', '3', '1', '1'], ['11', '3', '0', '1'], ['10', '4', '0', '1'], ['10', '3', '0', 'x'], ['10', '3', '0', '1.0'],
           ['ten', '3', '0', '1'], ['10', '3', '0', ''], ['16', '6', '2', '3'], ['13', '6', '2', '2'], ['28', '12', '6', '5'], ['list', '10', '3', '0', '1']]
    for _ in range(30 if tier == 'quick' else 60):
        q = list(rng.choice(ids))
        q[rng.randrange(4)] += rng.choice([1, 2, 3])
        if not ref.params_ok(*q):
            bad.append([str(x) for x in q])
    out += [('bad', {'args': b}) for b in bad]
    return out


def run(kind, p, mon):
    with cli.Scratch() as d:
        if kind == 'bad':
            rc, out, err = cli.run(['-m', 'srg'] + p['args'], d)
            mon.check(rc != 0, lambda: f'srg {p["args"]} ends with status 0: {out[-300:]}', 'accepted')
            mon.check(not cli.matrices(out), lambda: f'srg {p["args"]} prints an answer: {out[:300]}', 'accepted')
            mon.count('bad_arguments_refused', rc != 0)
            mon.seen('bad', tuple(p['args']))
            return
        q = tuple(p['params'])
        args = ['-m', 'srg'] + [str(x) for x in q]
        rc, out, err = cli.run_tty(args, d) if p['tty'] else cli.run(args, d, **p.get('env', {}))
        if q[0] > 17 and (q[3] == 0 or q[3] == q[1]):
            want = [ref.normalise((gens.cliques(q[0] // (q[1] + 1), q[1] + 1) if q[3] == 0 else gens.multipartite(q[0] // (q[0] - q[1]), q[0] - q[1]))[1])]
        else:
            want = sorted(ref.enumerate_nf(*q), key=ref.code)
        mon.check(rc == 0, lambda: f'srg {q} ends with status {rc}: {err[-500:]}', 'status')
        plain = cli.ANSI.sub('', out)
        mon.check(' '.join(map(str, q)) in plain, lambda: f'srg {q} does not print the parameters: {plain[:200]}', 'parameters')
        mon.check(plain.find(' '.join(map(str, q))) < plain.find('[[') or '[[' not in plain, lambda: f'srg {q} with {p.get("env")} prints the parameters after an answer: {plain[:300]}', 'parameters-late')
        got = cli.matrices(out)
        mon.check(None not in got, lambda: f'srg {q}: a matrix is not printed in full: {plain[:600]}', 'not-in-full')
        if None not in got:
            mon.check(set(got) == set(want), lambda: f'srg {q} prints {len(got)} matrices, {len(set(got) & set(want))} of the {len(want)} answers', 'answers')
            mon.check(got == want or set(got) != set(want), lambda: f'srg {q} prints the answers in another order or repeatedly: order {[want.index(g) for g in got]}', 'order')
        mon.count('runs_with_answers', bool(want))
        mon.count('runs_without_answer', not want)
        mon.count('runs_over_31_vertices', q[0] > 31)
        mon.count('runs_on_a_terminal', p['tty'])
        mon.count('runs_in_other_environments', 'env' in p)
        mon.count('matrices_printed', len(got))
        mon.seen(q, p['tty'], repr(p.get('env')))
        mon.sample({'params': q, 'printed': len(got), 'terminal': p['tty']})
