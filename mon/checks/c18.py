"""Everything the database stores is valid."""
import os
import re
from .. import ref, drive, gens
from ..common import REPO

PROPERTY = 'C18'
RULE = ('one case = one stored problem: name, parameters, every stored matrix; plus the listing and requests for problems that are not stored; '
        'distinct non-trivial = distinct stored matrices and distinct unknown problems requested')
NEED = {'problems': 15, 'matrices': 180, 'unknown_refused': 500}
CASE_S = {'quick': 120, 'thorough': 600}


def stored():
    d = os.path.join(REPO, 'srg', 'database')
    return sorted(tuple(map(int, m.groups())) for m in (re.fullmatch(r'problem_(\d+)_(\d+)_(\d+)_(\d+)\.py', n) for n in os.listdir(d)) if m)


def cases(seed, tier):
    return [('problem', {'params': list(q)}) for q in reversed(stored())] + [('listing', {})] + [('unknown', {'seed': seed})]


def run(kind, p, mon):
    from srg import database as db
    if kind == 'listing':
        drive.spoil(db.list_problems(), db.extract_vklu('problem_10_3_0_1'))
        names = list(db.list_problems())
        got = [tuple(db.extract_vklu(n)) for n in names]
        mon.check(sorted(got) == stored(), lambda: f'the listing {names} does not name each of the stored problems {stored()} once', 'listing')
        for n, q in zip(names, got):
            mon.check(n == 'problem_%d_%d_%d_%d' % q, lambda: f'{n} is taken for {q}', 'listing')
            mon.check(len(db.get_solutions(*q)) >= 0, 'no solutions list', 'listing')
        return
    if kind == 'unknown':
        rng = drive.rng_for('c18', p)
        known = set(stored())
        tried = set()
        near = gens.identity_params(30)  # wrong parameters, and right ones that are not stored
        for i in range(len(near) + 400):
            q = list(near[i] if i < len(near) else rng.choice(sorted(known)))
            if i >= len(near):
                q[rng.randrange(4)] += rng.choice([-1, 1, 2, 10])
            if i >= len(near) and rng.random() < .3:
                rng.shuffle(q)
            if tuple(q) in known or tuple(q) in tried or min(q) < 0:
                continue
            tried.add(tuple(q))
            try:
                r = db.get_solutions(*q)
                mon.check(False, f'the problem {q}, which is not stored, has the solutions {r!r}'[:300], 'unknown')
            except Exception:
                mon.check(True, '')
                mon.count('unknown_refused')
                mon.seen('unknown', tuple(q))
        return
    q = tuple(p['params'])
    sols = db.get_solutions(*q)
    mon.check(ref.params_ok(*q), lambda: f'{q} violates the identity', 'params')
    mon.check(isinstance(sols, list), lambda: f'the solutions of {q} are no list', 'list')
    m = __import__('importlib').import_module('srg.database.problem_%d_%d_%d_%d' % q)
    named = [getattr(m, x, None) for x in 'vklu']
    if None not in named:
        mon.check(tuple(named) == q, lambda: f'problem {q} calls itself {named}', 'params')
    seen = {}
    for i, a in enumerate(sols):
        M = drive.tup(a)
        bad = ref.why_not_srg(M, *q)
        mon.check(bad is None, lambda: f'{q}: stored solution {i} is not such a graph: {bad}', 'not-srg')
        if bad is None:
            bad = ref.why_not_nf(M)
            mon.check(bad is None, lambda: f'{q}: stored solution {i} is not in normal form: {bad}', 'not-normal')
        mon.check(M not in seen, lambda: f'{q}: stored solutions {seen.get(M)} and {i} are the same', 'repeated')
        seen.setdefault(M, i)
        mon.count('matrices')
        mon.seen(M)
    again = db.get_solutions(*q)
    mon.check([drive.tup(a) for a in again] == [drive.tup(a) for a in sols], lambda: f'{q}: asked again, other solutions', 'again')
    mon.count('problems')
    mon.sample({'params': q, 'stored': len(sols)})
