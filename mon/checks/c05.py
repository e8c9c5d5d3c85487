"""Every candidate next row satisfies its equations."""
from .. import ref, drive, questions

PROPERTY = 'C05'
RULE = ('one case = a batch of questions (prefixes of known graphs, prefixes the search wanders to, random systems with redundant and contradictory equations); '
        'every vector yielded is put into A x = b; distinct non-trivial = distinct (question, vector) pairs plus distinct questions without answer')
NEED = {'questions': 6000, 'vectors': 15000, 'questions_without_answer': 1500, 'questions_over_64_columns': 200}
CASE_S = {'quick': 120, 'thorough': 900}


def cases(seed, tier):
    return questions.plan(seed, tier, 'c05')


def run(kind, p, mon):
    for what, par, data in questions.items(kind, p):
        q, A, b = questions.pose(what, par, data)
        try:
            if min(b) >= 0:
                questions.reference(A, b, 150000 if kind != 'params' else 10000)
        except ref.TooBig:
            mon.count('questions_too_big_for_the_reference')
            continue
        mon.count('questions')
        mon.count('questions_over_64_columns', len(A[0]) > 64)
        n = 0
        if q is not None:
            from srg import solver
            for x in solver.solve_question(q):
                x = drive.vec(x)
                bad = questions.why_bad(A, b, x)
                mon.check(bad is None, lambda: f'{bad}: x={x} A={A} b={b} {par or ""}', 'wrong-row')
                mon.seen(b, A, x)
                n += 1
                if n >= 1000:
                    mon.count('questions_cut_short')
                    break
        mon.count('vectors', n)
        if not n:
            mon.count('questions_without_answer')
            mon.check(True, '')
            mon.seen('none', b, A)
        mon.sample({'question': what, 'params': par, 'equations': len(A), 'columns': len(A[0]), 'b': b, 'vectors': n})
