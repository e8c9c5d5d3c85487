"""The candidate next rows are all of the solutions, each once."""
from collections import Counter
from .. import ref, drive, questions

PROPERTY = 'C06'
RULE = ('one case = a batch of questions (prefixes of known graphs, prefixes the search wanders to, random systems with redundant and contradictory equations) '
        'whose yielded vectors are compared, as a multiset, with the solutions enumerated by the reference model; distinct non-trivial = distinct (question, expected vector) pairs')
NEED = {'questions_compared': 1500, 'expected_vectors': 1500, 'questions_with_several_answers': 200, 'questions_without_answer': 100}
CASE_S = {'quick': 120, 'thorough': 900}


def cases(seed, tier):
    return questions.plan(seed, tier, 'c06')


def run(kind, p, mon):
    for what, par, data in questions.items(kind, p):
        q, A, b = questions.pose(what, par, data)
        c = {}
        try:
            want = questions.reference(A, b, 150000 if kind != 'params' else 10000, c) if min(b) >= 0 else []
        except ref.TooBig:
            mon.count('questions_too_big_for_the_reference')
            continue
        if len(want) > 1000:
            mon.count('questions_too_big_for_the_reference')
            continue
        got = Counter(drive.vec(x) for x in drive.answers_of(q, cap=3 * len(want) + 500)) if q is not None else Counter()
        missing = [x for x in want if x not in got]
        twice = [x for x, n in got.items() if n > 1]
        extra = set(got) - set(want)
        mon.check(not missing, lambda: f'{len(missing)} of {len(want)} solutions missed, e.g. {missing[0]}; A={A} b={b} {par or ""}', 'missed')
        mon.check(not twice, lambda: f'{twice[0]} yielded {got[twice[0]]} times; A={A} b={b} {par or ""}', 'repeated')
        mon.check(not extra, lambda: f'{min(extra)} is not among the solutions; A={A} b={b} {par or ""}', 'extra')
        mon.count('questions_compared')
        mon.count('expected_vectors', len(want))
        mon.count('questions_with_several_answers', len(want) > 1)
        mon.count('questions_without_answer', not want)
        mon.count('reference_nodes', c.get('ref_nodes', 0))
        for x in want:
            mon.seen(b, A, x)
        mon.sample({'question': what, 'params': par, 'equations': len(A), 'columns': len(A[0]), 'b': b, 'expected': len(want)})
