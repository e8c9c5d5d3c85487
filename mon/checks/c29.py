"""Printed forms show the whole object, traces show every step."""
import contextlib
import io
import re
from .. import ref, drive, states, questions, cli
from ..states import State

PROPERTY = 'C29'
RULE = ('one case = a batch of questions, answers and partial graphs of many sizes and states whose printed form is read back number by number, a batch of steps run traced with their output read back, or the self check of one module; '
        'distinct non-trivial = distinct states printed or traced, and modules run')
NEED = {'questions_read_back': 600, 'answers_read_back': 600, 'graphs_read_back': 150, 'traced_changes': 250, 'traced_without_change': 150, 'traced_failures': 40, 'more_than_20_equations': 40, 'partly_known_answers': 200, 'modules_run': 8}
CASE_S = {'quick': 120, 'thorough': 900}
MODULES = ['bounds', 'fork', 'gauss_elim', 'partition', 'srg', 'unique', 'solver', 'utils', 'sorter', 'pprint']
NUMBER = re.compile(r'-?\d+')


def cases(seed, tier):
    n = {'quick': 40, 'thorough': 600}[tier]
    out = [('module', {'name': m}) for m in MODULES]
    return out + [(kind, {'seed': seed, 'i': i}) for i in range(n) for kind in ('walk', 'trace', 'sized')]


def numbers(text):
    return [int(x) for x in NUMBER.findall(re.sub(r'dtype=\w+|\(\d+x\d+\)', '', text))]


def after(seq, part):
    """what follows the first place where part occurs in seq, or None"""
    part = list(part)
    for i in range(len(seq) - len(part) + 1):
        if seq[i:i + len(part)] == part:
            return seq[i + len(part):]
    return None


def why_not(text, s):
    """None when the text shows the whole state of a question, in order"""
    for bad in ('...', '…'):
        if bad in text:
            return 'something is left out'
    n = numbers(text)
    flat = [x for b, row in zip(s.b, s.A) for x in (b, *row)]
    n = after(n, flat)
    if n is None:
        return 'the equations are not shown one after another'
    if text.count('?') != len(s.bounds):
        return f'{text.count("?")} question marks for {len(s.bounds)} unknowns'
    n = after(n, [s.quota])
    if n is None:
        return 'the quota is not shown'
    n = after(n, s.bounds)
    if n is None:
        return 'the bounds are not shown'
    return why_not_answer(n, s)


def why_not_answer(n, s):
    starts = [sum(s.sizes[:i]) for i in range(len(s.sizes))]
    n = after(n, s.values)
    if n is None:
        return 'the values of the answer are not shown'
    n = after(n, starts)
    if n is None:
        return 'the places of the answer are not shown'
    return None if n == [s.len] else f'the length {s.len} is not shown last: {n}'


def look(q, mon, where):
    s = State(q)
    if max(len(s.bounds), len(s.values)) > 900:
        return s
    for how in (str, repr):
        text = how(q)
        bad = why_not(text, s)
        mon.check(bad is None, lambda: f'{where}: {bad}: {text} for {s}', 'question')
    t = repr(q.answer)
    bad = why_not_answer(numbers(t), s)
    mon.check(bad is None, lambda: f'{where}: {bad}: {t} for {s}', 'answer')
    mon.check(State(q).key() == s.key(), lambda: f'{where}: printing changed the question: {s}', 'changed')
    mon.count('questions_read_back')
    mon.count('answers_read_back')
    mon.count('partly_known_answers', 0 < len(s.bounds) < len(s.values))
    mon.count('more_than_20_equations', len(s.b) > 20)
    mon.seen(s.key())
    return s


def run(kind, p, mon):
    if kind == 'module':
        with cli.Scratch() as d:
            rc, out, err = cli.run(['-m', 'srg.' + p['name']], d)
        mon.check(rc == 0, lambda: f'the self check of srg.{p["name"]} ends with status {rc}: {err[-400:]}', 'self-check')
        mon.count('modules_run')
        mon.seen('module', p['name'])
        return
    rng = drive.rng_for('c29', kind, p['seed'], p['i'])
    if kind == 'walk':
        def on_step(name, before, q, raised, desc):
            if not raised:
                look(q, mon, f'after {name}')

        def on_fork(before, q, children, desc):
            for c in children[:3]:
                look(c, mon, 'a branch')
        for _ in range(4):
            states.walk(rng, on_step, on_fork)
        graphs(rng, mon)
    elif kind == 'sized':
        from srg.srg import Question, Answer, ones
        for _ in range(6):
            A, b = questions.sized(rng, rng.randint(2, 60), rng.randint(2, 90))
            look(Question(drive.arr(A), drive.arr(b), quota=b[-1], bounds=ones(len(A[0]))), mon, 'posed')
        sizes = [rng.randint(1, 12) for _ in range(rng.randint(1, 120))]
        for known in (0, .5, 1):
            a = Answer(drive.arr([rng.randint(0, n) if rng.random() < known else -1 for n in sizes]), drive.arr([sum(sizes[:i]) for i in range(len(sizes))]), sum(sizes))
            s = lambda: None
            s.values, s.sizes, s.len = drive.vec(drive.held(a)), sizes, sum(sizes)
            t = repr(a)
            bad = why_not_answer(numbers(t), s)
            mon.check(bad is None, lambda: f'{bad}: {t}', 'answer')
            mon.count('answers_read_back')
    else:
        trace(rng, mon)


def graphs(rng, mon):
    from srg.srg import SRG
    for _ in range(8):
        par, P = questions.prefix(rng, questions.TINY + questions.MID, wander=False)
        if len(P) * par[0] > 1000:
            continue
        t = repr(SRG(drive.arr(P)))
        mon.check(numbers(t) == [x for r in P for x in r], lambda: f'the printed form of a partial graph is another: {t} for {P}', 'graph')
        mon.count('graphs_read_back')


class Boom(Exception):
    pass


def trace(rng, mon):
    from srg import utils, pprint
    fn = dict(states.steps())

    def plain_step(q):
        return 17

    def breaker(q):
        q.b[...] -= 10 ** 6
        return 'broken'
    for _ in range(8):
        st = states.start_question(rng)
        if st is None or st[0] is None:
            continue
        q, desc = st
        for name in ['reduce_col'] + [rng.choice(states.STEPS) for _ in range(5)] + ['plain_step']:
            f = fn.get(name, plain_step)
            before, text = State(q), str(q)
            buf = io.StringIO()
            try:
                with contextlib.redirect_stdout(buf):
                    utils.debug(f)(q)
            except drive.no_solution():
                break
            out = cli.ANSI.sub('', buf.getvalue())
            s = State(q)
            mon.check(name in out, lambda: f'the trace of {name} does not name it: {out[:300]}', 'trace-name')
            if s.key() == before.key():
                mon.check('no change' in out.lower() and '?' not in out, lambda: f'the trace of {name} does not say that nothing changed: {out[:300]}', 'trace-nothing')
                mon.count('traced_without_change')
            else:
                i = out.find(text)
                j = out.find(name, i + len(text)) if i >= 0 else -1
                k = out.find(str(q), j) if j >= 0 else -1
                mon.check(0 <= i < j < k, lambda: f'the trace of {name} does not show the question before, the step, and the question after: {out[:1200]} for {before} and {s}', 'trace-change')
                mon.check('no change' not in out.lower(), lambda: f'the trace of {name} says that nothing changed: {before} became {s}', 'trace-change')
                mon.count('traced_changes')
                mon.seen('trace', name, before.key())
        if q.b.size:
            text, buf = str(q), io.StringIO()
            try:
                with contextlib.redirect_stdout(buf):
                    utils.debug(breaker)(q)
            except AssertionError:
                pass
            out = cli.ANSI.sub('', buf.getvalue())
            mon.check('breaker' in out and text in out and str(q) in out, lambda: f'the trace of a step that breaks the question does not show it before and after: {out[:600]}', 'trace-failure')
            mon.count('traced_failures')
    for x in (17, 'text', [1, 2], None, ('a',)):
        for how in ('green', 'blue', 'red', 'yellow'):
            f = getattr(pprint, how, None)
            if f is None:
                continue
            buf = io.StringIO()
            with contextlib.redirect_stdout(buf):
                f(x)
            mon.check(cli.ANSI.sub('', buf.getvalue()) == repr(x) + '\n', lambda: f'{how}({x!r}) prints {buf.getvalue()!r}', 'coloured')
