"""Search states stay well formed; tracing is transparent."""
from .. import ref, drive, states
from ..states import State

PROPERTY = 'C26'
RULE = ('one case = a batch of walks through the search (steps and branching in the order of the search or in random order) with the state checked after every step, or a batch of steps run traced and untraced on equal questions; '
        'distinct non-trivial = distinct states reached by a step, and distinct traced steps that changed the question or raised')
HANG_STEPS = 2_000_000  # whole cases (hundreds of calls) take less than 500 000
NEED = {'states_checked': 8000, 'traced_steps': 800, 'traced_changes': 150, 'traced_refusals': 20, 'traced_violations_reported': 30}
CASE_S = {'quick': 120, 'thorough': 900}


def cases(seed, tier):
    return states.plan(seed, tier, 'c26') + [('traced', {'seed': seed, 'i': i}) for i in range(96 if tier == 'quick' else 1200)]


def run(kind, p, mon):
    if kind == 'traced':
        return traced(p, mon)

    def ok(name, q, desc):
        s = State(q)
        bad = s.why_malformed()
        if bad is None and not s.bounds and any(s.b):
            bad = 'an equation without unknowns has a nonzero right hand side'
        if bad is None:
            try:
                q._invariant_check()
            except AssertionError as e:
                bad = f'its own invariant check fails {e}'
        mon.check(bad is None, lambda: f'after {name}: {bad}: {s}; start {desc}', 'malformed')
        mon.count('states_checked')
        mon.seen(s.key())

    def on_step(name, before, q, raised, desc):
        if not raised:
            ok(name, q, desc)

    def on_fork(before, q, children, desc):
        for c in children:
            s = State(c)
            bad = s.why_malformed()
            mon.check(bad is None, lambda: f'a branch is malformed: {bad}: {s}; start {desc}', 'malformed')
            mon.count('states_checked')
        return None
    for j in range(p['n']):
        states.walk(drive.rng_for('c26', p['seed'], p['i'], j), on_step, on_fork)


class Boom(Exception):
    pass


def traced(p, mon):
    from srg import utils
    rng = drive.rng_for('c26t', p)
    no = drive.no_solution()
    fn = dict(states.steps())

    def plain_result(q):
        return 'result', len(q.b)

    def raiser(q):
        raise Boom('on purpose')

    def breaker(q):
        # a step with a bug: the tracing helper is there to report it
        q.b[...] -= 10 ** 6
        return 'broken'
    own = {'returns': plain_result, 'raises': raiser}
    for _ in range(12):
        st = states.start_question(rng)
        if st is None or st[0] is None:
            continue
        q, desc = st
        names = ['reduce_col'] + [rng.choice(states.STEPS + list(own)) for _ in range(5)]
        for name in names:
            f = {**fn, **own}[name]
            a, b = q.copy(), q.copy()
            before = State(q)
            ra = rb = ea = eb = None
            try:
                ra = f(a)
            except Exception as e:
                ea = e
            try:
                rb = utils.debug(f)(b)
            except Exception as e:
                eb = e
            mon.check(type(ea) is type(eb) and str(ea) == str(eb), lambda: f'{name} traced raises {eb!r} instead of {ea!r}: {before}', 'traced-exception')
            mon.check(ra == rb, lambda: f'{name} traced returns {rb!r} instead of {ra!r}', 'traced-result')
            if ea is None:
                sa, sb = State(a), State(b)
                mon.check(sa.key() == sb.key(), lambda: f'{name} traced has another effect: {before} became {sb} instead of {sa}', 'traced-effect')
                mon.count('traced_changes', sa.key() != before.key())
                if sa.key() != before.key():
                    mon.seen('traced', name, before.key())
            mon.count('traced_refusals', isinstance(ea, no))
            mon.count('traced_steps')
            if isinstance(ea, no):
                break
            if ea is None:
                q = a
        if q.b.size:
            try:
                utils.debug(breaker)(q.copy())
                mon.check(False, 'a step that breaks the question passes traced without an assertion error', 'traced-silent')
            except AssertionError:
                mon.check(True, '')
                mon.count('traced_violations_reported')
