"""Driver of every check: runs cases in worker processes, collects what the monitors observed, and decides.

A check module (mon/checks/cXX.py) defines
    PROPERTY   its id
    cases(seed, tier)      -> list of (kind, params); params are JSON values
    run(kind, params, mon) -> None; reports to mon (class Monitor)
    NEED       {counter: least value}: below it the run is inconclusive
    RULE, ASSUMPTIONS, optional CASE_S (watchdog per case), DEADLINE_S {tier: s}, HANG_STEPS (no call needs that many logical steps)
Verdicts: exit 0 held on what was observed; exit 1 violated; exit 2 harness error; exit 3 inconclusive.
"""
import ctypes
import hashlib
import importlib
import json
import multiprocessing
import multiprocessing.connection
import os
import resource
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


def setup_repo():
    """import the code under test from the working tree"""
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    warnings.simplefilter('ignore')
    import srg
    got = os.path.dirname(os.path.abspath(srg.__file__))
    if got != os.path.join(REPO, 'srg'):
        raise RuntimeError(f'srg imported from {got}')


class CaseTimeout(BaseException):
    """wall-clock watchdog: inconclusive, never a verdict"""


class Violation(Exception):
    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class Monitor:
    def __init__(self):
        self.counts = {}
        self.sigs = set()
        self.samples = []
        self.violations = []  # (key, message)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + int(n)

    def seen(self, *sig):
        """a distinct non-trivial case was observed"""
        self.sigs.add(hashlib.blake2b(repr(sig).encode(), digest_size=8).hexdigest())

    def sample(self, obj):
        if len(self.samples) < 3:
            self.samples.append(obj)

    def violation(self, msg, key=None):
        self.violations.append((key or 'other', str(msg)[:1500]))

    def check(self, ok, msg, key=None):
        """count one evaluation of the oracle"""
        self.count('oracle_evaluations')
        if not ok:
            self.violation(msg() if callable(msg) else msg, key)
        return ok


def _in_repo(tb):
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if f.startswith(REPO + os.sep) or '/srg/' in f and f.endswith(('.pyx', '.py')):
            return True
        tb = tb.tb_next
    return False


class Endless(BaseException):
    """one call into the code under test went on for more logical steps than any input of the check can need"""


class Probe:
    """once a case takes long, counts the calls, resumptions and jumps of the one call into /repo that is running; the verdict depends on
    the number of steps, never on the time"""
    TOOL = 3

    def __init__(self):
        self.on = False

    def start(self, frame, budget):
        if self.on:
            return
        top = None
        while frame is not None:
            if frame.f_code.co_filename.startswith(REPO + os.sep):
                top = frame
            frame = frame.f_back
        if top is None:
            return
        m, e = sys.monitoring, sys.monitoring.events
        self.n, self.on, self.top = 0, True, top
        m.use_tool_id(self.TOOL, 'verif-probe')
        inside = {}

        def hit(code, *_):
            ok = inside.get(code)
            if ok is None:
                ok = inside[code] = code.co_filename.startswith(REPO + os.sep)
            if not ok:
                return m.DISABLE
            self.n += 1
            if self.n > budget:
                n, where = self.n, code.co_name
                self.stop()
                raise Endless(f'{top.f_code.co_name} had not come to an end after {n} further steps, in {where}')

        def left(code, *_):
            if code is top.f_code and sys._getframe(1) is top:
                self.stop()
        for ev in (e.PY_START, e.JUMP, e.PY_RESUME):
            m.register_callback(self.TOOL, ev, hit)
        for ev in (e.PY_RETURN, e.PY_YIELD, e.PY_UNWIND):
            m.register_callback(self.TOOL, ev, left)
        m.set_events(self.TOOL, e.PY_START | e.JUMP | e.PY_RESUME | e.PY_RETURN | e.PY_YIELD | e.PY_UNWIND)
        m.restart_events()

    def stop(self):
        if self.on:
            self.on, self.top = False, None
            m, e = sys.monitoring, sys.monitoring.events
            m.set_events(self.TOOL, 0)
            for ev in (e.PY_START, e.JUMP, e.PY_RESUME, e.PY_RETURN, e.PY_YIELD, e.PY_UNWIND):
                m.register_callback(self.TOOL, ev, None)
            m.free_tool_id(self.TOOL)


def helper(mon, fn, *args):
    """runs a comparison of a helper that no property names; left out when the helper is not there or is used in another way"""
    try:
        fn(*args)
    except Exception as e:
        if _in_repo(e.__traceback__) or isinstance(e, Violation):
            raise
        mon.count('helpers_left_out')


def run_case(mod, kind, params, timeout):
    mon = Monitor()
    status = 'ok'
    err = None

    hang = getattr(mod, 'HANG_STEPS', None)
    probe_at = min(5, timeout)
    end = time.monotonic() + timeout

    def onalarm(signum, frame):
        if hang is None or time.monotonic() > end + 4 * timeout:
            raise CaseTimeout()
        # a call into the code under test has been running for long: count its logical steps from here on
        probe.start(frame, hang)
        left = end - time.monotonic()
        if left <= 0 and not probe.on:
            raise CaseTimeout()
        signal.setitimer(signal.ITIMER_REAL, max(1, min(5, left)))
    probe = Probe()
    signal.signal(signal.SIGALRM, onalarm)
    signal.setitimer(signal.ITIMER_REAL, timeout if hang is None else probe_at)
    try:
        mod.run(kind, params, mon)
    except CaseTimeout:
        status = 'timeout'
    except Endless as e:
        mon.violation(str(e), 'endless')
    except Violation as e:
        mon.violation(str(e), e.key)
    except MemoryError:
        status, err = 'timeout', traceback.format_exc()[-1500:]  # the worker's memory limit: inconclusive
    except Exception as e:
        if _in_repo(e.__traceback__):
            last = traceback.extract_tb(e.__traceback__)[-1]
            mon.violation(f'{type(e).__name__}: {e} (raised at {os.path.basename(last.filename)}:{last.lineno} {last.name})', 'exception')
            err = traceback.format_exc()[-1500:]
        elif isinstance(e, (TypeError, AttributeError)) and 'NoneType' in str(e):
            last = traceback.extract_tb(e.__traceback__)[-1]
            mon.violation(f'None where a value is due: {e} (noticed at {os.path.basename(last.filename)}:{last.lineno})', 'none')
        else:
            status, err = 'error', traceback.format_exc()[-3000:]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        probe.stop()
    return status, err, mon.counts, mon.sigs, mon.samples, mon.violations


def _worker(modname, conn):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    try:
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)  # PR_SET_PDEATHSIG: end with the check, however that ends
    except (OSError, AttributeError):
        pass
    try:
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)  # what the code under test prints is not ours
        resource.setrlimit(resource.RLIMIT_AS, (7 << 29, 7 << 29))
        setup_repo()
        mod = importlib.import_module(modname)
        fail = None
    except BaseException:
        fail = traceback.format_exc()[-3000:]
    while True:
        try:
            job = conn.recv()
        except EOFError:
            return
        if job is None:
            return
        i, kind, params, timeout = job
        if fail:
            conn.send((i, ('error', fail, {}, set(), [], [])))
            continue
        try:
            r = run_case(mod, kind, params, timeout)
        except BaseException:
            r = ('timeout', traceback.format_exc()[-500:], {}, set(), [], [])
        conn.send((i, r))


def run_all(modname, cases, nproc, case_s, deadline_s):
    """yields (index, result); result None when the worker died; stops handing out work at the deadline"""
    t0 = time.monotonic()
    ctx = multiprocessing.get_context('fork')
    workers = {}

    def spawn():
        a, b = ctx.Pipe()
        p = ctx.Process(target=_worker, args=(modname, b), daemon=True)
        p.start()
        b.close()
        workers[a] = [p, None, 0.0]
    for _ in range(min(nproc, len(cases))):
        spawn()
    todo = list(range(len(cases)))[::-1]
    skipped = []
    try:
        while True:
            for c, w in list(workers.items()):
                if w[1] is None and todo:
                    if time.monotonic() - t0 > deadline_s:
                        skipped += todo
                        todo = []
                        break
                    i = todo.pop()
                    w[1], w[2] = i, time.monotonic()
                    c.send((i, cases[i][0], cases[i][1], case_s))
            busy = [c for c, w in workers.items() if w[1] is not None]
            if not busy:
                break
            for c in multiprocessing.connection.wait(busy, timeout=5):
                w = workers[c]
                try:
                    i, r = c.recv()
                    w[1] = None
                    yield i, r
                except (EOFError, OSError):
                    i = w[1]
                    w[0].join(1)
                    del workers[c]
                    yield i, None
                    spawn()
            now = time.monotonic()
            for c, w in list(workers.items()):
                if w[1] is not None and (now - w[2] > case_s + 20 or now - t0 > deadline_s + 150):  # stuck in native code
                    w[0].kill()
    finally:
        for c, w in workers.items():
            if w[1] is None:
                try:
                    c.send(None)
                except OSError:
                    pass
            else:
                w[0].kill()
        for w in workers.values():
            w[0].join(2)
            if w[0].is_alive():
                w[0].kill()
    for i in skipped:
        yield i, 'skipped'


def known_findings(prop):
    out = {}
    try:
        with open(os.path.join(VERIF, 'known_findings.jsonl')) as f:
            for line in f:
                if line.strip():
                    e = json.loads(line)
                    if e['property'] == prop and e['status'] == 'known':
                        out[e['key']] = e['what']
    except FileNotFoundError:
        pass
    return out


def main(modname, argv=None):
    argv = sys.argv[1:] if argv is None else argv
    setup_repo()
    mod = importlib.import_module(modname)
    prop = mod.PROPERTY
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    if argv and argv[0] == '--replay':
        with open(argv[1]) as f:
            d = json.load(f)
        status, err, counts, sigs, samples, viol = run_case(mod, d['kind'], d['params'], 3600)
        print(status, counts)
        if err:
            print(err)
        for key, msg in viol:
            print(f'[{key}] {msg}')
        return 1 if viol else 0
    t0 = time.monotonic()
    case_s = getattr(mod, 'CASE_S', {'quick': 120, 'thorough': 900})[tier]
    deadline = getattr(mod, 'DEADLINE_S', {'quick': 600, 'thorough': 3 * 3600})[tier]
    nproc = int(os.environ.get('VERIF_JOBS', '0')) or min(8, len(os.sched_getaffinity(0)))
    cases = mod.cases(seed, tier)
    counts, sigs, samples, viol = {}, set(), [], []
    by = {'ok': 0, 'timeout': 0, 'error': 0, 'died': 0, 'skipped': 0}
    errors = []
    known = known_findings(prop)
    bad_since = None
    for i, r in run_all(modname, cases, nproc, case_s, deadline):
        if r == 'skipped':
            by['skipped'] += 1
            continue
        if r is None:
            by['died'] += 1
            continue
        status, err, c, s, sm, vs = r
        by[status] += 1
        if status in ('error', 'timeout') and err:
            errors.append((i, err))
        for k, n in c.items():
            counts[k] = counts.get(k, 0) + n
        sigs |= s
        if sm and len(samples) < 6:
            samples.append({'case': [cases[i][0], cases[i][1]], 'observed': sm})
        for key, msg in vs:
            viol.append((i, key, msg))
        if any(x[1] not in known for x in viol):
            bad_since = bad_since or time.monotonic()
            if len(viol) > 200 or time.monotonic() - bad_since > 20:
                break
    fin = getattr(mod, 'finish', None)
    if fin:
        for key, msg in fin(counts) or []:
            viol.append((None, key, msg))
    new = [x for x in viol if x[1] not in known]
    hit = sorted({x[1] for x in viol if x[1] in known})
    done = by['ok']
    short = lambda o: json.loads(json.dumps(o, default=str)[:4000]) if len(json.dumps(o, default=str)) <= 4000 else json.dumps(o, default=str)[:4000]
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': counts.get('oracle_evaluations', 0),
            'distinct_nontrivial': len(sigs),
            'rule': mod.RULE,
            'samples': [short(s) for s in samples[:4]],
            'cases': {'planned': len(cases), **by},
            'observed': {k: v for k, v in sorted(counts.items()) if k != 'oracle_evaluations'},
            'required': mod.NEED,
            'exhaustive': False,
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.monotonic() - t0, 2),
        'violations': len(new),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    path = os.path.join(VERIF, 'evidence', prop + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(evidence, f, indent=1)
    os.replace(path + '.tmp', path)
    for k in hit:
        print(f'KNOWN-FINDING: property={prop} {known[k]}')
    print(f'{prop} {tier} seed={seed}: {by} evaluations={counts.get("oracle_evaluations", 0)} distinct={len(sigs)} '
          f'violations={len(new)} in {evidence["wall_s"]} s')
    print('observed: ' + ', '.join(f'{k}={v}' for k, v in sorted(counts.items())))
    for i, e in errors[:3]:
        print(f'--- case {cases[i]}:\n{e}', file=sys.stderr)
    if new:
        d = os.path.join(VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        shown = set()
        for i, key, msg in new:
            if key in shown or len(shown) >= 5:
                continue
            shown.add(key)
            body = {'property': prop, 'check': modname, 'kind': cases[i][0] if i is not None else None,
                    'params': cases[i][1] if i is not None else None, 'key': key, 'what': msg, 'seed': seed, 'tier': tier}
            name = f'{prop}-{hashlib.blake2b(json.dumps(body, sort_keys=True, default=str).encode(), digest_size=5).hexdigest()}.json'
            with open(os.path.join(d, name), 'w') as f:
                json.dump(body, f, indent=1, default=str)
            print(f'  [{key}] case {json.dumps([body["kind"], body["params"]], default=str)[:300]}: {msg[:600]}')
            print(f'VIOLATION property={prop} replay={os.path.join(d, name)}')
        return 1
    if by['error']:
        print(f'{prop}: harness error in {by["error"]} cases', file=sys.stderr)
        return 2
    lacking = {k: (counts.get(k, 0), n) for k, n in mod.NEED.items() if counts.get(k, 0) < n}
    if lacking or by['timeout'] + by['died'] + by['skipped'] > 0.25 * len(cases) or not done:
        print(f'{prop}: inconclusive: {lacking or by}', file=sys.stderr)
        return 3
    return 0


# ------------------------------------------------------------------ helpers shared by the checks

def rng_for(*key):
    import random
    return random.Random(repr(key))


def take(gen, cap, what):
    """drain an iterator of the code under test; a runaway one is a violation, not a hang"""
    out = []
    for x in gen:
        out.append(x)
        if len(out) > cap:
            raise Violation(f'{what}: more than {cap} results', 'runaway')
    return out


def chunks(lst, n):
    return [lst[i:i + n] for i in range(0, len(lst), n)]
