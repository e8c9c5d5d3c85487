"""Logical step counter: calls and jumps executed in the repository's code, aborting at a budget."""
import sys
from .common import REPO


class OverBudget(BaseException):
    pass


class Steps:
    TOOL = 4

    def __init__(self, budget):
        self.budget, self.n = budget, 0

    def __enter__(self):
        m = sys.monitoring
        e = m.events
        m.use_tool_id(self.TOOL, 'verif-steps')
        inside = {}

        def hit(code, *_):
            ok = inside.get(code)
            if ok is None:
                ok = inside[code] = code.co_filename.startswith(REPO + '/')
            if not ok:
                return m.DISABLE
            self.n += 1
            if self.n > self.budget:
                raise OverBudget(self.n)
        for ev in (e.PY_START, e.JUMP, e.PY_RESUME):
            m.register_callback(self.TOOL, ev, hit)
        m.set_events(self.TOOL, e.PY_START | e.JUMP | e.PY_RESUME)
        m.restart_events()
        return self

    def __exit__(self, *a):
        m = sys.monitoring
        m.set_events(self.TOOL, 0)
        for ev in (m.events.PY_START, m.events.JUMP, m.events.PY_RESUME):
            m.register_callback(self.TOOL, ev, None)
        m.free_tool_id(self.TOOL)
        return False
