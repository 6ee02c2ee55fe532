"""Deterministic work budget: counts jumps and function entries inside the code under
test with sys.monitoring and raises when a case does far more work than any correct run
of it could.  This detects non-termination without consulting a clock."""
import sys

from . import env

_mon = sys.monitoring
_TOOL = 4


class WorkBudgetExceeded(BaseException):
    pass


class Budget(object):
    def __init__(self):
        self.count = 0
        self.limit = 10 ** 12

    def reset(self, limit):
        self.count = 0
        self.limit = limit


BUDGET = Budget()


def _tick(code, *rest, src=env.SRC):
    if not code.co_filename.startswith(src):
        return _mon.DISABLE
    BUDGET.count += 1
    if BUDGET.count > BUDGET.limit:
        raise WorkBudgetExceeded("more than {} steps".format(BUDGET.limit))


def install():
    _mon.use_tool_id(_TOOL, "verif-budget")
    ev = _mon.events
    _mon.register_callback(_TOOL, ev.JUMP, _tick)
    _mon.register_callback(_TOOL, ev.PY_START, _tick)
    _mon.set_events(_TOOL, ev.JUMP | ev.PY_START)
