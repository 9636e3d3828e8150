"""Step accounting and interrupts inside the code under test.

sys.monitoring events of gdspy's own code objects are the simulator's notion
of progress: a budget turns endless loops into a reproducible `Hang`, and an
exception can be delivered at the k-th event, which is where the interpreter
would deliver an asynchronous interrupt or a failing allocation.
"""
import sys

from . import boot
from .simfs import Hang

mon = sys.monitoring
TOOL = 3
_state = {"n": 0, "budget": None, "at": None, "exc": None, "fired": 0, "on": False}


def _code_ok(code):
    return code.co_filename.startswith(boot.pkgdir)


def _step(code):
    s = _state
    if not code.co_filename.startswith(boot.pkgdir):
        return mon.DISABLE
    if not s["on"]:
        return None
    s["n"] += 1
    if s["budget"] is not None and s["n"] > s["budget"]:
        s["on"] = False
        raise Hang("%d steps" % s["n"])
    if s["at"] is not None and s["n"] == s["at"]:
        s["fired"] += 1
        e = s["exc"]
        if s.get("once", True):
            s["at"] = None
        raise e()
    return None


def _line(code, line):
    return _step(code)


def _jump(code, a, b):
    return _step(code)


def _start(code, off):
    return _step(code)


def install(fine=False):
    """fine: one step per line (interrupts); otherwise per call and jump."""
    try:
        mon.use_tool_id(TOOL, "gdspy-sim")
    except ValueError:
        pass
    ev = mon.events
    if fine:
        mon.register_callback(TOOL, ev.LINE, _line)
        mon.set_events(TOOL, ev.LINE)
    else:
        mon.register_callback(TOOL, ev.PY_START, _start)
        mon.register_callback(TOOL, ev.JUMP, _jump)
        mon.register_callback(TOOL, ev.PY_RESUME, _start)
        mon.set_events(TOOL, ev.PY_START | ev.JUMP | ev.PY_RESUME)


def uninstall():
    mon.set_events(TOOL, 0)
    try:
        mon.free_tool_id(TOOL)
    except ValueError:
        pass


class Steps(object):
    """with Steps(budget=..., at=k, exc=KeyboardInterrupt) as s: ..."""

    def __init__(self, budget=None, at=None, exc=None):
        self.budget, self.at, self.exc = budget, at, exc

    def __enter__(self):
        _state.update(n=0, budget=self.budget, at=self.at, exc=self.exc, fired=0, on=True)
        return self

    def __exit__(self, *a):
        _state["on"] = False
        self.n = _state["n"]
        self.fired = _state["fired"]
        return False
