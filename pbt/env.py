"""Process set-up shared by every worker: import path, clock wrappers, logging.

Must be imported before `satisfy` (and before hypothesis is used): it installs
switchable wrappers around the clock functions of `time`, so that a check can own the
clock whichever of them the code under test reads.
"""
import logging
import os
import sys
import time

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
HYP = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

sys.dont_write_bytecode = True
if SRC not in sys.path:
    sys.path.insert(0, SRC)
if HYP not in sys.path:
    sys.path.append(HYP)          # after /opt/venv: networkx/termcolor come from there
os.environ["FORCE_COLOR"] = "1"   # termcolor: colours even when stdout is not a tty
os.environ.pop("NO_COLOR", None)
os.environ.pop("ANSI_COLORS_DISABLED", None)


class Clock(object):
    """A clock that is real until `fake` is set; then it only moves when told to."""

    def __init__(self):
        self.fake = None
        self.auto = 0        # with a faked clock: moves by this much whenever the code under test reads it

    def start(self, now=1000, auto=0):
        self.fake = now
        self.auto = auto

    def advance(self, dt):
        self.fake += dt

    def stop(self):
        self.fake = None


CLOCK = Clock()
REAL = {}


def _wrap(name, scale):
    real = getattr(time, name)
    REAL[name] = real

    def clock_fn():
        if CLOCK.fake is None:
            return real()
        if CLOCK.auto and sys._getframe(1).f_code.co_filename.startswith(SRC):
            # (others read it too: hypothesis times the garbage collector)
            CLOCK.fake += CLOCK.auto
        if scale == 1:
            return float(CLOCK.fake)
        whole = int(CLOCK.fake)
        return whole * scale + int((CLOCK.fake - whole) * scale)
    clock_fn.__name__ = name
    setattr(time, name, clock_fn)


for _n in ("time", "monotonic", "perf_counter", "process_time", "thread_time"):
    _wrap(_n, 1)
for _n in ("time_ns", "monotonic_ns", "perf_counter_ns", "process_time_ns", "thread_time_ns"):
    _wrap(_n, 10 ** 9)

logging.disable(logging.CRITICAL)
