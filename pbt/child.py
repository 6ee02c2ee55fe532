"""A long-lived interpreter (with its own hash seed) that runs cases of C29 and reports
what they produce; one JSON request and one JSON answer per line."""
import ctypes
import json
import sys

from . import env  # noqa: F401
from . import budget


def main():
    ctypes.CDLL(None).prctl(1, 9)       # die with the parent
    from .props import c29
    sys.setrecursionlimit(6000)
    budget.install()
    out = sys.stdout
    sys.stdout = sys.stderr
    for line in sys.stdin:
        case = json.loads(line)
        budget.BUDGET.reset(c29.PROP.budget)
        try:
            res = c29.produce(case)
        except budget.WorkBudgetExceeded:
            res = {"error": "budget"}
        except Exception as e:
            res = {"error": "{}: {}".format(type(e).__name__, e)}
        finally:
            env.CLOCK.stop()
        out.write(json.dumps(res) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
