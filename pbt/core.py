"""Base class of the property checks and the violation type."""
import collections


class Violation(Exception):
    """The property does not hold on this case."""


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


class Recorder(object):
    """What one case looked like; filled in by the check."""

    def __init__(self):
        self.labels = set()
        self.nontrivial = False

    def label(self, *names):
        self.labels.update(names)

    def label_if(self, cond, name):
        if cond:
            self.labels.add(name)


class Prop(object):
    id = None
    rule = ""            # how cases are made / what is non-trivial
    oracle = ""
    quick = 4000         # cases over all shards
    thorough = 40000
    budget = 5_000_000   # steps of the code under test in one case
    assumptions = ()
    note = ""            # assurance and trust, for the manifest

    def strategy(self, tier):
        """-> hypothesis strategy of JSON values; every random choice is in here."""
        raise NotImplementedError

    def fixed(self, tier):
        """-> list of cases always run (enumerated parts, regressions)."""
        return []

    def check(self, case, rec):
        raise NotImplementedError


Labels = collections.Counter
