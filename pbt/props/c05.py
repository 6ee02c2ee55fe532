from hypothesis import strategies as st

from .. import models as M
from ..core import Prop, require
from ..env import CLOCK
from satisfy.utils import INFINITY


class TickConstraint(M.ModConstraint):
    """A user-defined constraint whose evaluation takes time on the harness's clock."""

    def __init__(self, names, mod, rem, clock):
        super().__init__(names, mod, rem)
        self._clock = clock

    def evaluate(self, substitution):
        self._clock.tick()
        return super().evaluate(substitution)


class Ticker(object):
    def __init__(self, costs, on):
        self.costs, self.on = costs, on
        self.n = 0
        self.late = 0
        self.deadline = None      # clock value at which the timeout is exceeded
        self.search = 0           # time spent searching so far

    def tick(self):
        if self.deadline is not None and self.search > self.deadline:
            self.late += 1
        d = self.costs[self.n % len(self.costs)]
        self.n += 1
        if self.on:
            CLOCK.advance(d)
            self.search += d


@st.composite
def cases(draw, tier):
    spec = draw(M.mixed_specs(tier, M.model_specs(
        max_vars=5, min_vars=2, max_dom=4, max_cons=2, extra=False, min_dom=2, max_space=150 if tier == "quick" else 400, planted=True),
        extra=False, kinds=("wide", "constraints")))
    n = len(spec["vars"])
    tcons = []
    for _ in range(draw(st.integers(1, 3))):
        k = draw(st.integers(2, min(3, n)))
        mod = draw(st.integers(2, 6))
        tcons.append([list(draw(st.permutations(range(n)))[:k]), mod, draw(st.integers(0, mod - 1))])
    return {
        "spec": spec, "ticks": tcons,
        "costs": draw(st.lists(st.sampled_from([0, 1, 1, 2, 5, 20]), min_size=1, max_size=6)),
        # seconds per unit of time: from milliseconds (exact as a float and in nanoseconds) to months
        "unit": draw(st.sampled_from([1, 1, 1, 1, 2 ** -9, 2 ** -9, 1000, 10 ** 5, 10 ** 7])),
        "holds": draw(st.lists(st.sampled_from([0, 0, 3, 100, 10 ** 6]), min_size=1, max_size=4)),
        # fraction of the whole search time, in per mille; None: no timeout; "inf"
        "timeout": draw(st.one_of(st.integers(0, 1100), st.integers(0, 1100), st.sampled_from([None, "inf", 0, 1000, 999, 1001, 2000]))),
        "via": draw(st.sampled_from(["ctor", "setter", "call", "modelsolver"])),
        "limit": draw(st.sampled_from([None, None, None, 1, 2, 5])),
        "cfg": draw(M.CONFIG), "seed": draw(st.integers(0, 99)),
        # while solutions are held: which of them the caller asks for statistics at
        "ask": draw(st.sampled_from([[False], [True], [True, False], [False, True, True]])),
        # give the enumeration up after that many solutions
        "close": draw(st.sampled_from([None, None, None, None, 1, 2, 3])),
    }


class C05(Prop):
    id = "C05"
    rule = ("random models with user-defined constraints that take time on a clock owned by the harness, random costs, "
            "caller hold times and timeouts placed anywhere between 0 and beyond the total search time; non-trivial: "
            "a finite timeout and a search that takes time and has a solution")
    oracle = ("time is accounted by the harness itself: prefix of the untimed enumeration, 'timeout' only if the search "
              "time exceeded the timeout, bounded work after the deadline, exact elapsed time and count")
    quick = 10000
    thorough = 120000
    assumptions = ("the code under test reads time through the standard `time` module functions",)

    def strategy(self, tier):
        return cases(tier)

    def make(self, case, on):
        b = M.build(case["spec"])
        t = Ticker([c * case["unit"] for c in case["costs"]], on)
        for idx, mod, rem in case["ticks"]:
            b.model.add_constraint(TickConstraint([b.vars[i].name for i in idx], mod, rem, t))
        return b, t

    def drain(self, it, b, t, case, cap, solver=None, close=None):
        """-> solutions, search time, number of solutions delivered after the deadline"""
        res, late = [], 0
        it = iter(it)
        while True:
            was_late = t.deadline is not None and t.search > t.deadline
            try:
                s = next(it)
            except StopIteration:
                break
            res.append(M.as_tuple(s, b))
            late += was_late
            if solver is not None and case["ask"][len(res) % len(case["ask"])]:
                s = solver.get_stats()
                require(s.interrupt is None and s.count == len(res) and s.elapsed == t.search,
                        "{} while solution {} is held, after searching for {}", s, len(res), t.search)
            CLOCK.advance(case["holds"][len(res) % len(case["holds"])])
            if len(res) > cap:
                break
            if close is not None and len(res) >= close:
                it.close()
                break
        return res, t.search, late

    def check(self, case, rec):
        import random
        spec, cfg = case["spec"], case["cfg"]
        cons = list(spec["cons"]) + [["custom"] + c for c in case["ticks"]]
        nsol = len(M.ref_solutions(spec, cons=cons))
        cap = 2 * nsol + 50
        # untimed run
        CLOCK.start()
        b, t = self.make(case, True)
        random.seed(case["seed"])
        solver = M.make_solver(cfg)
        full, total, _ = self.drain(solver.solve(b.model), b, t, case, cap)
        s = solver.get_stats()
        require(s.interrupt is None and s.count == len(full), "untimed run reports {}", s)
        require(s.elapsed == total, "untimed run: elapsed {} but {} was spent searching", s.elapsed, total)
        evals = t.n
        # timed run
        to = case["timeout"]
        timeout = INFINITY if to == "inf" else None if to is None else int(total / case["unit"]) * to // 1000 * case["unit"]
        limit = case["limit"]
        finite = timeout is not None and timeout is not INFINITY
        rec.nontrivial = finite and total > 0 and nsol > 0
        rec.label("via:" + case["via"])
        CLOCK.start(5000)
        b, t = self.make(case, True)
        t.deadline = timeout if finite else None
        random.seed(case["seed"])
        if case["via"] == "modelsolver":
            solver = M.ModelSolver(model=b.model, var_selection_policy=M.policy(cfg["policy"]),
                                   compile_constraints=cfg["compile"], timeout=timeout, limit=limit)
            it = iter(solver)
        elif case["via"] == "call":
            solver = M.make_solver(cfg, timeout=0, limit=limit)
            it = solver.solve(b.model, timeout=timeout)
        else:
            solver = M.make_solver(cfg, timeout=timeout if case["via"] == "ctor" else 1, limit=limit)
            if case["via"] == "setter":
                solver.timeout = timeout
            it = solver.solve(b.model)
        got, search, late = self.drain(it, b, t, case, cap, solver, case["close"])
        s = solver.get_stats()
        closed = case["close"] is not None and len(got) >= case["close"]
        CLOCK.stop()
        require(got == full[:len(got)], "timed run is not a prefix of the untimed one: {} vs {}", got[:4], full[:4])
        require(s.elapsed == search, "elapsed {} but {} was spent searching (interrupt {!r})", s.elapsed, search, s.interrupt)
        require(s.count == len(got), "count {} after {} solutions", s.count, len(got))
        want_full = full if limit is None else full[:limit]
        if closed:
            rec.label("given-up")
            require(s.interrupt != "timeout", "reports a timeout although the caller gave up")
            require(got == want_full[:len(got)], "more solutions than the limit")
        elif s.interrupt == "timeout":
            rec.label("timed-out", "timed-out:with-solutions" if got else "timed-out:none")
            require(finite and search > timeout, "stopped by a timeout of {} after searching for {}", timeout, search)
            require(len(got) <= len(want_full), "more solutions than the limit")
            require(limit is None or len(got) < limit, "reports a timeout although the limit of {} was reached", limit)
        else:
            rec.label("completed")
            require(got == want_full, "not interrupted by the timeout ({!r}) but only {} of {} solutions",
                    s.interrupt, len(got), len(want_full))
            require(s.interrupt == ("limit" if limit is not None and len(got) == limit else None),
                    "interrupt reason is {!r}", s.interrupt)
        if finite:
            steps = (len(case["ticks"]) + 1) * (max(len(v["dom"]) for v in spec["vars"]) + 1) * 2
            require(t.late <= steps, "{} constraint evaluations after the timeout was exceeded", t.late)
            require(late <= 2, "{} solutions searched for after the timeout was exceeded", late)
            rec.label_if(to is not None and isinstance(to, int) and to >= 1000, "timeout>=total")


PROP = C05()
