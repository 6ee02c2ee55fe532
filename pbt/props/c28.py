import itertools

from hypothesis import strategies as st

from .. import models as M
from ..core import Prop, require
from ..env import CLOCK
from satisfy.constraint import AllDifferentConstraint
from satisfy.utils import INFINITY

DEFAULTS = {"policy": "GROUPS", "limit": None, "timeout": None, "compile": True}
VALUES = {
    "policy": st.sampled_from(M.POLICIES),
    "limit": st.sampled_from([None, "inf", 1, 2, 3, 4, 100, 0]),
    "timeout": st.sampled_from([None, "inf", 10 ** 9, 10 ** 9, 0]),
    "compile": st.booleans(),
}
ATTR = {"policy": "var_selection_policy", "limit": "limit", "timeout": "timeout", "compile": "compile_constraints"}


class SlowConstraint(M.ModConstraint):
    """Takes one second of the harness's clock per evaluation, and is always satisfied."""

    def evaluate(self, substitution):
        CLOCK.advance(1)
        return True


def real(key, value):
    if key == "policy":
        return M.policy(value)
    return INFINITY if value == "inf" else value


def settings(draw, keys, p):
    return {k: draw(VALUES[k]) for k in keys if draw(st.integers(0, 9)) < p}


@st.composite
def cases(draw, tier):
    if draw(st.integers(0, 199)) == 0:
        return {"kind": "random", "n": draw(st.integers(2, 3)), "seed": draw(st.integers(0, 99)),
                "via": draw(st.sampled_from(["new", "set", "call"]))}
    spec = draw(M.mixed_specs(tier, M.model_specs(
        min_vars=2, max_vars=4, max_dom=3, max_cons=2, max_space=40, extra=False, min_dom=1, planted=True),
        most=40, extra=False, kinds=("constraints",)))
    ops = []
    for _ in range(draw(st.integers(2, 7 if tier == "quick" else 12))):
        k = draw(st.sampled_from(["set", "set", "set", "bad", "solve", "solve", "solve", "solve", "opt", "live"]))
        if k == "set":
            key = draw(st.sampled_from(["policy", "limit", "limit", "timeout", "compile"]))
            ops.append(["set", key, draw(VALUES[key])])
        elif k == "bad":
            ops.append(["bad", draw(st.sampled_from(["GROUPS", 0, None, 3, ["ORDERED"]]))])
        elif k == "live":
            key = draw(st.sampled_from(["policy", "limit", "limit", "timeout", "compile"]))
            ops.append(["live", settings(draw, ["policy", "limit", "timeout"], 3), key, draw(VALUES[key])])
        else:
            ops.append([k, settings(draw, ["policy", "limit", "timeout"], 3)])
    ops.append(["solve", {}])
    return {"spec": spec, "new": settings(draw, ["policy", "limit", "timeout", "compile"], 4),
            "as": draw(st.sampled_from(["solver", "solver", "modelsolver", "shared"])), "ops": ops,
            "seed": draw(st.integers(0, 99))}


class C28(Prop):
    id = "C28"
    rule = ("random sequences of reading and changing a solver's settings and of solves that override some of them, on "
            "small models on a clock owned by the harness; non-trivial: a setting is overridden or changed between two "
            "solves with solutions")
    oracle = ("a model of the settings in force, and the reference solutions cut and ordered accordingly (lexicographic in "
              "an order of the variables that the policy allows)")
    quick = 12000
    thorough = 120000

    def strategy(self, tier):
        return cases(tier)

    def check(self, case, rec):
        import random
        if case.get("kind") == "random":
            return self.random_orders(case, rec)
        spec = case["spec"]
        b = M.build(spec)
        n = len(spec["vars"])
        model = b.model
        model.add_constraint(SlowConstraint([x for x in b.names[:2]], 2, 0))
        sols = M.ref_solutions(spec)
        now = dict(DEFAULTS, **case["new"])
        args = {ATTR[k]: real(k, v) for k, v in case["new"].items()}
        ms = None
        if case["as"] == "solver":
            solver = M.Solver(**args)
        elif case["as"] == "shared":
            solver = M.Solver(**args)
            ms = M.ModelSolver(model=model, solver=solver)
            require(ms.solver is solver, "another solver is used")
        else:
            ms = M.ModelSolver(model=model, **args)
            solver = ms.solver
            require(ms.model is model, "another model is used")
        CLOCK.start()
        random.seed(case["seed"])
        self.settings(solver, now, "after construction")
        seen = None
        for op in case["ops"]:
            if op[0] == "set":
                setattr(solver, ATTR[op[1]], real(op[1], op[2]))
                now[op[1]] = op[2]
            elif op[0] == "bad":
                try:
                    solver.var_selection_policy = op[1]
                except TypeError:
                    pass
                else:
                    require(False, "{!r} is accepted as a policy", op[1])
                try:
                    M.Solver(var_selection_policy=op[1])
                except TypeError:
                    pass
                else:
                    require(False, "{!r} is accepted as the policy of a new solver", op[1])
            else:
                force = dict(now, **op[1])
                over = {ATTR[k]: real(k, v) for k, v in op[1].items()}
                if op[0] == "opt":
                    from satisfy import Minimize
                    r = solver.optimal_solution(model, Minimize(b.vars[0] * 1), **over)
                    self.optimum(force, r, solver.get_stats(), sols, b)
                    self.first_optimum(force, r, sols, spec, b)
                else:
                    it = iter(ms) if ms is not None and not over else solver.solve(model, **over)
                    if op[0] == "live":     # a setting changes while a solution is held
                        first = next(it, None)
                        setattr(solver, ATTR[op[2]], real(op[2], op[3]))
                        now[op[2]] = op[3]
                        it = itertools.chain([] if first is None else [first], it)
                        rec.label("changed-meanwhile:" + op[2])
                    got = M.enumerate_solutions(it, len(sols) + 5, b)
                    stats = ms.get_stats() if ms is not None else solver.get_stats()
                    self.solutions(force, got, stats, sols, spec, b)
                    key = (str(force), len(got))
                    rec.nontrivial = rec.nontrivial or (seen is not None and seen != key and len(sols) > 1)
                    seen = key
                    rec.label("policy:" + force["policy"], "limit:{}".format(force["limit"]), "timeout:{}".format(force["timeout"]))
                rec.label_if(bool(over), "overridden:" + "+".join(sorted(op[1])))
            self.settings(solver, now, op)
        rec.label("as:" + case["as"])

    def random_orders(self, case, rec):
        """Every order of the variables is drawn sooner or later (missing one of 6 in 200 draws: less than 1e-15)."""
        import random
        from satisfy import Model
        random.seed(case["seed"])
        model = Model()
        names = [model.add_int_variable([0, 1]).name for _ in range(case["n"])]
        orders = set()
        for _ in range(200):
            solver = M.Solver(**({"var_selection_policy": M.policy("RANDOM")} if case["via"] == "new" else {}))
            if case["via"] == "set":
                solver.var_selection_policy = M.policy("RANDOM")
            over = {"var_selection_policy": M.policy("RANDOM")} if case["via"] == "call" else {}
            second = list(solver.solve(model, limit=2 ** case["n"], **over))
            ones = [tuple(n for n in names if s[n]) for s in second if sum(s[n] for n in names) == 1]
            orders.add(tuple(o[0] for o in ones))
        require(len(orders) == len(list(itertools.permutations(names))), "only the orders {} are drawn for RANDOM", sorted(orders))
        rec.nontrivial = True
        rec.label("random orders:" + case["via"])

    def settings(self, solver, now, op):
        for k, v in now.items():
            want = None if v == "inf" else real(k, v)
            got = getattr(solver, ATTR[k])
            require(got is want or (got == want and type(got) is type(want)), "{} is {!r} instead of {!r} ({})", ATTR[k], got, want, op)

    def optimum(self, force, r, stats, sols, b):
        limit = None if force["limit"] == "inf" else force["limit"]
        t = None if r.solution is None else M.as_tuple(r.solution, b)
        require(t is None or t in sols, "{} is not feasible", t)
        best = min([s[0] for s in sols], default=None)
        if limit == 0:
            require(t is None and not r.is_optimal, "{} with limit 0", r)
        elif limit is None and force["timeout"] != 0 and sols:
            require(t is not None and t[0] == best and r.is_optimal, "{} instead of the optimum {} ({})", r, best, force)
        elif force["timeout"] == 0 and limit is None and len(sols) >= 1 and stats.interrupt is None:
            require(t is not None and t[0] == best, "not interrupted, but {} instead of the optimum {} ({})", r, best, force)
        if limit == 1 and sols and force["timeout"] != 0:
            require(stats.interrupt == "limit" and not r.is_optimal, "{} / {} with limit 1", r, stats)

    def first_optimum(self, force, r, sols, spec, b):
        """With the variables in a known order, the optimum found is the first one in the order of the solutions."""
        limit = None if force["limit"] == "inf" else force["limit"]
        if limit is not None or force["timeout"] == 0 or not sols or force["policy"] not in ("ORDERED", "REVERSED"):
            return
        pos = self.positions(spec)
        best = min(s[0] for s in sols)
        step = -1 if force["policy"] == "REVERSED" else 1
        want = min([s for s in sols if s[0] == best], key=lambda t: [pos[i][t[i]] for i in range(len(b.names))][::step])
        require(M.as_tuple(r.solution, b) == want, "the optimum {} instead of {}, which comes first ({})", r.solution, want, force)

    def positions(self, spec):
        if any(x["kind"] in ("set", "frozenset") for x in spec["vars"]):
            return [{v: k for k, v in enumerate(M.domain_object(x["kind"], x["dom"]) if x["kind"] != "bool" else x["dom"])}
                    for x in spec["vars"]]
        return [{v: k for k, v in enumerate(x["dom"])} for x in spec["vars"]]

    def solutions(self, force, got, stats, sols, spec, b):
        n = len(b.names)
        limit = None if force["limit"] == "inf" else force["limit"]
        require(len(set(got)) == len(got) and set(got) <= set(sols), "{} among {}", got, sols)
        require(stats.count == len(got), "count {} after {} solutions", stats.count, len(got))
        most = len(sols) if limit is None else min(limit, len(sols))
        require(len(got) <= most, "{} solutions although {} are allowed ({})", len(got), most, force)
        if force["timeout"] == 0 and limit != 0:
            if len(sols) >= 4 and (limit is None or limit >= 4):
                require(stats.interrupt == "timeout" and len(got) < most, "not stopped by a timeout of 0: {} {} ({})",
                        len(got), stats, force)
            require(stats.interrupt is not None or len(got) == len(sols), "only {} of {} solutions", len(got), len(sols))
        else:
            require(len(got) == most, "{} solutions instead of {} ({})", len(got), most, force)
            want = "limit" if limit is not None and len(got) == limit else None
            require(stats.interrupt == want, "interrupt reason {!r} instead of {!r} ({})", stats.interrupt, want, force)
        # the order of the solutions: lexicographic in an order of the variables the policy allows
        if n > 4 or len(sols) < 2:
            return
        pos = self.positions(spec)
        size = [len(x["dom"]) for x in spec["vars"]]
        p = force["policy"]
        if p == "ORDERED":
            orders = [tuple(range(n))]
        elif p == "REVERSED":
            orders = [tuple(reversed(range(n)))]
        else:
            orders = list(itertools.permutations(range(n)))
            if p == "MIN_BOUND":
                orders = [o for o in orders if [size[i] for i in o] == sorted(size)]
            elif p == "MAX_BOUND":
                orders = [o for o in orders if [size[i] for i in o] == sorted(size, reverse=True)]
            elif p in ("MIN_CONSTRAINT", "MAX_CONSTRAINT"):
                most = [c.vars() for c in b.model.constraints() if not isinstance(c, AllDifferentConstraint) and len(c.vars()) > 1]
                busy = [sum(name in names for names in most) for name in b.names]
                orders = [o for o in orders if [busy[i] for i in o] == sorted(busy, reverse=p == "MAX_CONSTRAINT")]
            elif p == "GROUPS":
                groups = [c.vars() for c in b.model.constraints() if isinstance(c, AllDifferentConstraint)]
                first = [min([k for k, g in enumerate(groups) if name in g], default=-1) for name in b.names]
                orders = [o for o in orders if [first[i] for i in o] == sorted(first)]
        for o in orders:
            ranked = sorted(sols, key=lambda t: [pos[i][t[i]] for i in o])
            if ranked[:len(got)] == got:
                return
        require(False, "{} are not the first of {} in an order of the variables for {}", got[:6], sols[:6], p)


PROP = C28()
