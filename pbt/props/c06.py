from hypothesis import strategies as st

from .. import exprs
from .. import models as M
from ..core import Prop, require
from ..env import CLOCK
from satisfy import Minimize, Maximize
from satisfy.utils import INFINITY


def objective_exprs(spec, tier):
    """Strategy of objective expressions over any subset of the variables."""
    nv = len(spec["vars"])
    pidx = list(range(len(spec["params"])))
    small = st.integers(-4, 4)
    if not nv:
        return st.one_of(exprs.trees([], pidx, size=4, total=True, ints=small), st.tuples(st.just("c"), small).map(list))
    v = st.integers(0, nv - 1).map(lambda i: ["v", i])
    coef = st.sampled_from([-1, 2, 1, -3, 3, -2, 5, -7, 0])
    dense = st.lists(coef, min_size=nv, max_size=nv).map(
        lambda cs: ["sum", [["*", ["v", i], ["i", c]] for i, c in enumerate(cs)]])
    pairs = st.lists(st.tuples(v, v, st.sampled_from(["*", "-", "+", "%"])), min_size=1, max_size=3).map(
        lambda ts: ["sum", [[o, a, b] if o != "%" else ["%", ["+", a, ["i", 3]], ["+", ["abs", b], ["i", 2]]]
                            for a, b, o in ts]])
    dist = st.lists(st.tuples(v, small), min_size=1, max_size=nv).map(
        lambda ts: ["sum", [["abs", ["-", a, ["i", k]]] for a, k in ts]])
    tree = exprs.trees(list(range(nv)), pidx, size=8, total=True, weird=True, ints=small)
    big = st.tuples(dense, st.sampled_from([2 ** 62, -2 ** 64, 10 ** 17, -10 ** 20, 2 ** 53]), st.booleans()).map(
        lambda t: ["+", t[0], ["i", t[1]]] if t[2] else ["+", ["i", t[1]], t[0]])
    opts = [dense, big, dense, dense, pairs, dist, tree, tree, v, v.map(lambda x: ["neg", x]),
            st.tuples(st.just("c"), small).map(list)]
    return st.one_of(*opts)


def make_objective(o, b):
    return {"min": Minimize, "max": Maximize}[o[0]](exprs.build_expr(o[1], b.vars, b.params))


def value(o, t, params):
    return int(exprs.ref_eval(o[1], t, params))


def better(o, a, b, params):
    """Is assignment a strictly better than b?"""
    va, vb = value(o, a, params), value(o, b, params)
    return va < vb if o[0] == "min" else va > vb


@st.composite
def cases(draw, tier):
    if draw(st.integers(0, 39)) == 0:
        spec, cfg = draw(M.chains(tier))
        if cfg["policy"] not in ("REVERSED", "MIN_BOUND", "MAX_BOUND"):
            cfg["policy"] = "ORDERED"       # the objective changes the order that the others choose
    else:
        spec = draw(M.mixed_specs(tier, M.model_specs(max_vars=6, max_dom=5, max_cons=4, max_space=200 if tier == "quick" else 900)))
        cfg = draw(M.CONFIG)
    obj = [draw(st.sampled_from(["min", "max"])), draw(objective_exprs(spec, tier))]
    return {"spec": spec, "obj": obj, "cfg": cfg, "seed": draw(st.integers(0, 99)),
            "limit": draw(st.sampled_from([None, None, None, None, "inf", 0, 1, 2, 3, 10])),
            # on a clock that moves by one whenever it is read
            "timeout": draw(st.one_of(st.none(), st.none(), st.none(), st.integers(0, 15), st.integers(0, 120))),
            "via": draw(st.sampled_from(["ctor", "call"])), "again": draw(st.booleans())}


class C06(Prop):
    id = "C06"
    rule = ("random models (some of them chains of 13-40 variables) x objectives (any subset of variables: single, none, all; linear and non-linear) x sense x "
            "configuration x limit x timeout (on a clock that moves with every reading); non-trivial: the objective takes at least 2 values over the feasible assignments")
    oracle = "brute-force optimum over all feasible assignments"
    quick = 14000
    thorough = 160000

    def strategy(self, tier):
        return cases(tier)

    def check(self, case, rec):
        import random
        spec, obj, cfg = case["spec"], case["obj"], case["cfg"]
        params = M.param_values(spec)
        sols = M.ref_solutions(spec)
        vals = [value(obj, t, params) for t in sols]
        best = (min if obj[0] == "min" else max)(vals) if vals else None
        rec.nontrivial = len(set(vals)) > 1
        rec.label_if(len(spec["vars"]) > 12, "chain")
        n = len(exprs.names_in(obj[1]))
        rec.label("objective-vars={}".format(min(n, 3)), obj[0], "policy:" + cfg["policy"])
        rec.label("feasible" if sols else "infeasible")
        b = M.build(spec)
        lim = case["limit"]
        limit = INFINITY if lim == "inf" else lim
        kw = {"limit": limit} if limit is not None else {}
        if case["timeout"] is not None:
            kw["timeout"] = case["timeout"]
        solver = M.make_solver(cfg, **(kw if case["via"] == "ctor" else {}))
        if case["via"] == "ctor":
            kw = {}
        objective = make_objective(obj, b)
        for _ in range(2 if case["again"] else 1):
            random.seed(case["seed"])
            if case["timeout"] is not None:
                CLOCK.start(auto=1)
            r = solver.optimal_solution(b.model, objective, additional_constraints=M.passed(b.extra, len(sols)), **kw)
            CLOCK.stop()
            reason = solver.get_stats().interrupt
            t = None
            if r.solution is not None:
                t = M.as_tuple(r.solution, b)
                require(t in sols, "{} returned but not feasible ({})", t, cfg)
            if not sols:
                require(r.solution is None and not r.is_optimal, "infeasible model: {} returned", r)
            elif case["timeout"] is not None and reason == "timeout":
                rec.label("stopped-by-timeout", "stopped-by-timeout:" + ("optimum" if t and value(obj, t, params) == best
                                                                         else "suboptimal" if t else "nothing"))
                require(not r.is_optimal, "claims optimality although stopped by a timeout")
            elif isinstance(lim, int) and reason is not None:
                rec.label("stopped-by-limit")
                require(reason == "limit", "interrupt reason {!r}", reason)
                require(not r.is_optimal, "claims optimality although stopped by limit {}", lim)
                require(r.solution is not None or lim == 0, "no solution although the limit is {}", lim)
            else:
                rec.label("to-the-end")
                require(r.solution is not None, "feasible model (best {}) but no solution ({})", best, cfg)
                require(value(obj, t, params) == best, "value {} of {} returned, but {} is feasible ({})",
                        value(obj, t, params), t, best, cfg)
                require(r.is_optimal is True, "optimal solution not reported as such: {}", r)
            if t is not None:
                told = objective.evaluate(dict(zip(b.names, t), **{b.params[i].name: p for i, p in enumerate(params)}))
                require(told == value(obj, t, params), "the objective says {} for {} instead of {}", told, t, value(obj, t, params))


PROP = C06()
