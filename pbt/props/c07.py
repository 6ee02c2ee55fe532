from hypothesis import strategies as st

from .. import models as M
from ..core import Prop, require
from .c06 import objective_exprs, make_objective, better, value


@st.composite
def cases(draw, tier):
    if draw(st.integers(0, 39)) == 0:
        spec, cfg = draw(M.chains(tier))
        if cfg["policy"] not in ("REVERSED", "MIN_BOUND", "MAX_BOUND"):
            cfg["policy"] = "ORDERED"       # the objective changes the order that the others choose
    else:
        spec = draw(M.mixed_specs(tier, M.model_specs(max_vars=6, max_dom=5, max_cons=4, max_space=200 if tier == "quick" else 900)))
        cfg = draw(M.CONFIG)
    k = draw(st.sampled_from([1, 1, 2, 2, 2, 3]))
    objs = [[draw(st.sampled_from(["min", "max"])), draw(objective_exprs(spec, tier))] for _ in range(k)]
    return {"spec": spec, "objs": objs, "cfg": cfg, "seed": draw(st.integers(0, 99)),
            "limit": draw(st.sampled_from([None, None, None, 1, 2, 3])),
            "as": draw(st.sampled_from(["list", "tuple", "generator"])), "again": draw(st.booleans())}


class C07(Prop):
    id = "C07"
    rule = ("random models (some of them chains of 13-40 variables) x 1..3 objectives of either sense x configuration x additional constraints x limit; non-trivial: "
            "at least 2 solutions are yielded, or at least 2 objectives and 2 feasible assignments")
    oracle = "strict improvement in every objective along the sequence; brute-force search for an assignment beating the last"
    quick = 14000
    thorough = 160000

    def strategy(self, tier):
        return cases(tier)

    def check(self, case, rec):
        import random
        spec, objs, cfg = case["spec"], case["objs"], case["cfg"]
        params = M.param_values(spec)
        sols = M.ref_solutions(spec)
        feasible = set(sols)
        b = M.build(spec)
        solver = M.make_solver(cfg)
        objectives = [make_objective(o, b) for o in objs]
        for _ in range(2 if case["again"] else 1):
            if len(objectives) == 1 and case["as"] != "list":
                arg = objectives[0]
            else:
                arg = {"list": list, "tuple": tuple, "generator": iter}[case["as"]](objectives)
            random.seed(case["seed"])
            prev = None
            n = 0
            lim = case["limit"]
            kw = {} if lim is None else {"limit": lim}
            for opt in solver.optimize(b.model, arg, additional_constraints=M.passed(b.extra, len(sols)), **kw):
                t = M.as_tuple(opt.solution, b)
                require(t in feasible, "{} yielded but not feasible ({})", t, cfg)
                if prev is not None:
                    for o in objs:
                        require(better(o, t, prev, params), "{} (value {}) after {} (value {}) is no improvement for {} ({})",
                                t, value(o, t, params), prev, value(o, prev, params), o, cfg)
                for o, objective in zip(objs, objectives):
                    require(objective.evaluate(opt.solution) == value(o, t, params), "objective {} evaluates to {} for {}",
                            o, objective.evaluate(opt.solution), t)
                prev = t
                n += 1
                require(lim is None or n <= lim, "more solutions than the limit {}", lim)
                require(n <= len(sols), "more solutions than feasible assignments")
            require((n > 0) == bool(sols), "{} solutions yielded, {} feasible assignments", n, len(sols))
            for t in sols if n != lim else ():
                require(not all(better(o, t, prev, params) for o in objs),
                        "{} beats the last solution {} in every objective ({})", t, prev, cfg)
            require(solver.get_stats().count == n, "count {} after {} solutions", solver.get_stats().count, n)
            rec.label("yielded={}".format(min(n, 4)))
            rec.nontrivial = rec.nontrivial or n >= 2 or (len(objs) > 1 and len(sols) > 1)
        rec.label("objectives={}".format(len(objs)), "policy:" + cfg["policy"])
        rec.label_if(len(spec["vars"]) > 12, "chain")
        rec.label_if(len({o[0] for o in objs}) > 1, "mixed-senses")


PROP = C07()
