from hypothesis import strategies as st

from .. import models as M
from ..core import Prop, require


class C01(Prop):
    id = "C01"
    rule = ("random models (0-6 variables of varied domains and containers, 0-6 constraints of every kind, mostly "
            "built around a planted solution; parameters; additional constraints; some large in one dimension) x 3 random configurations; "
            "non-trivial: the reference has at least one solution and rules out at least one assignment")
    oracle = "each yielded assignment is evaluated against the specification by an independent evaluator"
    quick = 12000
    thorough = 160000

    def strategy(self, tier):
        return st.fixed_dictionaries({
            "spec": M.mixed_specs(tier, M.model_specs(max_vars=6 if tier == "thorough" else 5, max_dom=5, max_cons=6,
                                                      max_space=400 if tier == "quick" else 1500)),
            "cfgs": st.lists(M.CONFIG, min_size=3, max_size=3),
        })

    def check(self, case, rec):
        spec = case["spec"]
        sols = M.ref_solutions(spec)
        M.describe(spec, rec, sols)
        space = 1
        for v in spec["vars"]:
            space *= len(v["dom"])
        rec.nontrivial = 0 < len(sols) < space
        params = M.param_values(spec)
        for i, cfg in enumerate(case["cfgs"]):
            b = M.build(spec)
            rec.label("policy:" + cfg["policy"])
            count = 0
            for sol in M.make_solver(cfg).solve(b.model, additional_constraints=M.passed(b.extra, i + len(sols))):
                t = M.as_tuple(sol, b)
                for v, var in zip(t, spec["vars"]):
                    require(v in var["dom"], "value {!r} is outside the domain {!r} ({})", v, var["dom"], cfg)
                for c in list(spec["cons"]) + list(spec["extra"]):
                    require(M.con_holds(c, t, params), "solution {} violates {} ({})", t, c, cfg)
                count += 1
                if count > 2 * len(sols) + 50:
                    break       # an endless enumeration is the business of completeness


PROP = C01()
