import collections

from hypothesis import strategies as st

from .. import models as M
from ..core import Prop, require
from . import c01


class C02(Prop):
    id = "C02"
    rule = c01.C01.rule.replace("x 3 random", "x 3 random") + "; also models marked as not solvable, and chains of 13-40 variables"
    oracle = "multiset of yielded assignments equals the brute-force solution set; deterministic step budget for termination"
    quick = 12000
    thorough = 160000

    def strategy(self, tier):
        chains = M.chains(tier).map(lambda x: {"spec": x[0], "cfgs": [x[1]], "unsolvable": False})
        small = st.fixed_dictionaries({
            "spec": M.mixed_specs(tier, M.model_specs(max_vars=6 if tier == "thorough" else 5, max_dom=5, max_cons=5,
                                                      max_space=400 if tier == "quick" else 1500)),
            "cfgs": st.lists(M.CONFIG, min_size=3, max_size=3),
            "unsolvable": st.integers(0, 19).map(lambda i: i == 0),
        })
        return st.integers(0, 39).flatmap(lambda k: chains if k == 0 else small)

    def fixed(self, tier):
        empty = {"vars": [], "params": [], "cons": [], "extra": []}
        cfgs = [{"policy": p, "compile": c} for p in M.POLICIES for c in (True, False)]
        out = [{"spec": empty, "cfgs": cfgs, "unsolvable": u} for u in (False, True)]
        # many variables: the search is as deep as there are variables
        for n, dom, op in ((400, [0, 1], "=="), (400, [1, 0], "!="), (150, [3, 4, 5], "==")):
            spec = {"vars": [{"name": "x{}".format(i), "kind": "list", "dom": dom} for i in range(n)], "params": [], "extra": [],
                    "cons": [["expr", [op, ["v", i], ["v", i + 1]]] for i in range(n - 1)]}
            out.append({"spec": spec, "cfgs": [{"policy": p, "compile": p == "ORDERED"} for p in ("ORDERED", "REVERSED")],
                        "unsolvable": False})
        spec = {"vars": [{"name": "x{}".format(i), "kind": "list", "dom": [i]} for i in range(700)], "params": [], "extra": [],
                "cons": [["alldiff", list(range(200))], ["expr", ["<", ["v", 3], ["v", 600]]]]}
        out.append({"spec": spec, "cfgs": [{"policy": p, "compile": True} for p in M.POLICIES], "unsolvable": False})
        return out

    def check(self, case, rec):
        spec = case["spec"]
        sols = [] if case["unsolvable"] else M.ref_solutions(spec)
        M.describe(spec, rec, sols)
        rec.label_if(len(spec["vars"]) > 12, "chain")
        space = 1
        for v in spec["vars"]:
            space *= len(v["dom"])
        rec.nontrivial = 0 < len(sols) < space
        want = collections.Counter(sols)
        for i, cfg in enumerate(case["cfgs"]):
            b = M.build(spec)
            if case["unsolvable"]:
                b.model.set_solvable(False)
            rec.label("policy:" + cfg["policy"])
            solver = M.make_solver(cfg)
            got = M.enumerate_solutions(solver.solve(b.model, additional_constraints=M.passed(b.extra, i + len(sols))), 2 * len(sols) + 50, b)
            gc = collections.Counter(got)
            dup = [t for t, n in gc.items() if n > 1]
            require(not dup, "{} yielded more than once ({})", dup[:3], cfg)
            missing = [t for t in want if t not in gc]
            require(not missing, "solutions {} never yielded ({}); {} of {} found", missing[:3], cfg, len(gc), len(want))
            extra = [t for t in gc if t not in want]
            require(not extra, "{} yielded but not a solution ({})", extra[:3], cfg)


PROP = C02()
