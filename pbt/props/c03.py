from hypothesis import strategies as st

from .. import models as M
from ..core import Prop, require


@st.composite
def cases(draw, tier):
    spec = draw(M.mixed_specs(tier, M.model_specs(max_vars=6, max_dom=4, max_cons=5, max_space=150 if tier == "quick" else 500,
                                                  extra=False), most=60, extra=False))
    n = len(spec["vars"])
    return {
        "spec": spec,
        "order": list(draw(st.permutations(range(n)))),
        "cons_order": list(draw(st.permutations(range(len(spec["cons"]))))),
        "dup": draw(st.lists(st.integers(0, max(0, len(spec["cons"]) - 1)), max_size=2)) if spec["cons"] else [],
        "rename": draw(M.exprs.names(n, n)) if n <= 6 else ["r{}".format(i) for i in draw(st.permutations(range(n)))],
        "kinds": [draw(st.sampled_from(["list", "tuple", "set", "frozenset", "list", "tuple", "deque", "dict", "keys"])) for _ in range(n)],
        "reverse_dom": draw(st.booleans()),
        "cfg": draw(M.CONFIG),
        "own": draw(st.sampled_from(M.POLICIES)),
        "seed": draw(st.integers(0, 1000)),
    }


class C03(Prop):
    id = "C03"
    rule = ("random models run under all 8 policies x compilation on/off, through Solver and ModelSolver, and in a "
            "transformed form (permuted declarations, renamed variables, other domain containers, duplicated "
            "constraints); non-trivial: at least 2 variables and some but not all assignments are solutions")
    oracle = "metamorphic: equality of solution sets (and the brute-force set)"
    quick = 5000
    thorough = 60000

    def strategy(self, tier):
        return cases(tier)

    def check(self, case, rec):
        import random
        spec = case["spec"]
        sols = M.ref_solutions(spec)
        M.describe(spec, rec, sols)
        space = 1
        for v in spec["vars"]:
            space *= len(v["dom"])
        rec.nontrivial = len(spec["vars"]) >= 2 and 0 < len(sols) < space
        want = sorted(sols)
        cap = 2 * len(sols) + 50
        random.seed(case["seed"])
        b = M.build(spec)
        for p in M.POLICIES:
            for comp in (True, False):
                cfg = {"policy": p, "compile": comp}
                got = sorted(M.enumerate_solutions(M.make_solver(cfg).solve(b.model), cap, b))
                require(got == want, "{}: {} solutions instead of {}: {} vs {}", cfg, len(got), len(want), got[:4], want[:4])
        # per-call policy, different from the solver's own, and ModelSolver
        cfg = case["cfg"]
        got = sorted(M.enumerate_solutions(
            M.Solver(compile_constraints=cfg["compile"], var_selection_policy=M.policy(case["own"])).solve(b.model, var_selection_policy=M.policy(cfg["policy"])), cap, b))
        require(got == want, "policy given per call ({}): {} vs {}", cfg, got[:4], want[:4])
        ms = M.ModelSolver(model=b.model, var_selection_policy=M.policy(cfg["policy"]), compile_constraints=cfg["compile"])
        require(ms.model is b.model, "ModelSolver does not expose its model")
        got = sorted(M.enumerate_solutions(ms, cap, b))
        require(got == want, "ModelSolver ({}): {} vs {}", cfg, got[:4], want[:4])
        ms = M.ModelSolver(model=b.model, solver=M.make_solver(cfg))
        got = sorted(M.enumerate_solutions(ms, cap, b))
        require(got == want, "ModelSolver with a solver ({}): {} vs {}", cfg, got[:4], want[:4])
        # transformed model
        t = self.transform(case)
        tb = M.build(t)
        for cfg2 in (cfg, {"policy": "GROUPS", "compile": True}, {"policy": "ORDERED", "compile": False}):
            got = M.enumerate_solutions(M.make_solver(cfg2).solve(tb.model), cap, tb)
            inv = [case["order"].index(i) for i in range(len(spec["vars"]))]
            back = sorted(tuple(s[k] for k in inv) for s in got)
            require(back == want, "transformed model ({}): {} vs {}", cfg2, back[:4], want[:4])
            rec.label("transformed")

    def transform(self, case):
        spec, order = case["spec"], case["order"]
        new_index = {old: new for new, old in enumerate(order)}
        vs = []
        for new, old in enumerate(order):
            v = spec["vars"][old]
            dom = list(v["dom"])
            if case["reverse_dom"]:
                dom.reverse()
            vs.append({"name": case["rename"][new], "kind": case["kinds"][new], "dom": dom})
        cons = [spec["cons"][i] for i in case["cons_order"]] + [spec["cons"][i] for i in case["dup"]]
        return {"vars": vs, "params": spec["params"], "cons": [remap(c, new_index) for c in cons], "extra": []}


def remap(c, m):
    if c[0] == "expr":
        return ["expr", remap_expr(c[1], m)]
    if c[0] in ("alldiff", "custom"):
        return [c[0], [m[i] for i in c[1]]] + c[2:]
    return c


def remap_expr(e, m):
    if e[0] == "v":
        return ["v", m[e[1]]]
    if e[0] in ("p", "c", "i"):
        return e
    if e[0] in ("sum", "Sum", "Prod"):
        return [e[0], [remap_expr(x, m) for x in e[1]]]
    return [e[0]] + [remap_expr(x, m) for x in e[1:]]


PROP = C03()
