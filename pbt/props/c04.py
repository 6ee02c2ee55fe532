from hypothesis import strategies as st

from .. import models as M
from ..core import Prop, require
from satisfy.utils import INFINITY, Infinity


@st.composite
def cases(draw, tier):
    spec = draw(M.mixed_specs(tier, M.model_specs(max_vars=5, max_dom=4, max_cons=3, max_space=120 if tier == "quick" else 400)))
    if draw(st.integers(0, 99)) == 99:      # hundreds or thousands of solutions
        spec = draw(M.model_specs(max_vars=4, min_vars=2, max_dom=12, max_cons=1, max_space=1500 if tier == "quick" else 6000, min_dom=4))
    n = len(M.ref_solutions(spec))
    limit = draw(st.one_of(st.sampled_from(["inf", None, 0, 1, 2, 3]), st.integers(0, n + 3),
                           st.sampled_from(sorted({max(0, n - 1), n, n + 1}))))
    return {"spec": spec, "limit": limit, "cfg": draw(M.CONFIG), "via": draw(st.sampled_from(
        ["ctor", "setter", "call", "modelsolver", "call-over-ctor"])), "seed": draw(st.integers(0, 99)),
        "twice": draw(st.booleans()),
        "more": draw(st.lists(st.tuples(st.one_of(st.sampled_from(["inf", None]), st.integers(0, n + 2)),
                                        st.sampled_from(["call", "setter", "keep"])).map(list), max_size=4))}


class C04(Prop):
    id = "C04"
    rule = ("random models x limits (0, around the number of solutions, infinite, none) x ways to give the limit; "
            "non-trivial: the model has at least 2 solutions and the limit is finite")
    oracle = "prefix of the unlimited enumeration of the same configuration; counts and reason from the specification"
    quick = 10000
    thorough = 120000

    def strategy(self, tier):
        return cases(tier)

    def check(self, case, rec):
        import random
        spec, cfg = case["spec"], case["cfg"]
        nsol = len(M.ref_solutions(spec))
        lim = case["limit"]
        limit = (Infinity() if case["seed"] % 2 else INFINITY) if lim == "inf" else lim
        b = M.build(spec)
        cap = 2 * nsol + 50
        random.seed(case["seed"])
        full = M.enumerate_solutions(M.make_solver(cfg).solve(b.model, additional_constraints=b.extra), cap, b)
        finite = lim if isinstance(lim, int) else None
        rec.nontrivial = nsol >= 2 and finite is not None
        rec.label("via:" + case["via"])
        if finite is None:
            rec.label("limit:infinite")
        else:
            rec.label("limit:0" if finite == 0 else "limit:below" if finite < nsol else
                      "limit:equal" if finite == nsol else "limit:above")
        via = case["via"]
        runs = 2 if case["twice"] else 1
        if via == "modelsolver":
            if spec["extra"]:
                return
            solver = M.ModelSolver(model=b.model, var_selection_policy=M.policy(cfg["policy"]),
                                   compile_constraints=cfg["compile"], limit=limit)
            go = lambda: iter(solver)
        else:
            kw = {}
            if via == "ctor":
                solver = M.make_solver(cfg, limit=limit)
            elif via == "setter":
                solver = M.make_solver(cfg, limit=7)
                solver.limit = limit
            elif via == "call":
                solver = M.make_solver(cfg)
                kw = {"limit": limit}
            else:
                solver = M.make_solver(cfg, limit=1)
                kw = {"limit": limit}
            go = lambda: solver.solve(b.model, additional_constraints=M.passed(b.extra, case["seed"]), **kw)
        self.solve_once(case, solver, go, full, lim, via, b, runs)
        if via == "modelsolver":
            return
        own = {"ctor": lim, "setter": lim, "call": "inf", "call-over-ctor": 1}[via]
        for lim, how in case["more"]:       # the same solver again, with other limits
            limit = (Infinity() if case["seed"] % 2 else INFINITY) if lim == "inf" else lim
            kw = {}
            if how == "call":
                kw = {"limit": limit}
            elif how == "setter":
                solver.limit = limit
                own = lim
            else:
                lim = own
            rec.label("reused:" + how)
            self.solve_once(case, solver, lambda: solver.solve(b.model, additional_constraints=M.passed(b.extra, case["seed"]), **kw), full, lim,
                            "reused-" + how, b, 1)

    def solve_once(self, case, solver, go, full, lim, via, b, runs):
        import random
        cap = len(full) + 50
        finite = lim if isinstance(lim, int) else None
        want = full if finite is None else full[:finite]
        for _ in range(runs):
            random.seed(case["seed"])
            got = M.enumerate_solutions(go(), cap, b)
            require(got == want, "limit {} via {}: {} solutions instead of {} (of {}): {} vs {}",
                    lim, via, len(got), len(want), len(full), got[:4], want[:4])
            st_ = solver.get_stats()
            require(st_.count == len(want), "statistics count {} after {} solutions", st_.count, len(want))
            reason = "limit" if finite is not None and len(want) == finite else None
            require(st_.interrupt == reason, "interrupt {!r} instead of {!r} (limit {}, {} solutions in all)",
                    st_.interrupt, reason, lim, len(full))


PROP = C04()
