from hypothesis import strategies as st

from .. import exprs
from .. import models as M
from ..core import Prop, require
from .c06 import make_objective, value

NZ = st.sampled_from([1, -1, 2, 3, -2, 5])
PVAL = st.one_of(st.integers(-4, 6), st.integers(-4, 6), st.sampled_from([0, 1, -1, 100, -100, 12345678901234]))


@st.composite
def param_relation(draw, nv, npar, plant, pvals):
    """A relation in which at least one variable and one parameter really take part."""
    idx = list(draw(st.permutations(range(nv))))[:draw(st.integers(1, min(3, nv)))]
    terms = []
    for i in idx:
        v = ["v", i]
        z = draw(st.integers(0, 5))
        p = ["p", draw(st.integers(0, npar - 1))]
        if z == 0:
            v = ["*", p, v]
        elif z == 1:
            v = ["*", v, ["i", draw(NZ)]]
        elif z == 2:
            v = ["abs", ["-", v, p]]
        elif z == 3:
            v = ["%", v, ["+", ["abs", p], ["i", 1]]]
        terms.append(v)
    p = ["p", draw(st.integers(0, npar - 1))]
    lhs = terms[0]
    for t in terms[1:]:
        lhs = [draw(st.sampled_from(["+", "-", "+"])), lhs, t]
    rhs = draw(st.sampled_from([p, p, ["neg", p], ["*", ["i", 2], p], ["+", p, ["i", 1]]]))
    op = draw(st.sampled_from(["<=", ">=", "!=", "<", ">", "==", "<=", ">="]))
    if plant is not None:
        a, b = exprs.ref_eval(lhs, plant, pvals), exprs.ref_eval(rhs, plant, pvals)
        if not exprs.REF[op](a, b):
            op = {"==": "!=", "!=": "==", "<": ">=", "<=": ">", ">": "<=", ">=": "<"}[op]
    return [op, rhs, lhs] if op in ("==", "!=") and draw(st.booleans()) else [op, lhs, rhs]


@st.composite
def cases(draw, tier):
    spec = draw(M.model_specs(min_vars=1, max_vars=4, max_dom=5, max_cons=2, max_space=100, params=False, extra=False,
                              min_dom=1))
    nv = len(spec["vars"])
    npar = draw(st.sampled_from([1, 2, 2, 3]))
    spec["params"] = [{"name": "par{}".format(i), "value": draw(PVAL)} for i in range(npar)]
    pvals = M.param_values(spec)
    plant = [draw(st.sampled_from(v["dom"])) for v in spec["vars"]] if draw(st.booleans()) else None
    for _ in range(draw(st.sampled_from([1, 1, 2, 3]))):
        e = draw(param_relation(nv, npar, plant, pvals))
        if draw(st.integers(0, 3)) == 0:
            e = [draw(st.sampled_from(["&", "|"])), e, draw(param_relation(nv, npar, None, pvals))]
        spec["cons"].append(["expr", e])
    obj_tree = st.lists(st.tuples(st.integers(0, nv - 1), NZ, st.integers(0, npar - 1)), min_size=1, max_size=3).map(
        lambda ts: ["sum", [["*", ["v", i], ["+", ["p", p], ["i", c]]] for i, c, p in ts]])
    op = st.one_of(
        st.tuples(st.just("set"), st.integers(0, npar - 1), PVAL),
        st.tuples(st.just("set"), st.integers(0, npar - 1), PVAL),
        st.tuples(st.just("solve"), M.CONFIG, st.sampled_from([None, None, 1, 2])),
        st.tuples(st.just("solve"), M.CONFIG, st.none()),
        st.tuples(st.just("opt"), M.CONFIG, st.sampled_from(["min", "max"]), obj_tree, st.booleans()),
        st.tuples(st.just("eval"), st.lists(st.integers(-5, 5), min_size=nv, max_size=nv), st.integers(-5, 99)),
    ).map(list)
    ops = draw(st.lists(op, min_size=3, max_size=8 if tier == "quick" else 16))
    ops += [["set", draw(st.integers(0, npar - 1)), draw(PVAL)], ["solve", draw(M.CONFIG), None]]
    twin = None
    if draw(st.booleans()):     # a second model with parameters of the same names
        twin = {"at": draw(st.integers(0, len(ops) - 1)), "values": [draw(PVAL) for _ in range(npar)], "cfg": draw(M.CONFIG)}
    return {"spec": spec, "ops": ops, "twin": twin}


class C11(Prop):
    id = "C11"
    rule = ("random models whose constraints and objectives mix variables and parameters x histories of parameter "
            "updates, complete and abandoned solves, optimisations (compiled or not, policies) and evaluations, at times "
            "with a second model having parameters of the same names; "
            "non-trivial: a solve, a change that alters the solution set, and another solve")
    oracle = "brute-force solution set / optimum recomputed with the current parameter values after every step"
    quick = 10000
    thorough = 120000

    def strategy(self, tier):
        return cases(tier)

    def check(self, case, rec):
        spec = case["spec"]
        b = M.build(spec)
        vals = M.param_values(spec)
        solvers = {}
        objectives = []
        last = None
        twin = case.get("twin")
        tb = None
        for at, op in enumerate(case["ops"]):
            if twin and at == twin["at"]:
                tspec = dict(spec, params=[dict(p, value=v) for p, v in zip(spec["params"], twin["values"])])
                tb = M.build(tspec)
                require([tb.params[i].value for i in range(len(tspec["params"]))] == twin["values"],
                        "parameters of a second model have the values {} instead of {}",
                        [tb.params[i].value for i in range(len(tspec["params"]))], twin["values"])
                rec.label("two-models")
            if op[0] == "set":
                b.params[op[1]].value = op[2]
                require(b.params[op[1]].value == op[2], "parameter value reads back as {}", b.params[op[1]].value)
                vals = vals[:op[1]] + [op[2]] + vals[op[1] + 1:]
                continue
            if op[0] == "eval":
                env = {b.names[i]: v for i, v in enumerate(op[1])}
                env.update({p["name"]: op[2] for p in spec["params"]})
                for c in spec["cons"]:
                    if c[0] != "expr":
                        continue
                    e = exprs.build_expr(c[1], b.vars, b.params)
                    want = exprs.ref_eval(c[1], op[1], vals)
                    require(e.evaluate(env) == want, "{} evaluates to {} instead of {} under {}, parameters {}",
                            e, e.evaluate(env), want, env, vals)
                    got = e.as_function()(**env)
                    require(got == want, "{} compiled evaluates to {} instead of {} under {}, parameters {}",
                            e, got, want, env, vals)
                continue
            sols = M.ref_solutions(spec, params=vals)
            key = (op[1]["policy"], op[1]["compile"])
            if key not in solvers:
                solvers[key] = M.make_solver(op[1])
            if op[0] == "solve":
                if last is not None and last != sols:
                    rec.nontrivial = True
                last = sols
                if op[2] is None:
                    got = M.enumerate_solutions(solvers[key].solve(b.model), len(sols) + 50, b)
                    require(sorted(got) == sorted(sols), "{}: {} solutions instead of {} with parameters {}: {} vs {}",
                            op[1], len(got), len(sols), vals, sorted(got)[:4], sorted(sols)[:4])
                else:
                    rec.label("abandoned")
                    it = solvers[key].solve(b.model)
                    for _, s in zip(range(op[2]), it):
                        t = M.as_tuple(s, b)
                        require(t in sols, "{} is no solution with parameters {}", t, vals)
                    it.close()
            else:
                rec.label("optimised")
                o = [op[2], op[3]]
                if op[4] and objectives:        # an objective used before
                    o, objective = objectives[0]
                    rec.label("objective-again")
                else:
                    objective = make_objective(o, b)
                    objectives.insert(0, (o, objective))
                r = solvers[key].optimal_solution(b.model, objective)
                if not sols:
                    require(r.solution is None, "{} returned for an infeasible model (parameters {})", r, vals)
                else:
                    require(r.solution is not None, "no optimum found although feasible (parameters {})", vals)
                    t = M.as_tuple(r.solution, b)
                    require(t in sols, "{} is no solution with parameters {}", t, vals)
                    best = (min if o[0] == "min" else max)(value(o, s, vals) for s in sols)
                    require(value(o, t, vals) == best, "value {} instead of {} (parameters {})", value(o, t, vals), best, vals)
            rec.label("compiled" if op[1]["compile"] else "interpreted")
        require([b.params[i].value for i in range(len(vals))] == vals, "parameter values {} instead of {}",
                [b.params[i].value for i in range(len(vals))], vals)
        if tb is not None:      # the second model has kept its own values throughout
            want = sorted(M.ref_solutions(tspec, params=twin["values"]))
            got = sorted(M.enumerate_solutions(M.make_solver(twin["cfg"]).solve(tb.model), len(want) + 50, tb))
            require(got == want, "a second model with parameters {} has the solutions {} instead of {}",
                    twin["values"], got[:4], want[:4])


PROP = C11()
