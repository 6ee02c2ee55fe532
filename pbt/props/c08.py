from hypothesis import strategies as st

from .. import exprs
from ..core import Prop, require
from satisfy import expression as X


@st.composite
def cases(draw, tier):
    names = exprs.some_names(draw, [1, 2, 3, 2, 3, 4], tricky=False)
    params = ["p0", "p1"]
    tree = draw(exprs.trees(names, params, size=12 if tier == "quick" else 30))
    if draw(st.integers(0, 19)) == 0:
        tree = ["chain", draw(st.sampled_from(["+", "-", "*"])), draw(st.integers(2, 60)), tree,
                draw(exprs.trees(names, params, size=2))]
    value = st.one_of(exprs.VALUE, st.sampled_from([0, 1, -1, 2]))
    return {
        "names": names, "tree": tree,
        "subs": draw(st.lists(st.lists(value, min_size=len(names), max_size=len(names)), min_size=2, max_size=5)),
        "params": draw(st.lists(value, min_size=2, max_size=2)),
    }


def build_case(case):
    """-> expression, or None when building legitimately raises ZeroDivisionError: simplification can only
    expose a division by zero that no substitution avoids."""
    variables = {n: X.Variable(n) for n in case["names"]}
    values = dict(zip(("p0", "p1"), case["params"]))
    params = {n: X.Parameter(n, v) for n, v in values.items()}
    if exprs.has_const_undefined(case["tree"]):
        return None, values, params
    try:
        return exprs.build_expr(case["tree"], variables, params), values, params
    except ZeroDivisionError:
        for sub in case["subs"] + [[k] * len(case["names"]) for k in (1, 2, 3, 5, -7)]:
            env = dict(zip(case["names"], sub))
            require(not exprs.all_defined(case["tree"], env, values),
                    "building raises ZeroDivisionError although the expression is defined under {}", env)
        return None, values, params


class C08(Prop):
    id = "C08"
    rule = ("random operator trees (up to 12 / 30 leaves: all operators, plain integers on either side, nested sums and "
            "products, parameters, chains) x 2-5 substitutions; every operator with every pair of some dozens of kinds of operands; non-trivial: at least 3 operators and a substitution on "
            "which every subexpression is defined")
    oracle = "independent evaluator: plain Python integer arithmetic over the specification tree"
    quick = 30000
    thorough = 400000

    def strategy(self, tier):
        return cases(tier)

    def fixed(self, tier):
        return exprs.pair_cases([2, -3, 5] if tier == "quick" else [2, -3, 5, -1, 4, 12], [-7, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 10])

    def check(self, case, rec):
        if "pair" in case:
            for tree in exprs.pair_trees(case):
                self.check(dict({k: x for k, x in case.items() if k != "pair"}, tree=tree), rec)
            rec.label("operator-by-operands")
            return
        tree = case["tree"]
        expr, values, params = build_case(case)
        if expr is None:
            rec.label("skipped:undefined-everywhere")
            return
        ops = [o for o in exprs.ops_in(tree) if o not in ("v", "p", "c", "i")]
        for o in set(ops):
            rec.label("op:" + o)
        for sub in case["subs"]:
            env = dict(zip(case["names"], sub))
            if not exprs.all_defined(tree, env, values):
                rec.label("undefined-substitution")
                continue
            rec.label("evaluated")
            rec.nontrivial = rec.nontrivial or len(ops) >= 3
            want = exprs.ref_eval(tree, env, values)
            got = expr.evaluate(env)
            require(isinstance(got, int) and got == want, "{} evaluates to {!r} instead of {!r} under {}, parameters {}",
                    expr, got, want, env, values)


PROP = C08()
