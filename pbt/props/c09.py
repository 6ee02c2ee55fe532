from hypothesis import strategies as st

from .. import exprs
from ..core import Prop, require
from satisfy import expression as X
from satisfy.constraint import ExpressionConstraint
from .c08 import build_case


@st.composite
def cases(draw, tier):
    names = exprs.some_names(draw, [1, 2, 3, 2, 3, 4])
    params = ["p0", "p1"]
    tree = draw(exprs.trees(names, params, size=12 if tier == "quick" else 30))
    z = draw(st.integers(0, 29))
    if z < 3:
        # deep: beyond what the Python parser nests (about 200 parentheses)
        n = draw(st.sampled_from([5, 40, 60, 90, 100, 150, 195, 200, 205, 250]))
        tree = ["chain", draw(st.sampled_from(["-", "-", "+", "*", "%", "&", "|", "==", "<", "!="])), n, tree,
                draw(exprs.trees(names, params, size=2))]
    value = st.one_of(exprs.VALUE, st.sampled_from([0, 1, -1, 2]))
    return {
        "names": names, "tree": tree,
        "subs": draw(st.lists(st.lists(value, min_size=len(names), max_size=len(names)), min_size=2, max_size=5)),
        "params": draw(st.lists(value, min_size=2, max_size=2)),
        "extra": draw(st.dictionaries(exprs.NAME.filter(lambda n: n not in names), exprs.VALUE, max_size=2)),
    }


def outcome(fn):
    try:
        return ("value", fn())
    except (ZeroDivisionError, ValueError, OverflowError, X.EvaluationError, TypeError, NameError, SyntaxError,
            AttributeError) as e:
        return ("error", type(e).__name__, str(e))


class C09(Prop):
    id = "C09"
    rule = ("random operator trees over ordinary and awkward variable names (keywords, builtins, unicode letters that "
            "Python normalises), parameters of either sign, nesting beyond what the Python parser takes, x substitutions "
            "with extra names and with undefined operations; every operator with every pair of some dozens of kinds of operands; non-trivial: at least 3 operators")
    oracle = "differential: compiled function against direct evaluation (and the independent evaluator where defined)"
    quick = 20000
    thorough = 250000

    def strategy(self, tier):
        return cases(tier)

    def fixed(self, tier):
        return exprs.pair_cases([3] if tier == "quick" else [2, -3, 5, -1], [-2, 0, 1, 3], extra={})

    def check(self, case, rec):
        if "pair" in case:
            for tree in exprs.pair_trees(case):
                self.check(dict({k: x for k, x in case.items() if k != "pair"}, tree=tree), rec)
            rec.label("operator-by-operands")
            return
        tree = case["tree"]
        expr, values, params = build_case(case)
        if expr is None:
            rec.label("skipped:undefined-everywhere")
            return
        ops = [o for o in exprs.ops_in(tree) if o not in ("v", "p", "c", "i")]
        for o in set(ops):
            rec.label("op:" + o)
        rec.label_if(exprs.depth(tree) > 100, "deep")
        rec.label_if(any(n in exprs.TRICKY for n in exprs.names_in(tree)), "tricky-name")
        fns = {"as_function()": expr.as_function()}
        try:
            fns["compile_py_function()"] = expr.compile_py_function()
            rec.label("compilable")
        except Exception:
            rec.label("not-compilable")
        constraint = ExpressionConstraint(expr)
        constraint.compile()
        for sub in case["subs"]:
            env = dict(zip(case["names"], sub))
            rec.nontrivial = rec.nontrivial or len(ops) >= 3
            full = dict(env, **case["extra"])
            want = outcome(lambda: expr.evaluate(full))
            rec.label(want[0])
            try:
                ref = exprs.ref_eval(tree, env, values)
                if exprs.all_defined(tree, env, values):
                    require(want == ("value", ref), "{} evaluates to {} instead of {} under {}", expr, want, ref, env)
            except exprs.Undefined:
                pass
            for label, fn in fns.items():
                for e in (env, full):
                    got = outcome(lambda: fn(**e))
                    require(got[:2] == want[:2], "{} of {}: {} but evaluate gives {} under {}, parameters {}",
                            label, expr, got, want, e, values)
            got = outcome(lambda: constraint.evaluate(full))
            require(got[:2] == want[:2], "compiled constraint {}: {} but evaluate gives {} under {}", expr, got, want, full)
            if want[0] == "value":
                for comp in ("compiled", "uncompiled"):
                    c = ExpressionConstraint(expr)
                    if comp == "compiled":
                        c.compile()
                    require(bool(c.unsatisfied(full)) == (not want[1]), "{} constraint {}: unsatisfied is {} but the "
                            "expression evaluates to {} under {}", comp, expr, c.unsatisfied(full), want[1], full)


PROP = C09()
