from hypothesis import strategies as st

from .. import exprs
from ..core import Prop, require
from satisfy.constraint import ExpressionConstraint
from .c08 import build_case


@st.composite
def cases(draw, tier):
    names = exprs.some_names(draw, [1, 2, 3, 2, 3, 5])
    params = ["p0", "p1"]
    tree = draw(exprs.trees(names, params, size=12 if tier == "quick" else 30))
    value = st.one_of(exprs.VALUE, st.sampled_from([0, 1, -1, 2]))
    n = len(names)
    return {
        "names": names, "tree": tree,
        "subs": draw(st.lists(st.lists(value, min_size=n, max_size=n), min_size=2, max_size=4)),
        "params": draw(st.lists(value, min_size=2, max_size=2)),
        "bound": draw(st.lists(st.lists(st.booleans(), min_size=n, max_size=n), min_size=1, max_size=3)),
        "bind_params": draw(st.booleans()),
    }


class C10(Prop):
    id = "C10"
    rule = ("random operator trees x full and partial substitutions; every operator with every pair of some dozens of kinds of operands; non-trivial: at least 2 variables and 2 operators "
            "and a proper non-empty part of the variables bound")
    oracle = ("names occurring in the specification tree; independent evaluator with everything but the reported "
              "variables left out; set difference for free variables")
    quick = 20000
    thorough = 250000

    def strategy(self, tier):
        return cases(tier)

    def fixed(self, tier):
        return exprs.pair_cases([3] if tier == "quick" else [2, -3, 5, -1], [-2, -1, 0, 1, 3], bound=[[True, False, False], [False, True, True]], bind_params=True)

    def check(self, case, rec):
        if "pair" in case:
            for tree in exprs.pair_trees(case):
                self.check(dict({k: x for k, x in case.items() if k != "pair"}, tree=tree), rec)
            rec.label("operator-by-operands")
            return
        tree = case["tree"]
        expr, values, params = build_case(case)
        if expr is None:
            rec.label("skipped:undefined-everywhere")
            return
        syntactic = exprs.names_in(tree)
        ops = [o for o in exprs.ops_in(tree) if o not in ("v", "p", "c", "i")]
        vs = list(expr.vars())
        require(len(vs) == len(set(vs)), "{} reports a variable twice: {}", expr, vs)
        require(set(vs) <= syntactic, "{} reports {} but mentions only {}", expr, vs, sorted(syntactic))
        con = ExpressionConstraint(expr)
        require(set(con.vars()) == set(vs) and len(list(con.vars())) == len(vs),
                "constraint on {} reports {} instead of {}", expr, con.vars(), vs)
        rec.label("vars={}".format(min(len(vs), 3)))
        rec.label_if(set(vs) != syntactic, "variable-simplified-away")
        pnames = {n: 77 for n in values} if case["bind_params"] else {}
        for sub in case["subs"]:
            env = dict(zip(case["names"], sub))
            if not exprs.all_defined(tree, env, values):
                continue
            want = exprs.ref_eval(tree, env, values)
            only = {n: env[n] for n in vs}
            got = expr.evaluate(only)
            require(got == want, "{}: {} with only its reported variables {} bound, {} expected (others {})",
                    expr, got, only, want, env)
            got = expr.evaluate(dict(only, **pnames))
            require(got == want, "{}: parameter overridden by the substitution: {} instead of {}", expr, got, want)
        for mask in case["bound"]:
            env = dict(zip(case["names"], case["subs"][0]))
            part = {n: env[n] for n, m in zip(case["names"], mask) if m}
            part.update(pnames)
            free = list(expr.free_vars(part))
            require(len(free) == len(set(free)) and set(free) == set(vs) - set(part),
                    "{}: free variables under {} are {}, its variables {}", expr, part, free, vs)
            cfree = list(con.free_vars(part))
            require(len(cfree) == len(set(cfree)) and set(cfree) == set(vs) - set(part),
                    "constraint on {}: free variables under {} are {}", expr, part, cfree)
            if free and not {"&", "|"} & set(ops):
                rec.label("unbound-variable")
                try:
                    got = expr.evaluate(part)
                except Exception:
                    pass
                else:
                    require(False, "{} evaluates to {!r} under {} although {} are unbound", expr, got, part, free)
            rec.nontrivial = rec.nontrivial or (len(vs) >= 2 and len(ops) >= 2 and 0 < len(free) < len(vs))


PROP = C10()
