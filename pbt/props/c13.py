from hypothesis import strategies as st

from .. import exprs
from .. import models as M
from ..core import Prop, require
from satisfy import expression as X
from satisfy.constraint import ExpressionConstraint, AllDifferentConstraint, ConstConstraint


@st.composite
def cases(draw, tier):
    n = draw(st.sampled_from([3, 2, 1, 3, 4, 5, 3, 4, 2, 9]))
    if draw(st.integers(0, 24)) == 24:
        n = draw(st.integers(10, 30 if tier == "quick" else 80))
    names = draw(exprs.names(n, n)) if n < 9 else ["x{}".format(i) for i in draw(st.permutations(range(5, 5 + n)))]
    kind = draw(st.sampled_from(["expr", "expr", "expr", "alldiff", "alldiff", "alldiff", "const", "custom"]))
    case = {"names": names, "kind": kind}
    if kind == "expr":
        case["tree"] = draw(exprs.trees(names, (), size=10, total=True))
    elif kind == "const":
        case["value"] = draw(st.booleans())
    else:
        case["over"] = draw(st.one_of(
            st.permutations(names).map(list),
            st.lists(st.sampled_from(names), min_size=1, max_size=n + 1)))
        if kind == "custom" and n > 9:
            case["mod"] = draw(st.integers(2, 40))
        case["mod"], case["rem"] = draw(st.integers(2, 4)), draw(st.integers(0, 1))
    value = st.one_of(st.integers(-2, 3), st.integers(-2, 3), exprs.VALUE)
    case["ops"] = draw(st.lists(st.one_of(
        st.sampled_from([["compile"], ["uncompile"], ["compile"], ["uncompile"], ["function"]]),
        st.tuples(st.just("query"), st.lists(st.one_of(value, value, value, st.none()), min_size=n, max_size=n)).map(list),
        st.tuples(st.just("query"), st.lists(value, min_size=n, max_size=n)).map(list),
        # all different, but for two of them perhaps
        st.tuples(st.just("query"), st.tuples(st.permutations(range(n)), st.integers(0, n - 1), st.integers(0, n - 1)).map(
            lambda t: [t[0][t[1]] if i == t[2] else x for i, x in enumerate(t[0])])).map(list),
        # the values of the query before, handed to other variables and in another order
        st.tuples(st.just("again"), st.integers(0, n - 1), st.integers(0, n - 1), st.booleans()).map(list)),
        min_size=5, max_size=10))
    case["extra"] = draw(st.dictionaries(exprs.NAME.filter(lambda x: x not in names), exprs.VALUE, max_size=2))
    return case


class C13(Prop):
    id = "C13"
    rule = ("random constraints of every kind x sequences of compile / uncompile / queries on partial and full "
            "assignments with and without extra names; non-trivial: a query with all variables bound and one with some, "
            "but not all, bound")
    oracle = "unsatisfied = all reported variables bound and the independent evaluation is false"
    quick = 25000
    thorough = 300000

    def strategy(self, tier):
        return cases(tier)

    def check(self, case, rec):
        names, kind = case["names"], case["kind"]
        if kind == "expr":
            variables = {n: X.Variable(n) for n in names}
            tree = case["tree"]
            con = ExpressionConstraint(exprs.build_expr(tree, variables, {}))
            over = exprs.names_in(tree)
            truth = lambda env: bool(exprs.ref_eval(tree, env, {}))
        elif kind == "alldiff":
            con = AllDifferentConstraint(case["over"])
            over = set(case["over"])
            truth = lambda env: all(env[a] != env[b] for a in over for b in over if a != b)
        elif kind == "const":
            con, over, truth = ConstConstraint(case["value"]), set(), lambda env: case["value"]
        else:
            con = M.ModConstraint(case["over"], case["mod"], case["rem"])
            over = set(case["over"])
            truth = lambda env: sum(env[n] for n in case["over"]) % case["mod"] != case["rem"]
        rec.label("kind:" + kind, "vars={}".format(min(4, len(over))))
        reported = set(con.vars())
        require(reported <= over, "reports {} but mentions only {}", reported, over)
        if kind != "expr":
            require(reported == over, "reports {} instead of {}", reported, over)
        seen = set()
        compiled = False
        last = None
        for op in case["ops"]:
            if op[0] == "function":
                # what a caller may evaluate on his own
                if kind != "expr" or last is None or None in last:
                    continue
                env = dict(zip(names, last))
                got = con.evaluate_function()(**env)
                require(bool(got) == truth(env), "{}: its function gives {!r} under {}", con, got, env)
                compiled = True
                rec.label("function")
                continue
            if op[0] not in ("query", "again"):
                getattr(con, op[0])()
                compiled = op[0] == "compile"
                rec.label(op[0])
                continue
            order = list(range(len(names)))
            if op[0] == "query":
                last = op[1]
            elif last is None:
                continue
            else:
                last = last[op[1]:] + last[:op[1]]
                order = order[op[2]:] + order[:op[2]]
                if op[3]:
                    order.reverse()
                rec.label("same-values-again")
            env = {names[i]: last[i] for i in order if last[i] is not None}
            for e in (env, dict(env, **case["extra"])):
                before = dict(e)
                got = con.unsatisfied(e)
                require(e == before, "query changed the substitution")
                if reported <= set(e):
                    # what is left out does not matter: any value will do
                    want = not truth({n: e.get(n, 1) for n in over})
                    require(bool(got) == want, "{} ({}): unsatisfied is {!r} instead of {} under {}",
                            con, "compiled" if compiled else "interpreted", got, want, e)
                    val = con.evaluate(e)
                    require(bool(val) == (not want), "{}: evaluates to {!r}, expected {} under {}", con, val, not want, e)
                    seen.add("full")
                    rec.label("violated" if want else "satisfied")
                else:
                    require(not got, "{} rejects {} although {} are not bound", con, e, reported - set(e))
                    if reported & set(e):
                        seen.add("partial")
                    rec.label("open")
                free = list(con.free_vars(e))
                require(sorted(free) == sorted(reported - set(e)), "free variables {} under {} of {}", free, e, reported)
        rec.nontrivial = len(seen) == 2


PROP = C13()
