"""Model specifications: JSON -> satisfy.Model, and their reference solution sets.

spec = {"vars": [{"name": str|None, "kind": list|tuple|range|set|frozenset|bool, "dom": [..]}],
        "params": [{"name": str, "value": int}],
        "cons": [CON...], "extra": [CON...]}        (extra: passed per solve call)
CON  = ["expr", EXPR] | ["alldiff", [i...]] | ["const", bool] | ["custom", [i...], mod, rem]
       (custom: user-defined constraint, satisfied iff sum(values) % mod != rem)
Expressions refer to variables by index: ["v", i]; parameters by index: ["p", i].
"""
import collections
import itertools

from hypothesis import strategies as st

from . import env  # noqa: F401
from . import exprs
from .core import require

import satisfy
from satisfy import Model, Solver, ModelSolver, VarSelectionPolicy
from satisfy.constraint import Constraint, ExpressionConstraint, AllDifferentConstraint, ConstConstraint

POLICIES = ["ORDERED", "REVERSED", "RANDOM", "GROUPS", "MIN_BOUND", "MAX_BOUND", "MIN_CONSTRAINT", "MAX_CONSTRAINT"]


class ModConstraint(Constraint):
    """A user-defined constraint: sum of the values must not be congruent to rem."""

    def __init__(self, names, mod, rem):
        super().__init__(names)
        self._names = list(names)
        self._mod = mod
        self._rem = rem

    def evaluate(self, substitution):
        return sum(substitution[n] for n in self._names) % self._mod != self._rem

    def __repr__(self):
        return "custom"         # all of them: the text of a constraint is no key


def domain_object(kind, dom):
    if kind == "range":
        if len(dom) > 1:
            return range(dom[0], dom[-1] + (1 if dom[1] > dom[0] else -1), dom[1] - dom[0])
        return range(dom[0], dom[0] + 1) if dom else range(0)
    return {"list": list, "tuple": tuple, "set": set, "frozenset": frozenset, "deque": collections.deque,
            "dict": dict.fromkeys, "keys": lambda d: dict.fromkeys(d).keys()}[kind](dom)


class Built(object):
    pass


def build_con(c, b):
    k = c[0]
    if k == "expr":
        return exprs.build_expr(c[1], b.vars, b.params)
    if k == "alldiff":
        return AllDifferentConstraint([b.vars[i].name for i in c[1]])
    if k == "const":
        return ConstConstraint(c[1])
    if k == "custom":
        return ModConstraint([b.vars[i].name for i in c[1]], c[2], c[3])
    raise ValueError(k)


def build(spec, only_vars=False):
    b = Built()
    b.model = Model()
    b.params = {}
    b.vars = {}
    for i, p in enumerate(spec.get("params", ())):
        b.params[i] = b.model.add_parameter(p["value"], name=p["name"])
    for i, v in enumerate(spec["vars"]):
        if v["kind"] == "bool":
            b.vars[i] = b.model.add_bool_variable(name=v["name"])
        else:
            b.vars[i] = b.model.add_int_variable(domain_object(v["kind"], v["dom"]), name=v["name"])
    b.names = [b.vars[i].name for i in range(len(spec["vars"]))]
    if not only_vars:
        for c in spec["cons"]:
            add(b, c)
        b.extra = extra_constraints(b, spec.get("extra", ()))
    return b


def add(b, c):
    if c[0] == "alldiff":
        b.model.add_all_different_constraint([b.vars[i] for i in c[1]])
    elif c[0] == "const":
        b.model.add_constraint(c[1])
    else:
        b.model.add_constraint(build_con(c, b))


def extra_constraints(b, cons):
    res = []
    for c in cons:
        o = build_con(c, b)
        if not isinstance(o, Constraint):
            o = ExpressionConstraint(o)
        res.append(o)
    return res


def passed(constraints, i):
    """Additional constraints, as one of the iterables a caller may pass."""
    return [list, tuple, iter, lambda x: (c for c in x)][i % 4](constraints)


def con_holds(c, values, params):
    """values: index -> value (a list)."""
    k = c[0]
    if k == "expr":
        return bool(exprs.ref_eval(c[1], values, params))
    if k == "alldiff":
        idx = sorted(set(c[1]))
        return all(values[i] != values[j] for i, j in itertools.combinations(idx, 2))
    if k == "const":
        return bool(c[1])
    if k == "custom":
        return sum(values[i] for i in c[1]) % c[2] != c[3]
    raise ValueError(k)


def con_vars(c):
    if c[0] == "expr":
        return exprs.names_in(c[1])
    if c[0] in ("alldiff", "custom"):
        return set(c[1])
    return set()


class Listing(list):
    """A list that answers the dict-style lookups of ref_eval."""


def param_values(spec):
    return [p["value"] for p in spec.get("params", ())]


def ref_solutions(spec, params=None, cons=None):
    """All solutions, as tuples of values in declaration order."""
    if params is None:
        params = param_values(spec)
    if cons is None:
        cons = list(spec["cons"]) + list(spec.get("extra", ()))
    n = len(spec["vars"])
    # check each constraint as soon as its variables are bound (declaration order)
    at = [[] for _ in range(n + 1)]
    for c in cons:
        vs = con_vars(c)
        at[max(vs) + 1 if vs else 0].append(c)
    res = []
    values = [None] * n
    if not all(con_holds(c, values, params) for c in at[0]):
        return res

    def rec(i):
        if i == n:
            res.append(tuple(values))
            return
        for v in spec["vars"][i]["dom"]:
            values[i] = v
            if all(con_holds(c, values, params) for c in at[i + 1]):
                rec(i + 1)
        values[i] = None
    rec(0)
    return res


def as_tuple(solution, b):
    """Solution dict -> tuple in declaration order; requires exactly the variable names."""
    require(isinstance(solution, dict) or hasattr(solution, "keys"), "solution is not a mapping: {!r}", solution)
    require(set(solution) == set(b.names) and len(solution) == len(b.names),
            "solution assigns {} instead of {}", sorted(map(str, solution)), sorted(b.names))
    return tuple(solution[n] for n in b.names)


def policy(name):
    return VarSelectionPolicy[name]


# ------------------------------------------------------------------ generators

@st.composite
def domains(draw, max_size=4, min_size=0):
    kind = draw(st.sampled_from(["list", "list", "tuple", "range", "range", "set", "frozenset", "bool"]))
    if kind == "tuple" and draw(st.integers(0, 3)) == 3:
        kind = draw(st.sampled_from(["deque", "dict", "keys"]))
    if kind == "bool":
        return {"kind": "bool", "dom": [0, 1]}
    n = draw(st.sampled_from([1] + [2, 3, 4, 5][:max_size - 1] * 4))
    if min_size == 0 and draw(st.integers(0, 49)) == 49:
        n = 0
    style = draw(st.integers(0, 5))
    if kind == "range" or style <= 2:
        start = draw(st.integers(-3, 3)) if style <= 3 else draw(st.integers(-300, 300))
        step = 1 if style <= 2 else draw(st.sampled_from([1, 1, 2, 3, -1]))
        dom = [start + i * step for i in range(n)]
        if kind != "range" and n > 1:
            dom = draw(st.permutations(dom))
    else:
        el = st.integers(-5, 6) if style <= 4 else st.integers(-10 ** 6, 10 ** 6)
        if style == 5 and draw(st.integers(0, 2)) == 0:
            # beyond what a float distinguishes
            big = draw(st.sampled_from([2 ** 53, 2 ** 63, -2 ** 64, 10 ** 20, -10 ** 17]))
            el = st.integers(big - 4, big + 4)
        dom = draw(st.lists(el, min_size=n, max_size=n, unique=True))
    return {"kind": kind, "dom": list(dom)}


@st.composite
def model_specs(draw, max_vars=5, max_dom=4, max_space=500, max_cons=5, params=True, extra=True,
                min_vars=0, custom=True, plain_names=False, planted=None, min_dom=0, shape=None):
    if shape is None:
        shape = draw(st.integers(0, 19))      # 19: many small variables; 18: few variables with many values
    if shape == 19 and max_vars >= 4:
        nv = draw(st.integers(max(min_vars, 6), 12))
        max_dom = min_dom = 2
    elif shape == 18 and min_vars <= 2:
        nv = draw(st.integers(max(1, min_vars), 2))
    else:
        shape = 0
        nv = draw(st.sampled_from([n for n in ([0, 1, 2, 2, 3, 3, 3, 4, 4, 4, 5, 5, 6, 7]) if min_vars <= n <= max_vars]))
    names = draw(exprs.names(nv, nv, tricky=not plain_names and draw(st.integers(0, 3)) == 0)) \
        if nv <= len(exprs.ORDINARY) else ["x{}".format(i) for i in range(nv)]
    vs = []
    space = 1
    for i in range(nv):
        room = max(1, max_space // space)
        if shape == 18:
            n = draw(st.integers(6, max(6, min(120, int(max_space ** (1 / nv))))))
            if draw(st.booleans()):
                start, step = draw(st.integers(-60, 300)), draw(st.sampled_from([1, 1, 2, -1, 7]))
                dom = [start + i * step for i in range(n)]
                d = {"kind": draw(st.sampled_from(["range", "list", "tuple", "set"])), "dom": dom}
            else:
                d = {"kind": draw(st.sampled_from(["list", "tuple"])), "dom": draw(st.lists(
                    st.integers(-300, 300), min_size=n, max_size=n, unique=True))}
            vs.append(dict(d, name=names[i]))
            continue
        d = draw(domains(max_size=max(2, min(max_dom, room)), min_size=min_dom))
        if len(d["dom"]) > room and len(d["dom"]) > 1:
            d = {"kind": "list", "dom": d["dom"][:room]}
        space *= max(1, len(d["dom"]))
        name = names[i]
        if draw(st.integers(0, 7)) == 0:
            name = None
        vs.append(dict(d, name=name))
    ps = []
    if params:
        for i in range(draw(st.sampled_from([0, 0, 0, 1, 2]))):
            ps.append({"name": "par{}".format(i), "value": draw(st.integers(-4, 6))})
    spec = {"vars": vs, "params": ps, "cons": [], "extra": []}
    # a planted assignment: most constraints are made true for it
    plant = None
    if nv and all(v["dom"] for v in vs) and (planted or draw(st.integers(0, 5)) != 0):
        plant = [draw(st.sampled_from(v["dom"])) for v in vs]
    ncons = draw(st.integers(0, max_cons))
    for _ in range(ncons):
        c = draw(constraints(spec, plant, custom))
        spec["cons"].append(c)
    if extra and draw(st.integers(0, 3)) == 0:
        for _ in range(draw(st.integers(1, 2))):
            spec["extra"].append(draw(constraints(spec, plant, custom)))
    return spec


@st.composite
def chains(draw, tier, lo=13, hi=None, most=250):
    """(spec, configuration): 13-40 (60) variables in a chain, each one more or less fixed by its neighbour, so that there are
    few solutions, and few partial assignments under the policies chosen."""
    n = draw(st.integers(lo, hi or (40 if tier == "quick" else 60)))
    m = draw(st.integers(2, 4))
    base = draw(st.integers(-2, 3))
    dom = [base + k for k in range(m)]
    style = draw(st.sampled_from(["x", "v_", "w"]))
    vs = [{"name": style + str(i) if draw(st.integers(0, 9)) else None, "kind": draw(st.sampled_from(["list", "tuple", "range"])),
           "dom": list(dom)} for i in range(n)]
    count = {v: 1 for v in dom}        # of the ways from the left end
    holds = []
    cons = []
    for i in range(n - 1):
        a, b = ["v", i], ["v", i + 1]
        shift = draw(st.integers(1, m - 1))
        ways = [(["==", b, ["+", ["%", ["+", a, ["i", shift - base]], ["i", m]], ["i", base]]],
                 lambda u, v, shift=shift: v == (u + shift - base) % m + base),
                (["==", a, b], lambda u, v: u == v),
                (["<=", a, b], lambda u, v: u <= v),
                ([">=", a, b], lambda u, v: u >= v),
                (["!=", a, b], lambda u, v: u != v)]
        k = draw(st.sampled_from([0, 0, 1, 2, 2, 3, 4]))
        nxt = {v: sum(c for u, c in count.items() if ways[k][1](u, v)) for v in dom}
        if not 0 < sum(nxt.values()) <= most:
            k = 0
            nxt = {v: sum(c for u, c in count.items() if ways[0][1](u, v)) for v in dom}
        count = nxt
        holds.append(ways[k][1])
        cons.append(["expr", ways[k][0]])
    back = {v: 1 for v in dom}
    widest = 0
    for h in reversed(holds):
        back = {u: sum(c for v, c in back.items() if h(u, v)) for u in dom}
        widest = max(widest, sum(back.values()))
    policies = ["ORDERED", "MIN_BOUND", "MAX_BOUND"]
    if widest > 4 * most or draw(st.booleans()):
        # one more relation across, and one on a single variable
        i, j = draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))
        cons.append(["expr", [draw(st.sampled_from(["<=", "!=", "=="])), ["v", i], ["+", ["v", j], ["i", draw(st.integers(-1, 1))]]]])
        cons.append(["custom", [draw(st.integers(0, n - 1))], draw(st.integers(2, 3)), draw(st.integers(0, 1))])
    else:
        policies += ["REVERSED", "GROUPS", "MIN_CONSTRAINT", "MAX_CONSTRAINT"]
    spec = {"vars": vs, "params": [], "cons": list(draw(st.permutations(cons))) if draw(st.booleans()) else cons, "extra": []}
    return spec, {"policy": draw(st.sampled_from(policies)), "compile": draw(st.booleans())}


def _long(draw, i):
    """A name of unusual length (names may be of any length)."""
    n = draw(st.sampled_from([20, 33, 40, 64, 65, 130, 260]))
    return (("x" * n) + "_{}".format(i)) if draw(st.booleans()) else "q{}_".format(i) + "y" * n


@st.composite
def scaled_specs(draw, tier, most=250, extra=True, kinds=("wide", "wide", "domain", "constraints", "groups")):
    """Specifications that are large in one dimension and small in number of assignments left:
    wide: constraints over 8-30 (60) variables, most of which are fixed (by their domain, or by a constraint);
    domain: hundreds (thousands) of values for a variable; constraints: dozens of constraints over few variables;
    groups: many all-different constraints over overlapping sets."""
    kind = draw(st.sampled_from(kinds))
    top = tier != "quick"
    cons = []
    if kind == "domain":
        n = draw(st.integers(120, 3000 if top else 1100))
        start, step = draw(st.integers(-500, 500)), draw(st.sampled_from([1, 1, 2, -1, 5]))
        dom = [start + i * step for i in range(n)]
        vs = [{"name": "x", "kind": draw(st.sampled_from(["range", "list", "tuple", "set"])), "dom": dom}]
        plant = [dom[draw(st.integers(0, n - 1)) if draw(st.booleans()) else n - 1]]
        for k in range(draw(st.integers(0, 2))):
            small = draw(domains(max_size=3, min_size=1))
            vs.append(dict(small, name="yz"[k]))
            plant.append(draw(st.sampled_from(small["dom"])))
            cons.append(["expr", [draw(st.sampled_from(["==", "=="])), ["v", 0], ["+", ["v", k + 1], ["i", plant[0] - plant[-1]]]]])
        if len(vs) == 1 or draw(st.booleans()):
            m = draw(st.integers(2, 40))
            cons.append(draw(st.sampled_from([
                ["expr", ["==", ["%", ["v", 0], ["i", m]], ["i", plant[0] % m]]], ["custom", [0], m, (plant[0] + 1) % m],
                ["expr", ["!=", ["v", 0], ["i", plant[0] + step]]], ["expr", [">=", ["v", 0], ["i", plant[0]]]]])))
        spec = {"vars": vs, "params": [], "cons": cons, "extra": []}
        return spec
    if kind == "constraints":
        spec = draw(model_specs(max_vars=4, min_vars=2, max_dom=4, max_cons=4, max_space=min(most, 120), planted=True, min_dom=2,
                                extra=extra, shape=0))
        n = len(spec["vars"])
        plant = [draw(st.sampled_from(v["dom"])) for v in spec["vars"]]
        spec["cons"] = []
        for _ in range(draw(st.integers(12, 80 if top else 40))):
            z = draw(st.integers(0, 3))
            i, j = draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))
            if z == 0:
                spec["cons"].append(draw(constraints(spec, plant)))
            elif z == 1:
                t = draw(st.sampled_from(spec["vars"][j]["dom"]))
                e = ["|", ["!=", ["v", i], ["i", plant[i]]], ["!=", ["v", j], ["i", t]]] if t != plant[j] else \
                    ["<=", ["v", j], ["i", t]]
                spec["cons"].append(["expr", e])
            else:
                d = plant[i] - plant[j]
                spec["cons"].append(["expr", [draw(st.sampled_from(["<=", "!="])), ["v", i],
                                              ["+", ["v", j], ["i", d + draw(st.integers(1, 4))]]]])
        return spec
    n = draw(st.integers(8, 60 if top else 30))
    style = draw(st.integers(0, 3))
    distinct = kind == "groups" or draw(st.booleans())
    plant = list(draw(st.permutations(range(n)))) if distinct else [draw(st.integers(-2, 3)) for _ in range(n)]
    room = most
    vs = []
    where = draw(st.sampled_from(["any", "first", "last"]))
    for i in range(n):
        z = draw(st.integers(0, 3)) if where == "any" or (i < 6 if where == "first" else i >= n - 6) else 1
        name = None if draw(st.integers(0, 15)) == 0 else _long(draw, i) if style == 3 else ["x{}", "v_{}", "w{}_"][style].format(i)
        k = draw(st.integers(2, 4))
        if z == 0 and room >= k:                # free
            room //= k
            others = draw(st.permutations(sorted(set(plant)) + [99, 100, 101]))
            dom = [plant[i]] + [v for v in others if v != plant[i]][:k - 1]
            dom = list(draw(st.permutations(dom)))
        elif z == 2:                            # fixed by a constraint
            dom = list(draw(st.permutations([plant[i], plant[i] + 1, plant[i] - 2, 5000])))
            cons.append(["expr", ["==", ["v", i], ["i", plant[i]]]])
        else:
            dom = [plant[i]]
        vs.append({"name": name, "kind": draw(st.sampled_from(["list", "tuple", "set"])), "dom": dom})
    spec = {"vars": vs, "params": [], "cons": cons, "extra": []}
    target = spec["extra"] if extra and draw(st.integers(0, 7)) == 0 else cons
    for _ in range(draw(st.integers(1, 3)) if kind == "wide" else draw(st.integers(4, 20))):
        k = draw(st.integers(2, n)) if kind == "groups" else n - draw(st.integers(0, min(3, n - 2)))
        chosen = list(draw(st.permutations(range(n)))[:k])
        z = draw(st.integers(0, 4)) if kind == "wide" else 0
        if z <= 1 and not distinct:
            z = 2
        total = sum(plant[i] for i in chosen)
        if z <= 1:
            target.append(["alldiff", chosen])
        elif z == 2:
            mod = draw(st.integers(2, 7))
            target.append(["custom", chosen, mod, (total + draw(st.integers(1, mod - 1))) % mod])
        elif z == 3:
            coef = [draw(st.sampled_from([1, 1, 1, -1, 2])) for _ in chosen]
            terms = [["v", i] if c == 1 else ["*", ["i", c], ["v", i]] for c, i in zip(coef, chosen)]
            lhs = [draw(st.sampled_from(["sum", "Sum"])), terms]
            if draw(st.booleans()):
                lhs = terms[0]
                for t in terms[1:]:
                    lhs = ["+", lhs, t]
            op = draw(st.sampled_from(["==", "<=", ">=", "!="]))
            off = {"==": 0, "<=": 1, ">=": -1, "!=": 2}[op]
            target.append(["expr", [op, lhs, ["i", sum(c * plant[i] for c, i in zip(coef, chosen)) + off]]])
        else:
            e = None
            op = draw(st.sampled_from(["&", "|"]))
            for i in chosen:
                r = ["<=", ["v", i], ["i", plant[i]]] if op == "&" else [">", ["v", i], ["i", plant[i]]]
                e = r if e is None else [op, e, r]
            if op == "|":
                e = ["|", e, ["==", ["v", chosen[0]], ["i", plant[chosen[0]]]]]
            target.append(["expr", e])
    return spec


def mixed_specs(tier, normal, rate=40, **kw):
    """Mostly `normal`; one in `rate` large in one dimension."""
    scaled = scaled_specs(tier, **kw)
    return st.integers(0, rate - 1).flatmap(lambda k: scaled if k == rate - 1 else normal)


def _linear(draw, idx, params):
    """A small arithmetic expression over some of the given variables."""
    k = draw(st.integers(1, min(3, len(idx))))
    chosen = draw(st.permutations(idx))[:k]
    terms = []
    for i in chosen:
        t = ["v", i]
        z = draw(st.integers(0, 9))
        if z <= 2:
            coef = [draw(st.sampled_from(["i", "c"])), draw(st.integers(-4, 5))]
            t = ["*", t, coef] if draw(st.booleans()) else ["*", coef, t]
        elif z == 3:
            t = ["neg", t]
        elif z == 4:
            t = ["abs", t]
        elif z == 5:
            t = ["**", t, ["i", 2]]
        elif z == 6:
            t = ["%", t, ["i", draw(st.integers(2, 4))]]
        terms.append(t)
    if params and draw(st.integers(0, 2)) == 0:
        terms.append(["p", draw(st.integers(0, len(params) - 1))])
    if draw(st.integers(0, 5)) == 0:
        return ["sum", terms]
    e = terms[0]
    for t in terms[1:]:
        e = [draw(st.sampled_from(["+", "+", "+", "-", "*"])), e, t]
    return e


REL_TRUE = {"==": lambda d: d == 0, "!=": lambda d: d != 0, "<": lambda d: d < 0, "<=": lambda d: d <= 0,
            ">": lambda d: d > 0, ">=": lambda d: d >= 0}


def _relation(draw, idx, params, plant, pvals):
    lhs = _linear(draw, idx, params)
    op = draw(st.sampled_from(exprs.REL))
    shape = draw(st.integers(0, 3))
    if shape == 0:
        rhs = _linear(draw, idx, params)
        if plant is not None:
            diff = exprs.ref_eval(lhs, plant, pvals) - exprs.ref_eval(rhs, plant, pvals)
            if not REL_TRUE[op](diff):
                op = {"==": "!=", "!=": "==", "<": ">=", "<=": ">", ">": "<=", ">=": "<"}[op]
        return [op, lhs, rhs]
    off = draw(st.sampled_from([0, 0, 1, -1, 2, -2, 5, -5]))
    if plant is not None:
        v = exprs.ref_eval(lhs, plant, pvals)
        if op in ("==", "<=", ">="):
            off = 0 if op == "==" else (abs(off) if op == "<=" else -abs(off))
        elif op == "<":
            off = abs(off) + 1
        elif op == ">":
            off = -abs(off) - 1
        elif off == 0:
            off = 1
        const = [draw(st.sampled_from(["i", "i", "c"])), v + off]
    else:
        const = ["i", off]
    if shape == 1:
        flip = {"==": "==", "!=": "!=", "<": ">", "<=": ">=", ">": "<", ">=": "<="}[op]
        return [flip, const, lhs]
    return [op, lhs, const]


@st.composite
def constraints(draw, spec, plant, custom=True):
    nv = len(spec["vars"])
    idx = list(range(nv))
    pvals = param_values(spec)
    if nv == 0:
        return ["const", draw(st.integers(0, 3)) != 0]
    z = draw(st.integers(0, 23))
    if z <= 4:
        k = draw(st.integers(1, nv)) if z else nv
        chosen = draw(st.permutations(idx))[:k]
        if plant is not None:
            keep, seen = [], set()
            for i in chosen:
                if plant[i] not in seen:
                    seen.add(plant[i])
                    keep.append(i)
            chosen = keep
        return ["alldiff", list(chosen)]
    if z == 5:
        return ["const", True] if plant is not None or draw(st.integers(0, 2)) else ["const", False]
    if z <= 8 and custom:
        k = draw(st.integers(1, min(3, nv)))
        chosen = list(draw(st.permutations(idx))[:k])
        mod = draw(st.integers(2, 5))
        rem = draw(st.integers(0, mod - 1))
        if plant is not None and sum(plant[i] for i in chosen) % mod == rem:
            rem = (rem + 1) % mod
        return ["custom", chosen, mod, rem]
    if z <= 12:
        a = _relation(draw, idx, spec["params"], plant, pvals)
        b = _relation(draw, idx, spec["params"], plant if z == 9 else None, pvals)
        if draw(st.booleans()):
            a, b = b, a
        op = "&" if z == 9 else "|"
        e = [op, a, b]
        if draw(st.integers(0, 3)) == 0:
            c = _relation(draw, idx, spec["params"], plant, pvals)
            e = [draw(st.sampled_from(["&", "|"])), e, c] if draw(st.booleans()) else \
                [draw(st.sampled_from(["&", "|"])), c, e]
        return ["expr", e]
    if z == 13:
        k = draw(st.integers(1, nv))
        chosen = draw(st.permutations(idx))[:k]
        e = draw(exprs.trees(chosen, list(range(len(spec["params"]))), size=5, total=True, weird=False,
                             ints=st.integers(-4, 4)))
        return ["expr", e]
    if z == 14:
        # count of true relations
        rels = [_relation(draw, idx, spec["params"], None, pvals) for _ in range(draw(st.integers(2, 3)))]
        lhs = ["sum", rels]
        if plant is not None:
            return ["expr", ["==", lhs, ["i", exprs.ref_eval(lhs, plant, pvals)]]]
        return ["expr", [">=", lhs, ["i", 1]]]
    return ["expr", _relation(draw, idx, spec["params"], plant, pvals)]


CONFIG = st.fixed_dictionaries({"policy": st.sampled_from(POLICIES), "compile": st.booleans()})


def make_solver(cfg, **kw):
    return Solver(var_selection_policy=policy(cfg["policy"]), compile_constraints=cfg["compile"], **kw)


def enumerate_solutions(it, cap, b):
    """Drain an iterator of solutions, stopping at `cap` (a correct run never reaches it)."""
    res = []
    for s in it:
        res.append(as_tuple(s, b))
        if len(res) > cap:
            break
    return res


def describe(spec, rec, sols):
    nv = len(spec["vars"])
    rec.label("vars={}".format(nv if nv < 8 else "8+"))
    rec.label_if(any(len(v["dom"]) > 20 for v in spec["vars"]), "domain>20")
    rec.label("solutions={}".format(len(sols) if len(sols) < 3 else "3-9" if len(sols) < 10 else "10+"))
    for c in list(spec["cons"]) + list(spec.get("extra", ())):
        k = c[0]
        n = len(con_vars(c))
        rec.label("con:" + k)
        rec.label_if(n == 1, "con:single-variable")
        rec.label_if(n == 0 and k == "expr", "con:no-variable-expr")
        rec.label_if(k == "alldiff" and n >= 3, "con:alldiff>=3")
    rec.label_if(sum(1 for c in spec["cons"] if c[0] == "alldiff") >= 2, "con:several-alldiff")
    rec.label_if(bool(spec.get("extra")), "extra")
    rec.label_if(bool(spec.get("params")), "params")
    rec.label_if(any(not v["dom"] for v in spec["vars"]), "empty-domain")
