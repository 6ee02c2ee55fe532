from hypothesis import strategies as st

from .. import exprs
from ..core import Prop, require
from satisfy import expression as X

VARS = ["x", "y", "z"]
PARAMS = ["p0", "p1"]
VALUES = {"p0": 3, "p1": -2}
CONSTS = [2, 3, 4, 5, 7, -3, -2, 11]


def strict(draw, n):
    """A tree nothing in which simplifies away: every operator has an operand with a variable, constants are
    never neutral or absorbing."""
    if n <= 1:
        return ["v", draw(st.sampled_from(VARS))]
    z = draw(st.integers(0, 11))
    if z == 0:
        return [draw(st.sampled_from(["neg", "abs", "not"])), strict(draw, n - 1)]
    if z == 1 and n >= 3:
        return ["sum", [strict(draw, n // 3) for _ in range(3)]]
    op = draw(st.sampled_from(exprs.ARITH + exprs.ARITH + exprs.REL + exprs.LOGIC))
    if z <= 5:
        leaf = draw(st.one_of(st.sampled_from(CONSTS).map(lambda c: ["c", c]), st.sampled_from(PARAMS).map(lambda p: ["p", p])))
        a = strict(draw, n - 1)
        if op == "**":
            return ["**", a, ["c", draw(st.sampled_from([2, 3]))]]
        return [op, a, leaf] if draw(st.integers(0, 2)) else [op, leaf, a]
    if op == "**":
        op = "+"
    m = draw(st.integers(1, n - 1))
    return [op, strict(draw, m), strict(draw, n - m)]


def paths(e, at=()):
    yield at
    if e[0] == "sum":
        for i, x in enumerate(e[1]):
            yield from paths(x, at + (1, i))
    elif e[0] not in ("v", "p", "c", "i"):
        for i, x in enumerate(e[1:]):
            yield from paths(x, at + (i + 1,))


def get(e, path):
    for k in path:
        e = e[k]
    return e


def replace(e, path, new):
    if not path:
        return new
    e = list(e)
    e[path[0]] = replace(e[path[0]], path[1:], new)
    return e


def mutate(draw, tree):
    """-> (tree with one variable, constant, parameter or operation changed, what)"""
    path = draw(st.sampled_from(list(paths(tree))))
    node = get(tree, path)
    k = node[0]
    if k in "vp" and draw(st.integers(0, 3)) == 0:
        return replace(tree, path, ["p" if k == "v" else "v", node[1]]), "kind of name"
    if k == "v":
        return replace(tree, path, ["v", draw(st.sampled_from([v for v in VARS if v != node[1]]))]), "variable"
    if k == "p":
        return replace(tree, path, ["p", draw(st.sampled_from([v for v in PARAMS if v != node[1]]))]), "parameter"
    if k == "c":
        pool = [2, 3] if path and get(tree, path[:-1])[0] == "**" else CONSTS
        return replace(tree, path, ["c", draw(st.sampled_from([c for c in pool if c != node[1]]))]), "constant"
    if k in ("neg", "abs", "not"):
        return replace(tree, path, [draw(st.sampled_from([o for o in ("neg", "abs", "not") if o != k])), node[1]]), "operation"
    if k == "sum":
        return replace(tree, path, ["sum", node[1] + [["v", draw(st.sampled_from(VARS))]]]), "extra term"
    if k == "**":
        return replace(tree, path, ["*", node[1], node[2]]), "operation"
    ops = [o for o in exprs.BIN if o != k and o != "**"]
    return replace(tree, path, [draw(st.sampled_from(ops))] + node[1:]), "operation"


@st.composite
def cases(draw, tier):
    size = 8 if tier == "quick" else 16
    tree = strict(draw, draw(st.integers(1, size)))
    other, what = mutate(draw, tree)
    g1 = draw(exprs.trees(VARS[:2], PARAMS, size=3))
    g2 = draw(st.one_of(exprs.trees(VARS[:2], PARAMS, size=3), st.just(g1)))
    return {"tree": tree, "other": other, "what": what, "g1": g1, "g2": g2,
            "values": [draw(st.sampled_from([3, 3, 0, 1, 4])), draw(st.sampled_from([-2, -2, 0, 5]))],
            "subs": draw(st.lists(st.lists(st.integers(-4, 5), min_size=3, max_size=3), min_size=3, max_size=5))}


def build(tree, values=VALUES):
    return exprs.build_expr(tree, {n: X.Variable(n) for n in VARS + PARAMS},
                            {n: X.Parameter(n, values.get(n, 4)) for n in VARS + PARAMS})


class C25(Prop):
    id = "C25"
    rule = ("random trees built twice; the tree with exactly one variable, constant, parameter or operation changed; and "
            "random pairs of small trees with every simplification; parameters of other values; every operator with every pair of some dozens of kinds of operands; non-trivial: the tree has at least 2 operators")
    oracle = "same construction equal, one-place changes unequal, symmetry, and equal pairs evaluate alike (independent evaluator)"
    quick = 20000
    thorough = 250000

    def strategy(self, tier):
        return cases(tier)

    def fixed(self, tier):
        return exprs.pair_cases([3] if tier == "quick" else [2, -3, 5], [-2, -1, 0, 1, 3])

    def check_pairs(self, case, rec):
        """Everything one operator makes of one left operand, compared with what comes near it."""
        op, left = case["pair"]
        built = []
        trees = list(exprs.pair_trees(case))
        trees += [[op, t[2], t[1]] for t in trees[::3]] + [[o, left, ["v", "y"]] for o in exprs.BIN]
        for tree in trees:
            if exprs.has_const_undefined(tree):
                continue
            try:
                e, again = build(tree), build(tree)
            except ZeroDivisionError:
                continue
            require(bool(e.equals(again)) and bool(again.equals(e)), "two builds of {!r} are not equal", e)
            worth = []
            for sub in case["subs"]:
                env = dict(zip(VARS, sub))
                worth.append(exprs.ref_eval(tree, env, VALUES) if exprs.all_defined(tree, env, VALUES) else None)
            built.append((e, worth))
        for i, (a, u) in enumerate(built):
            for b, v in built[i + 1:i + 60]:
                e1, e2 = bool(a.equals(b)), bool(b.equals(a))
                require(e1 == e2, "asymmetric: {!r} and {!r}", a, b)
                if e1:
                    rec.label("neighbours:equal")
                    require(all(x is None or y is None or x == y for x, y in zip(u, v)),
                            "{!r} and {!r} are structurally equal but worth {} and {}", a, b, u, v)
        rec.label("operator-by-operands")

    def check_values(self, case, a, values, rec):
        """The same tree over parameters of the same names, but other values."""
        tree = case["tree"]
        b = build(tree, values)
        e1, e2 = bool(a.equals(b)), bool(b.equals(a))
        require(e1 == e2, "asymmetric: {!r} with parameters {} and with {}", a, VALUES, values)
        if values == VALUES:
            require(e1, "two builds of {!r} are not equal", a)
        elif [x for x in exprs.ops_in(tree) if x == "p"]:
            rec.label("other-parameter-values")
        if e1:
            for sub in case["subs"]:
                env = dict(zip(VARS, sub))
                if exprs.all_defined(tree, env, VALUES) and exprs.all_defined(tree, env, values):
                    x, y = a.evaluate(env), b.evaluate(env)
                    require(x == y, "{!r} with parameters {} and with {} are structurally equal but worth {} and {} under {}",
                            a, VALUES, values, x, y, env)

    def check(self, case, rec):
        if "pair" in case:
            return self.check_pairs(case, rec)
        tree, other = case["tree"], case["other"]
        a, a2, o = build(tree), build(tree), build(other)
        ops = [x for x in exprs.ops_in(tree) if x not in ("v", "p", "c", "i")]
        rec.nontrivial = len(ops) >= 2
        rec.label("changed:" + case["what"])
        require(bool(a.equals(a)), "{!r} does not equal itself", a)
        require(bool(a.equals(a2)) and bool(a2.equals(a)), "two builds of {!r} are not equal", a)
        require(not a.equals(o), "{!r} equals {!r} although a {} differs", a, o, case["what"])
        require(not o.equals(a), "{!r} equals {!r} although a {} differs", o, a, case["what"])
        if "values" in case:
            self.check_values(case, a, dict(zip(PARAMS, case["values"])), rec)
        if exprs.has_const_undefined(case["g1"]) or exprs.has_const_undefined(case["g2"]):
            return
        try:
            g1, g2 = build(case["g1"]), build(case["g2"])
        except ZeroDivisionError:
            return
        e1, e2 = bool(g1.equals(g2)), bool(g2.equals(g1))
        require(e1 == e2, "asymmetric: {!r} and {!r}", g1, g2)
        if case["g1"] == case["g2"]:
            require(e1, "two builds of {!r} are not equal", g1)
        if e1:
            rec.label("random-pair:equal", "random-pair:same-tree" if case["g1"] == case["g2"] else "random-pair:different-trees")
            for sub in case["subs"]:
                env = dict(zip(VARS, sub))
                if exprs.all_defined(case["g1"], env, VALUES) and exprs.all_defined(case["g2"], env, VALUES):
                    x, y = exprs.ref_eval(case["g1"], env, VALUES), exprs.ref_eval(case["g2"], env, VALUES)
                    require(x == y, "{!r} and {!r} are structurally equal but worth {} and {} under {}", g1, g2, x, y, env)
        else:
            rec.label("random-pair:unequal")


PROP = C25()
