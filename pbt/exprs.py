"""Expression specifications: JSON trees, their reference meaning, and how to build the
library's expression from them.

  ["v", name]  variable        ["p", name]  parameter
  ["c", n]     Const(n)        ["i", n]     plain Python integer operand
  [op, a, b]   op in BIN       ["neg"|"pos"|"abs"|"not", a]
  ["sum", [a, ...]]            built-in sum
  ["Sum"|"Prod", [a, ...]]     the library's n-ary nodes, built directly
  ["chain", op, n, a, b]       (((a op b) op b) ... op b), n times
"""
import operator

from hypothesis import strategies as st

from . import env  # noqa: F401
from satisfy import expression as X

ARITH = ("+", "-", "*", "/", "%", "**")
REL = ("==", "!=", "<", "<=", ">", ">=")
LOGIC = ("&", "|")
BIN = ARITH + REL + LOGIC


class Undefined(Exception):
    """The reference meaning is not an integer here (division by zero, ...)."""


class Unbound(Exception):
    pass


def _pow(a, b):
    if b < 0 or (abs(a) > 1 and b * max(1, abs(a).bit_length()) > 6000):
        raise Undefined("pow")
    return a ** b


def _floordiv(a, b):
    if b == 0:
        raise Undefined("zero division")
    return a // b


def _mod(a, b):
    if b == 0:
        raise Undefined("zero division")
    return a % b


REF = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": _floordiv, "%": _mod, "**": _pow,
       "==": operator.eq, "!=": operator.ne, "<": operator.lt, "<=": operator.le, ">": operator.gt,
       ">=": operator.ge}


def ref_eval(e, env_, params):
    """Independent meaning of a specification: plain integer arithmetic."""
    k = e[0]
    if k == "v":
        try:
            return env_[e[1]]
        except KeyError:
            raise Unbound(e[1])
    if k == "p":
        return params[e[1]]
    if k in ("c", "i"):
        return e[1]
    if k == "&":
        return ref_eval(e[1], env_, params) and ref_eval(e[2], env_, params)
    if k == "|":
        return ref_eval(e[1], env_, params) or ref_eval(e[2], env_, params)
    if k == "neg":
        return -ref_eval(e[1], env_, params)
    if k == "pos":
        return ref_eval(e[1], env_, params)
    if k == "abs":
        return abs(ref_eval(e[1], env_, params))
    if k == "not":
        return not ref_eval(e[1], env_, params)
    if k in ("sum", "Sum"):
        r = 0
        for x in e[1]:
            r = r + ref_eval(x, env_, params)
        return r
    if k == "Prod":
        r = 1
        for x in e[1]:
            r = r * ref_eval(x, env_, params)
        return r
    if k == "chain":
        r = ref_eval(e[3], env_, params)
        if e[1] in ("&", "|"):
            for _ in range(e[2]):
                r = (r and ref_eval(e[4], env_, params)) if e[1] == "&" else (r or ref_eval(e[4], env_, params))
            return r
        b = ref_eval(e[4], env_, params)
        for _ in range(e[2]):
            r = REF[e[1]](r, b)
        return r
    return REF[k](ref_eval(e[1], env_, params), ref_eval(e[2], env_, params))


def all_defined(e, env_, params):
    """Is every subexpression defined (also those a lazy 'and' / 'or' would not reach)?"""
    try:
        ref_eval(e, env_, params)
    except Undefined:
        return False
    return all(all_defined(x, env_, params) for x in children(e))


def children(e):
    k = e[0]
    if k in ("v", "p", "c", "i"):
        return []
    if k in ("sum", "Sum", "Prod"):
        return e[1]
    return e[3:] if k == "chain" else e[1:]


def depth(e):
    return 1 + max([depth(x) for x in children(e)] or [0]) + (e[2] if e[0] == "chain" else 0)


PYOP = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv, "%": operator.mod,
        "**": operator.pow, "==": operator.eq, "!=": operator.ne, "<": operator.lt, "<=": operator.le,
        ">": operator.gt, ">=": operator.ge, "&": operator.and_, "|": operator.or_}


def build(e, variables, params):
    """The library's expression (or an int, where the library folds to one).

    `variables` and `params` map names to Variable / Parameter objects."""
    k = e[0]
    if k == "v":
        return variables[e[1]]
    if k == "p":
        return params[e[1]]
    if k == "c":
        return X.Const(e[1])
    if k == "i":
        return e[1]
    if k in ("neg", "pos", "abs", "not"):
        a = X.Expression.coerce(build(e[1], variables, params))
        if k == "neg":
            return -a
        if k == "pos":
            return +a
        if k == "abs":
            return abs(a)
        return a.__not__()
    if k == "sum":
        items = [build(x, variables, params) for x in e[1]]
        return sum(items)
    if k in ("Sum", "Prod"):
        return getattr(X, k)([build(x, variables, params) for x in e[1]])
    if k == "chain":
        r = X.Expression.coerce(build(e[3], variables, params))
        b = build(e[4], variables, params)
        for _ in range(e[2]):
            r = PYOP[e[1]](r, b)
        return r
    a = build(e[1], variables, params)
    b = build(e[2], variables, params)
    if not isinstance(a, X.Expression) and not isinstance(b, X.Expression):
        a = X.Expression.coerce(a)      # two plain integers are not the library's business
    return PYOP[k](a, b)


def build_expr(e, variables, params):
    return X.Expression.coerce(build(e, variables, params))


def names_in(e, kind="v"):
    k = e[0]
    if k == kind:
        return {e[1]}
    if k in ("v", "p", "c", "i"):
        return set()
    if k in ("sum", "Sum", "Prod"):
        return set().union(*[names_in(x, kind) for x in e[1]])
    if k == "chain":
        return names_in(e[3], kind) | names_in(e[4], kind)
    return set().union(*[names_in(x, kind) for x in e[1:]])


def ops_in(e):
    k = e[0]
    if k in ("v", "p", "c", "i"):
        return [k]
    if k in ("sum", "Sum", "Prod"):
        return [k] + [o for x in e[1] for o in ops_in(x)]
    if k == "chain":
        return ["chain"] + ops_in(e[3]) + ops_in(e[4])
    return [k] + [o for x in e[1:] for o in ops_in(x)]


def has_const_undefined(e):
    """Some subexpression without variables or parameters is undefined (building may fold it)."""
    k = e[0]
    if k in ("v", "p", "c", "i"):
        return False
    subs = e[1] if k in ("sum", "Sum", "Prod") else (e[3:] if k == "chain" else e[1:])
    if any(has_const_undefined(x) for x in subs):
        return True
    try:
        ref_eval(e, {}, {})
    except Undefined:
        return True
    except (Unbound, KeyError):
        return False
    return False


# ------------------------------------------------------------------ generators

SMALL = st.integers(-3, 3)
INT = st.one_of(SMALL, SMALL, st.integers(-20, 20), st.integers(-1000, 1000),
                st.integers(-10 ** 12, 10 ** 12), st.integers(-10 ** 20, 10 ** 20))


@st.composite
def trees(draw, names, params=(), size=8, total=False, weird=True, ints=INT):
    """A tree with about `size` leaves. total: never undefined for any integer substitution.
    weird: include directly built Sum/Prod and 'not' nodes."""
    if size >= 8 and (len(names) > 8 or draw(st.integers(0, 49)) == 49):
        return _long(draw, list(names), list(params), total, weird, ints)
    n = draw(st.one_of(st.integers(1, size), st.integers(max(1, size // 2), size)))
    return _tree(draw, list(names), list(params), n, total, weird, ints)


def _long(draw, names, params, total, weird, ints):
    """Dozens of terms."""
    k = draw(st.integers(12, 80))
    if len(names) > 8:          # every variable has its say
        k = len(names) + draw(st.integers(0, 6))
        few = [["v", n] for n in names]
    else:
        few = [_tree(draw, names, params, draw(st.integers(1, 2)), total, weird, ints) for _ in range(draw(st.integers(1, 4)))]
    first = draw(st.integers(-k, 5))
    style = draw(st.sampled_from(["times", "plus", "compare", "same"]))
    terms = []
    for i in range(k):
        t, c = few[i % len(few)], ["i", first + i]
        terms.append(["*", c, t] if style == "times" else ["+", t, c] if style == "plus" else
                     ["<", t, c] if style == "compare" else t)
    kind = draw(st.sampled_from((["sum", "Sum", "Prod"] if weird else ["sum", "sum"]) + ["+", "-", "*", "|", "&", "+", "right"]))
    if kind in ("sum", "Sum", "Prod"):
        return [kind, terms]
    if kind == "right":
        e = terms[-1]
        for t in reversed(terms[:-1]):
            e = ["+", t, e]
        return e
    e = terms[0]
    for t in terms[1:]:
        e = [kind, e, t]
    return e


def _leaf(draw, names, params, ints):
    kinds = (["v"] * 5 if names else []) + (["p"] if params else []) + ["i", "i", "c"]
    k = draw(st.sampled_from(kinds))
    if k == "v":
        return ["v", draw(st.sampled_from(names))]
    if k == "p":
        return ["p", draw(st.sampled_from(params))]
    return [k, draw(ints)]


def _tree(draw, names, params, n, total, weird, ints):
    if n <= 1:
        return _leaf(draw, names, params, ints)
    shape = draw(st.integers(0, 19))

    def sub(m):
        return _tree(draw, names, params, max(1, m), total, weird, ints)
    if shape <= 1:
        return ["neg", sub(n - 1)]
    if shape == 2:
        return ["abs", sub(n - 1)]
    if shape == 3 and weird:
        return [draw(st.sampled_from(["not", "pos"])), sub(n - 1)]
    if shape in (4, 5):
        k = draw(st.integers(1, min(5, n)))
        kind = draw(st.sampled_from(["sum", "sum", "Sum", "Prod"] if weird else ["sum"]))
        return [kind, [sub(n // k) for _ in range(k)]]
    if shape == 6:
        # the same few operators applied again and again to nonzero constants
        ops = draw(st.sampled_from(["//", "/", "/%", "+-", "*/", "*", "**", "-", "%", "/-", "+*", "/*+-%"]))
        ops = ["**"] if ops == "**" else ["/"] if ops == "//" else list(ops)
        k = draw(st.integers(2, 4))
        r = sub(max(1, n - k))
        for _ in range(k):
            op = draw(st.sampled_from(ops))
            c = draw(st.integers(0, 2)) if op == "**" else draw(st.sampled_from([2, 3, -2, -1, 5, -3, 1, 7, 10, -7]))
            c = [draw(st.sampled_from(["i", "i", "c"])), c]
            r = [op, c, r] if op in "+-*" and draw(st.integers(0, 2)) == 0 and op != "**" else [op, r, c]
        return r
    op = draw(st.sampled_from(("+", "+", "+", "*", "*", "*", "-", "-", "/", "%", "**") + REL + LOGIC + LOGIC))
    m = draw(st.integers(1, n - 1))
    if op == "**":
        # the exponent stays in 0..4, so that values stay integers of bounded size
        if draw(st.booleans()) or not names:
            exp = [draw(st.sampled_from(["i", "c"])), draw(st.integers(0, 4))]
        else:
            exp = ["%", sub(n - m), ["i", draw(st.integers(1, 4))]]
        return ["**", sub(m), exp]
    if op in ("/", "%"):
        if total:
            div = draw(st.one_of(
                st.tuples(st.sampled_from(["i", "c"]), st.integers(1, 9)).map(list),
                st.tuples(st.sampled_from(["i", "c"]), st.integers(-9, -1)).map(list),
                st.just(None)))
            if div is None:
                div = ["+", ["abs", sub(n - m)], ["i", 1]]
        else:
            div = sub(n - m)
        if draw(st.integers(0, 3)) == 0 and not total:
            # guarded: (d != 0) & ((a / d) > k)
            return ["&", ["!=", div, ["i", 0]], [">", [op, sub(m), div], ["i", draw(SMALL)]]]
        return [op, sub(m), div]
    return [op, sub(m), sub(n - m)]


def shapes(consts):
    """Small expressions of every kind, for pairing each operator with each kind of operand."""
    x, y, z, p = ["v", "x"], ["v", "y"], ["v", "z"], ["p", "p0"]
    out = [x, y, p, ["neg", x], ["neg", y], ["neg", ["neg", x]], ["abs", x], ["abs", ["neg", y]], ["not", x], ["+", x, y], ["-", x, y],
           ["*", x, y], ["/", x, y], ["%", x, y], ["**", x, ["%", y, ["i", 3]]], ["sum", [x, y, z]], ["sum", [x, x, x]],
           ["Sum", [x, ["neg", y], p]], ["Prod", [x, y, z]], ["<", x, y], ["<=", y, x], ["==", x, y], ["&", ["<", x, y], ["!=", y, z]],
           ["|", x, y], ["&", x, y], ["*", p, x], ["*", x, x], ["-", x, x], ["-", x, ["-", y, z]]]
    for n in consts:
        c = ["i", n]
        out += [["+", x, c], ["-", c, x], ["-", x, c], ["*", c, x], ["*", y, c], ["/", x, c], ["/", c, x], ["%", x, c], ["**", x, ["i", abs(n)]],
                ["<", x, c], ["==", c, x], ["+", ["+", ["+", x, y], z], c], ["*", ["*", ["*", x, y], z], c], ["*", ["/", x, c], c],
                ["+", ["*", c, x], ["*", c, y]], ["*", ["+", x, y], c], ["neg", ["*", x, c]], ["%", ["+", x, y], c]]
    return out


PAIR_SUBS = [[0, 0, 0], [1, 1, 1], [2, 3, -1], [-2, -2, 5], [7, -3, 2], [3, 2, 1], [-5, 4, 0], [1, 0, 6]]


def pair_cases(consts, numbers, **more):
    """One case for each operator and left operand: with every right operand, and plain numbers on either side."""
    return [dict({"pair": [op, left], "consts": consts, "numbers": numbers, "names": ["x", "y", "z"], "subs": PAIR_SUBS, "params": [-2, 3]},
                 **more) for op in BIN for left in shapes(consts)]


def pair_trees(case):
    op, left = case["pair"]
    for right in shapes(case["consts"]):
        yield [op, left, right]
    for n in case["numbers"]:
        for k in ("i", "c"):
            yield [op, left, [k, n]]
            yield [op, [k, n], left]


ORDINARY = ["x", "y", "z", "alpha", "b2", "a_b", "X"]
TRICKY = ["sum", "prod", "abs", "if", "lambda", "None", "True", "not", "self", "substitution", "in", "or", "and",
          "eval", "x\u00e9", "x\ufb01", "x\u00b2", "a\u00aa", "e1", "E", "j", "_x"[1:], "print", "values", "x__",
          "match", "class", "dummy_kwargs", "x_", "prod_", "model", "expression", "start", "args", "kwargs", "is"]
NAME = st.one_of(st.sampled_from(ORDINARY), st.sampled_from(ORDINARY), st.sampled_from(TRICKY),
                 st.from_regex(r"[a-zA-Z][a-zA-Z0-9_]{0,6}", fullmatch=True).filter(
                     lambda n: n not in ("p0", "p1", "par0", "par1", "par2")))


def names(n_min, n_max, tricky=True):
    return st.lists(NAME if tricky else st.sampled_from(ORDINARY), min_size=n_min, max_size=n_max, unique=True)


def some_names(draw, few, tricky=True):
    """A few names, now and then dozens of them."""
    if draw(st.integers(0, 79)) == 79:
        return ["x{}".format(i) for i in range(draw(st.integers(10, 40)))]
    k = draw(st.sampled_from(few))
    return draw(names(k, k, tricky))


VALUE = st.one_of(st.integers(-4, 4), st.integers(-4, 4), st.integers(-1000, 1000),
                  st.integers(-10 ** 15, 10 ** 15), st.integers(-10 ** 20, 10 ** 20))
