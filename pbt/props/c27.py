import ast
import contextlib
import io
import itertools
import re

from hypothesis import strategies as st

from .. import exprs
from .. import models as M
from ..core import Prop, require
from satisfy import expression as X
from satisfy.constraint import ExpressionConstraint
from satisfy.objective import Maximize, Minimize
from satisfy.tool.demo_utils import print_model


class Parser(object):
    """The printed notation: binary operators always in parentheses; -( ), ^, abs( ), sum([ ]) and prod([ ])
    bind what follows.  -> a specification with variables and parameters by name."""

    OPS = sorted(exprs.BIN, key=len, reverse=True)
    NUM = re.compile(r"-?[0-9]+")
    NAME = re.compile(r"[A-Za-z_]\w*")

    def __init__(self, text, params):
        self.t = text
        self.i = 0
        self.params = params

    def fail(self):
        require(False, "cannot read {!r} at {}", self.t, self.i)

    def take(self, s):
        if self.t.startswith(s, self.i):
            self.i += len(s)
            return True
        return False

    def need(self, s):
        if not self.take(s):
            self.fail()

    def whole(self):
        e = self.expr()
        if self.i != len(self.t):
            self.fail()
        return e

    def items(self):
        res = []
        if self.take("])"):
            return res
        while True:
            res.append(self.expr())
            if self.take("])"):
                return res
            self.need(", ")

    def expr(self):
        if self.take("-("):
            e = ["neg", self.expr()]
            self.need(")")
            return e
        if self.take("^"):
            return ["not", self.expr()]
        if self.take("abs("):
            e = ["abs", self.expr()]
            self.need(")")
            return e
        if self.take("sum(["):
            return ["Sum", self.items()]
        if self.take("prod(["):
            return ["Prod", self.items()]
        if self.take("("):
            a = self.expr()
            self.need(" ")
            for op in self.OPS:
                if self.take(op + " "):
                    break
            else:
                self.fail()
            b = self.expr()
            self.need(")")
            return [op, a, b]
        m = self.NUM.match(self.t, self.i)
        if m:
            self.i = m.end()
            return ["i", int(m.group())]
        m = self.NAME.match(self.t, self.i)
        if not m:
            self.fail()
        self.i = m.end()
        return ["p" if m.group() in self.params else "v", m.group()]


def meaning(e, env_, params):
    try:
        return exprs.ref_eval(e, env_, params)
    except (exprs.Unbound, KeyError) as err:
        require(False, "the printed form mentions {}", err)


def two(op):
    return lambda a, b: [op, a, b]


READ = {"Add": two("+"), "Sub": two("-"), "Mul": two("*"), "Div": two("/"), "Mod": two("%"), "Pow": two("**"), "Eq": two("=="),
        "Ne": two("!="), "Lt": two("<"), "Le": two("<="), "Gt": two(">"), "Ge": two(">="), "And": two("&"), "Or": two("|"),
        "Neg": lambda a: ["neg", a], "Abs": lambda a: ["abs", a], "Not": lambda a: ["not", a], "Const": lambda v: ["i", v],
        "Variable": lambda n: ["v", n], "Parameter": lambda n: ["p", n],
        "Sum": lambda *xs, const: ["Sum", list(xs) + [["i", const]]], "Prod": lambda *xs, const: ["Prod", list(xs) + [["i", const]]],
        "AllDifferentConstraint": lambda ns: list(ns), "ConstConstraint": lambda v: v,
        "ExpressionConstraint": lambda e: e, "Minimize": lambda e: ["min", e], "Maximize": lambda e: ["max", e]}


def read_repr(thing):
    """What the representation, read as calls of the classes it names, says."""
    text = repr(thing).replace("(, const", "(const")
    try:
        return eval(text, {"__builtins__": {}}, READ)
    except Exception as err:
        require(False, "cannot read the representation {!r}: {!r}", text, err)


@st.composite
def cases(draw, tier):
    if draw(st.integers(0, 2)) == 0:
        spec = draw(M.model_specs(max_vars=4, max_dom=4, max_cons=5, max_space=60, extra=False, custom=False))
        if spec["cons"] and draw(st.integers(0, 3)) == 0:
            spec["cons"].insert(draw(st.integers(0, len(spec["cons"]))), draw(st.sampled_from(spec["cons"])))
        return {"kind": "model", "spec": spec}
    names = exprs.some_names(draw, [1, 2, 3, 4])
    params = draw(st.sampled_from([[], ["par0"], ["par0", "par1"]]))
    return {"kind": "expr", "names": names, "params": {p: draw(st.integers(-5, 6)) for p in params},
            "expr": draw(exprs.trees(names, params, size=10 if tier == "quick" else 16)),
            "envs": [{n: draw(exprs.VALUE) for n in names} for _ in range(3)]}


class C27(Prop):
    id = "C27"
    rule = ("random expression trees over ordinary and odd names, every operator with every pair of some dozens of kinds of operands, and random models shown by print_model; non-trivial: the "
            "expression has at least 2 operators and is defined for a substitution, or the model has a constraint")
    oracle = ("the printed text, read back by an independent parser, has the reference meaning of the specification the "
              "object was built from")
    quick = 24000
    thorough = 240000

    def strategy(self, tier):
        return cases(tier)

    def fixed(self, tier):
        return exprs.pair_cases([3] if tier == "quick" else [2, -3, 5], [-2, 0, 1, 3], kind="pair")

    def check(self, case, rec):
        rec.label("kind:" + case["kind"])
        if case["kind"] == "pair":
            envs = [dict(zip(case["names"], sub)) for sub in case["subs"][2:6]]
            for tree in exprs.pair_trees(case):
                self.check_expr({"expr": tree, "names": case["names"], "params": {"p0": -2, "p1": 3}, "envs": envs}, rec)
            return
        if case["kind"] == "expr":
            return self.check_expr(case, rec)
        spec = case["spec"]
        b = M.build(spec)
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            print_model(b.model)
        lines = [x for x in out.getvalue().split("\n") if x.strip()]
        require(lines and "model variables" in lines[0], "no variables shown: {}", lines[:2])
        at = next((i for i, x in enumerate(lines) if "model constraints" in x), None)
        require(at is not None, "no constraints shown: {}", lines)
        # variables, in declaration order, with their domains
        want = [(p["name"], None) for p in spec["params"]] + [(b.names[i], v) for i, v in enumerate(spec["vars"])]
        require(at == 1 + len(want), "{} variables shown instead of {}", at - 1, len(want))
        for k, ((name, v), line) in enumerate(zip(want, lines[1:at])):
            m = re.fullmatch(r"\s*(\d+)\) (\S+) domain: (.*)", line)
            require(m and int(m.group(1)) == k and ast.literal_eval(m.group(2)) == name, "variable {} is shown as {!r}", name, line)
            if v is not None:
                dom = eval(m.group(3), {"__builtins__": {}}, {"range": range, "frozenset": frozenset, "set": set,
                                                                          "deque": list, "dict_keys": list})
                ordered = v["kind"] not in ("set", "frozenset")
                same = list(dom) == v["dom"] if ordered else sorted(dom) == sorted(v["dom"])
                require(same, "domain {} of {} is shown as {}", v["dom"], name, m.group(3))
        # constraints: those of the model
        shown = []
        for k, line in enumerate(lines[at + 1:]):
            m = re.fullmatch(r"\s*(\d+)\) (.*)", line)
            require(m and int(m.group(1)) == k, "constraint {} is shown as {!r}", k, line)
            shown.append(m.group(2))
        stored = len(list(b.model.constraints()))
        require(len(shown) == stored, "{} constraints shown of {}", len(shown), stored)
        params = {p["name"]: p["value"] for p in spec["params"]}
        pv = M.param_values(spec)

        def read(text):
            if text in ("True", "False"):
                return lambda env_: text == "True"
            m = re.fullmatch(r"AllDifferentConstraint\((.*)\)", text)
            if m:
                ns = ast.literal_eval(m.group(1))
                require(len(set(ns)) == len(ns), "{!r} repeats a variable", text)
                return lambda env_: all(env_[x] != env_[y] for x, y in itertools.combinations(ns, 2))
            e = Parser(text, params).whole()
            return lambda env_: bool(meaning(e, env_, params))
        got = [read(x) for x in shown]
        # those that mention no variable are dropped when true; the order of the others is that of the calls
        cons = [c for c in spec["cons"] if M.con_vars(c) or not M.con_holds(c, [0] * len(spec["vars"]), pv)]
        loose = len(got) != len(cons)         # (an expression may have lost its variables to a simplification)
        rec.nontrivial = bool(got)
        rec.label("constraints={}".format(min(len(got), 4)))
        doms = [v["dom"] for v in spec["vars"]]
        for t in itertools.islice(itertools.product(*doms), 60):
            env_ = dict(zip(b.names, t))
            g = [f(env_) for f in got]
            w = [M.con_holds(c, t, pv) for c in cons]
            if loose:
                require(all(g) == all(w), "for {} the shown constraints {} say {}", env_, shown, g)
            else:
                require(g == w, "for {} the shown constraints {} say {} instead of {}", env_, shown, g, w)

    def check_expr(self, case, rec):
        spec, params = case["expr"], case["params"]
        if exprs.has_const_undefined(spec):
            return
        variables = {n: X.Variable(n) for n in case["names"]}
        pobjs = {n: X.Parameter(n, v) for n, v in params.items()}
        try:
            e = exprs.build_expr(spec, variables, pobjs)
        except ZeroDivisionError:
            # simplification exposed a division by zero that no substitution avoids
            require(not any(exprs.all_defined(spec, env_, params) for env_ in case["envs"]),
                    "building raises ZeroDivisionError although the expression is defined")
            return
        text = str(e)
        parsed = Parser(text, params).whole()
        require(str(ExpressionConstraint(e)) == text, "a constraint on it is shown as {!r} instead of {!r}",
                str(ExpressionConstraint(e)), text)
        require("{}".format(e) == text, "formatted as {!r}, printed as {!r}", "{}".format(e), text)
        reps = [read_repr(e), read_repr(ExpressionConstraint(e)), read_repr(Minimize(e))[1]]
        require(read_repr(Maximize(e))[0] == "max", "{!r} is shown for a maximisation", Maximize(e))
        extra = (exprs.names_in(parsed) | exprs.names_in(reps[0])) - set(e.vars())
        require(not extra, "{} does not depend on {}", text, extra)
        defined = 0
        for env_ in case["envs"]:
            if not exprs.all_defined(spec, env_, params):
                continue
            defined += 1
            want = exprs.ref_eval(spec, env_, params)
            try:
                got = meaning(parsed, env_, params)
            except exprs.Undefined:
                require(False, "{!r} is undefined for {} (should be {})", text, env_, want)
            require(got == want, "{!r} means {} for {} instead of {}", text, got, env_, want)
            for again in reps:
                try:
                    got = meaning(again, env_, params)
                except exprs.Undefined:
                    require(False, "{!r} is undefined for {} (should be {})", e, env_, want)
                require(got == want, "the representation {!r} means {} for {} instead of {}", e, got, env_, want)
        n = len([o for o in exprs.ops_in(spec) if o not in ("v", "p", "c", "i")])
        rec.nontrivial = n >= 2 and defined > 0
        rec.label("defined={}".format(defined))
        rec.label(*["op:" + o for o in exprs.ops_in(parsed)])


PROP = C27()
