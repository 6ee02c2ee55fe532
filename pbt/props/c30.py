from hypothesis import strategies as st

from .. import exprs
from ..core import Prop, require
from satisfy import Model, Solver
from satisfy import expression as X
from satisfy.constraint import ExpressionConstraint

BIN = ("+", "+", "+", "*", "*", "*", "-", "-", "/", "%", "**") + exprs.REL + exprs.LOGIC
AUG = ("+", "+", "*", "*", "-", "&", "|", "/", "%")
USES = ["evaluate", "as_function", "compile_py_function", "py_expr", "str", "repr", "vars", "free_vars", "equals", "constraint",
        "compiled-constraint", "solve", "iterate"]
NAMES = ["x", "y", "z"]
DOM = [0, 1, -1, 2]


@st.composite
def cases(draw, tier):
    nv = draw(st.integers(1, 3))
    nodes = nv + 2 + 1          # variables, two parameters, a constant
    steps = []
    for _ in range(draw(st.integers(4, 14 if tier == "quick" else 25))):
        # operands: rather the latest ones, so that sums of sums of shared sums come about
        pick = st.one_of(st.integers(0, nodes - 1), st.integers(max(0, nodes - 4), nodes - 1))
        operand = st.one_of(pick, pick, pick, pick, exprs.SMALL.map(lambda n: ["i", n]))
        kind = draw(st.sampled_from(["bin"] * 6 + ["sum", "sum", "Sum", "Prod", "un", "aug", "aug", "use", "use", "set"]))
        if kind == "bin":
            op = draw(st.sampled_from(BIN))
            if op == "**":
                steps.append(["bin", "**", draw(pick), ["i", draw(st.integers(0, 3))]])
            else:
                a, b = draw(operand), draw(pick)
                steps.append(["bin", op, a, b] if draw(st.booleans()) else ["bin", op, b, a])
            nodes += 1
        elif kind in ("sum", "Sum", "Prod"):
            steps.append([kind, draw(st.lists(operand, min_size=1, max_size=4))])
            nodes += 1
        elif kind == "un":
            steps.append(["un", draw(st.sampled_from(["neg", "abs", "not", "pos"])), draw(pick)])
            nodes += 1
        elif kind == "aug":
            # y = nodes[a]; y op= nodes[b]: a new node; nodes[a] stays
            steps.append(["aug", draw(st.sampled_from(AUG)), draw(pick), draw(operand)])
            nodes += 1
        elif kind == "use":
            steps.append(["use", draw(st.sampled_from(USES)), draw(pick), draw(st.integers(0, 2))])
        else:
            steps.append(["set", draw(st.integers(0, 1)), draw(exprs.SMALL)])
    return {"nv": nv, "steps": steps, "params": [draw(exprs.SMALL), draw(exprs.SMALL)], "const": draw(exprs.SMALL),
            "envs": [[draw(exprs.VALUE) for _ in range(nv)] for _ in range(2)] + [[1, 2, 3][:nv]]}


class C30(Prop):
    id = "C30"
    rule = ("random programs of 4-14 (25) statements that build expressions out of earlier ones - shared, repeated, by "
            "operators, augmented assignment, sum(), Sum, Prod - and use them (evaluate, compile, print, compare, "
            "constrain, solve) with parameter changes in between; non-trivial: an expression is an operand of two later ones")
    oracle = ("every expression keeps the value of a reference evaluation of the program, its variables and its text "
              "until the end")
    quick = 20000
    thorough = 200000

    def strategy(self, tier):
        return cases(tier)

    def check(self, case, rec):
        names = NAMES[:case["nv"]]
        envs = [dict(zip(names, e)) for e in case["envs"]]
        pvals = list(case["params"])
        params = [X.Parameter("p{}".format(i), v) for i, v in enumerate(pvals)]
        objs = [X.Variable(n) for n in names] + params + [X.Const(case["const"])]
        specs = [["v", n] for n in names] + [["p", 0], ["p", 1], ["c", case["const"]]]
        used = {}

        def ref(i, env, memo):
            """The value of node i, or None where undefined."""
            if isinstance(i, list):
                return i[1]
            if i not in memo:
                memo[i] = self.value(specs[i], env, pvals, lambda j: ref(j, env, memo))
            return memo[i]

        seen = [None] * len(objs)      # what each one looked like when made

        def verify(which, when):
            memos = [{} for _ in envs]
            for i in which:
                o = objs[i]
                if o is None:
                    continue
                for env, memo in zip(envs, memos):
                    want = ref(i, env, memo)
                    if want is None:
                        continue
                    got = o.evaluate(dict(env))
                    require(got == want, "expression {} ({}) evaluates to {} instead of {} under {} after {}", i, o, got, want, env, when)
                state = tuple(sorted(o.vars())), repr(o)
                if seen[i] is None:
                    seen[i] = state
                require(seen[i] == state, "expression {} was {} and is {} after {}", i, seen[i], state, when)

        def operand(x):
            if isinstance(x, list):
                return x[1]
            used[x] = used.get(x, 0) + 1
            return objs[x]

        for step in case["steps"]:
            kind = step[0]
            if kind == "set":
                params[step[1]].value = step[2]
                pvals[step[1]] = step[2]
                seen = [None if s is not None and "Parameter" in s[1] else s for s in seen]
            elif kind == "use":
                o = objs[step[2]]
                if o is not None:
                    rec.label("use:" + step[1])
                    self.use(step[1], o, envs[step[3]], names, [x for x in objs if x is not None], params)
            else:
                spec = step[1:] if kind in ("bin", "un") else [kind, step[1]] if kind in ("sum", "Sum", "Prod") else step[1:]
                idx = spec[1] if kind in ("sum", "Sum", "Prod") else spec[1:]
                ops = [operand(i) for i in idx]
                new = None
                if all(o is not None for o in ops):
                    rec.label("make:" + kind)
                    try:
                        if kind == "bin":
                            if not any(isinstance(o, X.Expression) for o in ops):
                                ops[0] = X.Const(ops[0])
                            new = exprs.PYOP[step[1]](*ops)
                        elif kind == "aug":
                            y = ops[0]
                            y = self.augmented(step[1], y, ops[1])
                            new = y
                        elif kind == "un":
                            new = {"neg": lambda a: -a, "abs": abs, "not": lambda a: a.__not__(), "pos": lambda a: +a}[step[1]](ops[0])
                        elif kind == "sum":
                            new = X.Expression.coerce(sum(ops))
                        else:
                            items = list(ops)
                            new = getattr(X, kind)(items)
                            items.clear()           # the caller's list is the caller's
                        new = X.Expression.coerce(new)
                    except ZeroDivisionError:
                        new = None
                objs.append(new)
                specs.append([{"bin": "bin", "aug": "bin"}.get(kind, kind)] + list(step[1:]))
                seen.append(None)
                if new is None:
                    specs[-1] = ["dead"]
                else:
                    verify([len(objs) - 1], step)
            if kind in ("aug", "sum", "use", "set"):
                verify(range(len(objs)), step)
        verify(range(len(objs)), "everything")
        rec.nontrivial = any(n >= 2 and i >= len(names) + 3 for i, n in used.items())
        rec.label("nodes={}".format(min(len(objs) // 4 * 4, 16)))

    def value(self, spec, env, pvals, of):
        k = spec[0]
        if k == "v":
            return env[spec[1]]
        if k == "p":
            return pvals[spec[1]]
        if k == "c":
            return spec[1]
        if k == "dead":
            return None
        args = spec[1] if k in ("sum", "Sum", "Prod") else spec[2:]
        vals = [of(a) for a in args]
        if any(v is None or abs(v) > 10 ** 60 for v in vals):
            return None
        if k in ("sum", "Sum", "Prod"):
            return exprs.ref_eval([k, [["i", v] for v in vals]], {}, {})
        try:
            return exprs.ref_eval([spec[1]] + [["i", v] for v in vals], {}, {})
        except exprs.Undefined:
            return None

    def augmented(self, op, y, b):
        if op == "+":
            y += b
        elif op == "*":
            y *= b
        elif op == "-":
            y -= b
        elif op == "&":
            y &= b
        elif op == "|":
            y |= b
        elif op == "/":
            y /= b
        else:
            y %= b
        return y

    def use(self, what, o, env, names, others, params):
        quiet = (ZeroDivisionError, OverflowError)
        if what == "evaluate":
            try:
                o.evaluate(env)
            except quiet:
                pass
        elif what in ("as_function", "compile_py_function"):
            try:
                f = getattr(o, what)()
                f(**env)
            except quiet:
                pass
        elif what in ("py_expr", "vars"):
            r = getattr(o, what)()
            if what == "vars":
                list(r)
        elif what == "free_vars":
            list(o.free_vars(dict(list(env.items())[:1])))
        elif what in ("str", "repr"):
            (str if what == "str" else repr)(o)
        elif what == "equals":
            for x in others:
                o.equals(x)
        elif what == "iterate":
            if isinstance(o, X.Collection):
                for _ in o:
                    pass
        elif what in ("constraint", "compiled-constraint"):
            c = ExpressionConstraint(o)
            if what != "constraint":
                c.compile()
            try:
                c.unsatisfied(env)
            except quiet:
                pass
            c.uncompile()
        else:
            m = Model()
            for n in names:
                m.add_int_variable(domain=DOM, name=n)
            try:
                m.add_constraint(o)
                for i, _ in enumerate(Solver(compile_constraints=env[names[0]] % 2 == 0).solve(m)):
                    if i > 3:
                        break
            except quiet:
                pass


PROP = C30()
