import string

from hypothesis import strategies as st

from .. import exprs
from .. import models as M
from ..core import Prop, require
from satisfy import Maximize, Minimize, Model, Solver
from satisfy import expression as X
from satisfy.constraint import AllDifferentConstraint

GOOD = ["x", "y", "Z", "a1", "b_2", "long_name", "x\u00e9", "q\u00b2", "x__", "lambda", "sum", "v0", "v1", "v2", "v3", "p0", "p1",
        "p2", "var0", "var1", "v_0", "v_1", "x0", "x1", "n" * 33, "n" * 32 + "m", "long_name_" * 13, "q" + "\u00e9" * 300]
BAD = ["", "1x", "_x", "_v0", "_p1", "x y", "x\n", "x-", "\u00e9x", " x", "x ", "x.y", "x\n\n", "\ufb01x", "x:", "x\t", "x(", "\nx",
       "9", "_", "x\u00b7", "x'", "x\r", "-x", "x+y", "x" * 64 + ".", "_" + "n" * 33, "n" * 300 + " "]
NAME = st.one_of(st.sampled_from(GOOD), st.sampled_from(GOOD), st.sampled_from(BAD), st.none(),
                 st.text(alphabet="ab_1 \n\u00e9.", max_size=4), st.text(max_size=3))
DOM = st.one_of(
    st.lists(st.integers(-3, 3), max_size=4, unique=True),
    st.lists(st.integers(-3, 3), max_size=4, unique=True),
    st.lists(st.integers(-3, 3), min_size=2, max_size=5),                       # often repeated
    st.tuples(st.lists(st.integers(-9, 9), min_size=1, max_size=4, unique=True), st.integers(0, 3)).map(
        lambda t: t[0] + [t[0][t[1] % len(t[0])]]))                             # repeated at the end
LARGE = st.tuples(st.integers(-500, 500), st.integers(30, 260), st.sampled_from([1, 2, -3]), st.integers(-300, 300)).map(
    lambda t: [t[0] + i * t[2] for i in range(t[1])] + ([t[0] + t[3] % t[1] * t[2]] if t[3] >= 0 else []))     # half: one repeated
I = st.integers(0, 9)
OPS = st.one_of(
    st.tuples(st.just("int"), NAME, DOM, st.sampled_from(["list", "tuple", "set", "range"])),
    st.tuples(st.just("int"), NAME, DOM, st.sampled_from(["list", "tuple"])),
    st.tuples(st.just("int"), NAME, LARGE, st.sampled_from(["list", "tuple"])),
    st.tuples(st.just("bool"), NAME),
    st.tuples(st.just("param"), NAME, st.integers(-5, 5)),
    st.tuples(st.just("rel"), st.sampled_from(exprs.REL), I, I, st.integers(-4, 4)),
    st.tuples(st.just("rel"), st.sampled_from(exprs.REL), I, I, st.integers(-4, 4)),
    st.tuples(st.just("alldiff"), st.lists(I, min_size=1, max_size=4)),
    st.tuples(st.just("custom"), st.lists(I, min_size=1, max_size=3), st.integers(2, 4), st.integers(0, 1)),
    st.tuples(st.just("undef"), st.sampled_from(["rel", "alldiff", "custom", "or", "alone"]), I, st.booleans()),
    st.tuples(st.just("notcon"), st.sampled_from(["none", "str", "list", "object", "float", "dict", "class", "lambda"])),
    st.tuples(st.just("const"), st.sampled_from(["true", "true", "expr-true", "par-true", "con-true", "true", "expr-true",
                                                 "false", "expr-false", "par-false", "con-false"])),
    st.tuples(st.just("unsolvable")),
    st.tuples(st.just("solvable")),
    st.tuples(st.just("optimize"), I, st.booleans(), st.integers(0, 2)),
).map(list)


def valid(name):
    return name != "" and name[0] in string.ascii_letters and all(c.isalnum() or c == "_" for c in name)


class C12(Prop):
    id = "C12"
    rule = ("random sequences of model-building calls, valid and invalid mixed (names, domains, undefined variables, "
            "non-constraints, constant constraints, marking unsolvable); non-trivial: at least one call accepted, at least "
            "one rejected, and a constraint stored")
    oracle = "reference model (ordered dict, constraint list, solvable flag) compared after every call; rejections leave no trace"
    quick = 15000
    thorough = 200000

    def strategy(self, tier):
        return st.fixed_dictionaries({"ops": st.lists(OPS, min_size=4, max_size=20 if tier == "quick" else 40)})

    def fixed(self, tier):
        # many declarations, some refused
        out = [{"ops": [["int", "a", [1, 2, 3], "list"], ["param", "p", 3], ["undef", how, 0, par]]}
               for how in ("alldiff", "custom", "rel", "alone") for par in (True, False)]
        for n in (130, 300):
            ops = []
            for i in range(n):
                ops.append(["int", "n%d" % i if i % 3 else None, [0, 1, i + 2], "list"])
                if i % 7 == 0:
                    ops.append(["param", "n%d" % (i // 2), 3])
                    ops.append(["rel", "<", i, i // 2, 1])
                if i % 40 == 39:
                    ops.append(["alldiff", list(range(i))])
            ops += [["undef", "or", 3, False], ["undef", "alldiff", 5, True], ["undef", "custom", 8, True],
                    ["bool", "n1"], ["bool", "n%d" % (n - 1)], ["int", None, list(range(n)) + [n - 1], "list"]]
            out.append({"ops": ops})
        return out

    def check(self, case, rec):
        m = Model()
        ref = {}              # name -> ("var", domain object, variable) | ("par", value, parameter)
        cons = []             # predicates with their variable names
        state = {"solvable": True}
        never = False         # a constantly false constraint was added
        accepted = rejected = 0
        undefined = X.Variable("undefined_zz")

        def snapshot():
            return ([(n, i.variable, i.domain) for n, i in m.variables().items()], list(m.constraints()), m.solvable())

        def same(a, b):
            return (len(a[0]) == len(b[0]) and all(x[0] == y[0] and x[1] is y[1] and x[2] is y[2] for x, y in zip(a[0], b[0]))
                    and len(a[1]) == len(b[1]) and all(x is y for x, y in zip(a[1], b[1])) and a[2] == b[2])

        def verify():
            require(list(m.variables()) == list(ref), "variables are {} instead of {}", list(m.variables()), list(ref))
            for n, (kind, dom, obj) in ref.items():
                info = m.variables()[n]
                require(info.variable is obj and m.get_variable(n) is obj, "variable {!r} is not the object returned", n)
                if kind == "par":
                    require(info.domain is None, "parameter {!r} has domain {!r}", n, info.domain)
                    require(dom is None or obj.value == dom, "parameter {!r} has value {!r}", n, obj.value)
                else:
                    for d in (info.domain, m.get_var_domain(n), m.get_var_domain(obj)):
                        require(list(d) == list(dom), "domain of {!r} is {!r} instead of {!r}", n, d, dom)
            require(bool(m.solvable()) == state["solvable"], "solvable() is {!r}", m.solvable())
            stored = [c for c in m.constraints() if len(c.vars()) > 0]
            require(len(stored) == len(cons), "{} constraints over variables instead of {}", len(stored), len(cons))
            for c, (names, fn) in zip(stored, cons):
                require(set(c.vars()) == set(names), "constraint {} over {} instead of {}", c, c.vars(), names)
                for shift in (0, 1, 5):
                    env = {n: (i * (shift + 1) + shift) % 4 for i, n in enumerate(sorted(ref))}
                    require(bool(c.evaluate({n: env[n] for n in names})) == bool(fn(env)),
                            "constraint {} differs from the one added under {}", c, env)

        verify()
        for op in case["ops"]:
            before = snapshot()
            expect = None
            call = None
            after = lambda res: None
            k = op[0]
            vs = [n for n, x in ref.items() if x[0] == "var"]
            if k in ("int", "bool", "param"):
                name = op[1]
                if name is not None and (not valid(name) or name in ref):
                    expect = ValueError
                    rec.label("bad-name" if not valid(name) else "name-in-use")
                if k == "int":
                    dom = op[2]
                    kind = op[3]
                    if kind == "range":
                        obj = range(dom[0] if dom else 0, dom[0] + len(dom) if dom else 0)
                    else:
                        obj = M.domain_object(kind, dom)
                    if len(set(obj)) != len(list(obj)):
                        expect = ValueError
                        rec.label("repeated-value")
                    call = lambda: m.add_int_variable(obj, name=name)
                elif k == "bool":
                    obj = (0, 1)
                    call = lambda: m.add_bool_variable(name=name)
                else:
                    obj = op[2]
                    call = lambda: m.add_parameter(obj, name=name)

                def after(res, k=k, name=name, obj=obj):
                    require(isinstance(res, X.Variable) and isinstance(res, X.Parameter) == (k == "param"),
                            "{!r} returned", res)
                    if name is None:
                        require(isinstance(res.name, str) and res.name not in ref, "unnamed: name {!r} given", res.name)
                        rec.label("unnamed")
                    else:
                        require(res.name == name, "named {!r} instead of {!r}", res.name, name)
                    ref[res.name] = ("par" if k == "param" else "var", obj, res)
            elif k == "rel":
                if not vs:
                    continue
                a, b_ = vs[op[2] % len(vs)], vs[op[3] % len(vs)]
                f = exprs.REF[op[1]]
                n = op[4]
                if a == b_:
                    e = exprs.PYOP[op[1]](ref[a][2], n)
                    fn, names = (lambda env, a=a, f=f, n=n: f(env[a], n)), {a}
                else:
                    e = exprs.PYOP[op[1]](ref[a][2], ref[b_][2] + n)
                    fn, names = (lambda env, a=a, b_=b_, f=f, n=n: f(env[a], env[b_] + n)), {a, b_}
                call = lambda: m.add_constraint(e)
                after = lambda res, fn=fn, names=names: cons.append((names, fn))
                rec.label("expression-constraint")
            elif k in ("alldiff", "custom"):
                if not vs:
                    continue
                names = [vs[i % len(vs)] for i in op[1]]
                if k == "alldiff":
                    objs = [ref[n][2] for n in names]
                    call = lambda: m.add_all_different_constraint(objs)
                    fn = lambda env, s=sorted(set(names)): len({env[n] for n in s}) == len(s)
                else:
                    con = M.ModConstraint(names, op[2], op[3])
                    call = lambda: m.add_constraint(con)
                    fn = lambda env, s=list(names), mod=op[2], r=op[3]: sum(env[n] for n in s) % mod != r
                after = lambda res, fn=fn, names=names: cons.append((set(names), fn))
                rec.label(k)
            elif k == "undef":
                known = ref[vs[op[2] % len(vs)]][2] if vs else undefined
                expect = ValueError
                ps = [x[2] for x in ref.values() if x[0] == "par"]
                missing = undefined
                if op[3] and ps:            # a parameter is no variable
                    missing = ps[op[2] % len(ps)]
                    if op[1] not in ("alldiff", "custom"):
                        missing = X.Variable(missing.name)
                    rec.label("parameter-for-variable")
                else:
                    rec.label("undefined-variable")
                if op[1] == "rel":
                    e = known < missing
                elif op[1] == "or":
                    e = (known == 1) | (missing == 1)
                elif op[1] == "alone":
                    e = missing != 0
                elif op[1] == "alldiff":
                    e = None
                else:
                    e = M.ModConstraint([known.name, missing.name], 2, 1)
                call = (lambda: m.add_all_different_constraint([known, missing])) if e is None else \
                    (lambda: m.add_constraint(e))
            elif k == "notcon":
                thing = {"none": None, "str": "x < 1", "list": [True], "object": object(), "float": 1.5, "dict": {},
                         "class": AllDifferentConstraint, "lambda": verify}[op[1]]
                expect = TypeError
                call = lambda: m.add_constraint(thing)
                rec.label("non-constraint")
            elif k == "const":
                truth = op[1].endswith("true")
                if op[1].startswith("expr"):
                    thing = X.Const(4 if truth else 0)
                elif op[1].startswith("par"):
                    thing = X.Parameter("anything", 3 if truth else -3) > 0
                elif op[1].startswith("con-"):
                    thing = M.ConstConstraint(truth)
                else:
                    thing = truth
                call = lambda: m.add_constraint(thing)
                if not truth:
                    never = True
                    after = lambda res: state.update(solvable=False)
                else:
                    n_before = len(before[1])

                    def after(res, n_before=n_before):
                        require(len(list(m.constraints())) == n_before, "constantly true constraint stored")
                rec.label("constant-" + ("true" if truth else "false"))
            elif k == "optimize":
                # solving in between: the model may get parameters of the solver's own, under names nobody can ask for
                size = 1
                for n in vs:
                    size *= len(list(ref[n][1]))
                if not vs or size > 300:
                    continue
                objective = (Minimize if op[2] else Maximize)(ref[vs[op[1] % len(vs)]][2] * 2)

                def call():
                    for _, _found in zip(range(op[3] + 1), Solver().optimize(m, objective)):
                        pass

                def after(res):
                    for n, info in m.variables().items():
                        if n not in ref:
                            require(info.domain is None and isinstance(info.variable, X.Parameter),
                                    "optimisation declared variable {!r}", n)
                            require(not valid(n), "optimisation took name {!r}", n)
                            ref[n] = ("par", None, info.variable)
                    require(list(m.constraints()) == before[1] and m.solvable() == before[2],
                            "optimisation changed the constraints or the solvable mark")
                rec.label("optimised-in-between")
            elif k == "solvable":
                if never:
                    continue
                rec.label("mark-taken-back" if not state["solvable"] else "marked-solvable")
                call = lambda: m.set_solvable(True)
                after = lambda res: state.update(solvable=True)
            else:
                call = lambda: m.set_solvable(False)
                after = lambda res: state.update(solvable=False)
                rec.label("marked-unsolvable")
            try:
                res = call()
            except (ValueError, TypeError) as e:
                require(expect is not None, "{} refused: {!r}", op, e)
                require(isinstance(e, expect), "{} raises {!r} instead of {}", op, e, expect.__name__)
                require(same(before, snapshot()), "rejected call {} changed the model: {} -> {}", op, before, snapshot())
                rejected += 1
            else:
                require(expect is None, "{} accepted", op)
                after(res)
                accepted += 1
            verify()
        rec.nontrivial = bool(accepted and rejected and cons)


PROP = C12()
