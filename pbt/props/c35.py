import itertools
import random

from hypothesis import strategies as st

from .. import exprs
from .. import models as M
from ..core import Prop, require
from .c06 import better, make_objective, objective_exprs, value
from satisfy.constraint import Constraint, ExpressionConstraint
from satisfy.cryptarithm import CryptarithmSolver


class Broken(Exception):
    pass


ERRORS = {"broken": Broken, "key": KeyError, "value": ValueError, "type": TypeError, "attribute": AttributeError,
          "arithmetic": ArithmeticError, "assertion": AssertionError, "lookup": LookupError, "runtime": RuntimeError}


class Touchy(Constraint):
    """Cannot judge some assignments."""

    def __init__(self, names, c, raised):
        super().__init__(names)
        self._all = list(names)
        self._c = c
        self._raised = raised

    def evaluate(self, substitution):
        v = touchy(self._c, [substitution[n] for n in self._all])
        if v is None:
            e = ERRORS[self._c[5]]("cannot be judged")
            self._raised.append(e)
            raise e
        return v


def touchy(c, values):
    total = sum(values)
    if total % c[2] == c[3]:
        return None
    return total % 3 != c[4]


def lin(v, k):
    return v if not k else ["-", v, ["i", k]] if k > 0 else ["+", v, ["i", -k]]


@st.composite
def ratios(draw, spec):
    """(a relation on a quotient or remainder, its divisor)"""
    nv = len(spec["vars"])
    var = st.integers(0, nv - 1)
    j = draw(var)
    zero = draw(st.sampled_from(spec["vars"][j]["dom"] + [0]))
    by = lin(["v", j], zero)
    how = draw(st.integers(0, 7))
    if how == 0:
        by = ["-", ["v", draw(var)], ["v", j]]
    elif how == 1:
        by = ["*", by, lin(["v", draw(var)], draw(st.integers(-2, 2)))]
    elif how == 2:
        by = ["neg", by]
    elif how == 3:
        by = ["abs", by]
    top = draw(st.one_of(var.map(lambda i: ["v", i]), var.map(lambda i: ["v", i]), st.sampled_from([1, 5, -7, 12]).map(lambda k: ["i", k]),
                         st.tuples(var, var).map(lambda t: ["+", ["v", t[0]], ["v", t[1]]])))
    part = [draw(st.sampled_from(["/", "%"])), top, by]
    if draw(st.integers(0, 3)) == 0:
        part = ["+", part, ["v", draw(var)]]
    return [draw(st.sampled_from(exprs.REL)), part, ["i", draw(st.integers(-2, 3))]], by


@st.composite
def partial(draw, spec):
    nv = len(spec["vars"])
    if draw(st.integers(0, 3)) == 0:
        chosen = list(draw(st.permutations(range(nv)))[:draw(st.integers(1, min(3, nv)))])
        mod = draw(st.integers(2, 9))
        return ["touchy", chosen, mod, draw(st.integers(0, mod - 1)), draw(st.integers(0, 3)), draw(st.sampled_from(sorted(ERRORS)))]
    rel, by = draw(ratios(spec))
    how = draw(st.sampled_from(["bare", "bare", "and", "or", "late", "other", "other-or", "both"]))
    if how == "and":
        rel = ["&", ["!=", by, ["i", 0]], rel]
    elif how == "or":
        rel = ["|", ["==", by, ["i", 0]], rel]
    elif how == "late":
        rel = ["&", rel, ["!=", by, ["i", 0]]]
    elif how in ("other", "other-or"):
        g = [draw(st.sampled_from(exprs.REL)), ["v", draw(st.integers(0, nv - 1))], ["i", draw(st.integers(-2, 3))]]
        rel = ["&" if how == "other" else "|", g, rel]
    elif how == "both":
        rel2, by2 = draw(ratios(spec))
        rel = ["|", ["==", by, ["i", 0]], ["&", rel, ["&", ["!=", by2, ["i", 0]], rel2]]]
    return ["expr", rel]


@st.composite
def cases(draw, tier):
    if draw(st.integers(0, 99)) == 0:
        return {"kind": "cryptarithm", "words": [draw(st.sampled_from(["A", "AB", "7A"])), draw(st.sampled_from("BC")), draw(st.sampled_from("CD"))],
                "op": draw(st.sampled_from("/%")), "avoid": draw(st.booleans()), "compile": draw(st.booleans())}
    spec = draw(M.mixed_specs(tier, M.model_specs(min_vars=1, max_vars=4, max_dom=4, max_cons=2, max_space=120 if tier == "quick" else 300,
                                                  extra=False, min_dom=1), most=60, extra=False))
    n = draw(st.sampled_from([1, 1, 1, 2]))
    case = {"kind": "model", "spec": spec, "partial": [[draw(st.sampled_from(["model", "model", "call"])), draw(partial(spec))] for _ in range(n)],
            "cfg": draw(M.CONFIG), "seed": draw(st.integers(0, 99)), "first": draw(st.booleans()), "obj": None}
    if draw(st.integers(0, 2)) == 0:
        how = draw(st.integers(0, 2))
        e = draw(objective_exprs(spec, tier)) if how == 0 else draw(ratios(spec))[0][1]
        case["obj"] = [draw(st.sampled_from(["min", "max"])), e]
        if how == 2:
            case["partial"] = []
    return case


class C35(Prop):
    id = "C35"
    rule = ("small models with 1-2 constraints, or an objective, that cannot be evaluated on some assignments (quotients and remainders by "
            "something that may be 0, with and without guards; user-defined ones that raise), in the model or the call; non-trivial: "
            "an error is raised, or a guard keeps one from being raised")
    oracle = ("every assignment judged by plain Python: an error must come if one that nothing rules out cannot be judged, and none may come if "
              "no combination of values left by the constraints on single variables cannot; the solutions among them")
    quick = 9000
    thorough = 90000

    def strategy(self, tier):
        return cases(tier)

    def judge(self, c, t, params):
        """True, False or None (cannot be judged)"""
        if c[0] == "touchy":
            return touchy(c, [t[i] for i in c[1]])
        try:
            return bool(exprs.ref_eval(c[1], t, params))
        except exprs.Undefined:
            return None

    def check(self, case, rec):
        if case["kind"] == "cryptarithm":
            return self.check_cryptarithm(case, rec)
        spec, cfg, seed = case["spec"], case["cfg"], case["seed"]
        params = M.param_values(spec)
        doms = [list(v["dom"]) for v in spec["vars"]]
        partials = [c for _, c in case["partial"]]
        scopes = [sorted(c[1]) if c[0] == "touchy" else sorted(exprs.names_in(c[1])) for c in partials]

        # what is left of each domain by the ordinary constraints on one variable
        left = [list(d) for d in doms]
        for c in spec["cons"]:
            vs = M.con_vars(c)
            if len(vs) == 1:
                i = next(iter(vs))
                left[i] = [v for v in left[i] if M.con_holds(c, {i: v}, params)]

        def open_(scope, judge):
            """Can something go wrong for values that are left?"""
            use = left if len(scope) > 1 else doms
            return any(judge(dict(zip(scope, u))) is None for u in itertools.product(*[use[i] for i in scope]))

        good = M.ref_solutions(spec)
        sols = [t for t in good if all(self.judge(c, t, params) for c in partials)]
        must = any(all(self.judge(c, t, params) is not False for c in partials) and any(self.judge(c, t, params) is None for c in partials)
                   for t in good)
        may = any(open_(s, lambda u, c=c: self.judge(c, u, params)) for c, s in zip(partials, scopes))
        guarded = not may and any(c[0] == "expr" and not all(exprs.all_defined(c[1], t, params) for t in good) for c in partials)
        rec.label("must" if must else "may" if may else "guarded" if guarded else "defined")
        raised = []

        def make(c):
            if c[0] == "touchy":
                return Touchy([b.names[i] for i in c[1]], c, raised)
            return exprs.build_expr(c[1], b.vars, b.params)

        b = M.build(spec, only_vars=True)
        order = [c for where, c in case["partial"] if where == "model"]
        for c in (order + spec["cons"] if case["first"] else spec["cons"] + order):
            if c in spec["cons"]:
                M.add(b, c)
            else:
                b.model.add_constraint(make(c))
        call = [o if isinstance(o, Constraint) else ExpressionConstraint(o)
                for o in (make(c) for where, c in case["partial"] if where == "call")]
        solver = M.make_solver(cfg)
        runs = []
        for turn in range(2):
            random.seed(seed)
            del raised[:]
            got = []
            error = None
            try:
                for s in solver.solve(b.model, additional_constraints=M.passed(call, seed)):
                    got.append(M.as_tuple(s, b))
                    require(len(got) <= len(sols), "more than the {} solutions", len(sols))
            except (ZeroDivisionError,) + tuple(ERRORS.values()) as e:
                error = e
            self.judged(error, raised, must, may, partials, "the solve")
            wrong = [t for t in got if t not in sols]
            require(not wrong and len(set(got)) == len(got), "{} delivered instead of {}", got, sols)
            require(error is not None or len(got) == len(sols), "only {} delivered instead of {}", got, sols)
            count = solver.get_stats().count
            require(count == len(got), "count is {} after {} solutions", count, len(got))
            runs.append((got, type(error)))
            rec.label("raised" if error is not None else "quiet")
        require(runs[0] == runs[1], "{} first, then {}", *runs)
        rec.nontrivial = error is not None or guarded

        if case["obj"] is not None:
            self.check_objective(case, rec, b, solver, call, raised, sols, must, may, open_, params, partials)
        # the solver is none the worse for it
        plain = M.build(spec)
        again = M.enumerate_solutions(solver.solve(plain.model), len(good) + 20, plain)
        require(sorted(again) == sorted(good), "afterwards: {} instead of {}", again[:5], good[:5])

    def judged(self, error, raised, must, may, partials, what):
        if error is None:
            require(not must, "{} ended, though an assignment could not be judged", what)
            require(not raised, "{} swallowed {!r}", what, raised)
            return
        require(may, "{} raises {!r}, though every assignment not ruled out can be judged", what, error)
        require(any(error is e for e in raised) or not raised and type(error) is ZeroDivisionError,
                "{} raises {!r} instead of {}", what, error, raised or "ZeroDivisionError")

    def check_objective(self, case, rec, b, solver, call, raised, sols, must, may, open_, params, partials):
        o = case["obj"]

        def measure(t):
            try:
                return exprs.ref_eval(o[1], t, params)
            except exprs.Undefined:
                return None
        scope = sorted(exprs.names_in(o[1]))
        broken = any(measure(t) is None for t in sols)
        may = may or open_(scope, measure)
        objective = make_objective(o, b)
        random.seed(case["seed"])
        del raised[:]
        error = result = None
        try:
            result = solver.optimal_solution(b.model, objective, additional_constraints=M.passed(call, case["seed"] + 1))
        except (ZeroDivisionError,) + tuple(ERRORS.values()) as e:
            error = e
        # a constraint that cannot be judged somewhere may be out of reach once a bound is set
        self.judged(error, raised, broken or must and not sols, may, partials, "the optimisation")
        rec.label("objective-" + ("broken" if broken else "sound"), "optimisation-" + ("quiet" if error is None else "raised"))
        rec.nontrivial = rec.nontrivial or broken
        if error is not None:
            return
        if not sols:
            require(result.solution is None and not result.is_optimal, "{} without a feasible assignment", result)
            return
        require(result.solution is not None, "no solution, though {} are feasible", sols[:5])
        t = M.as_tuple(result.solution, b)
        require(t in sols, "{} is not feasible", t)
        require(result.is_optimal and not any(better(o, s, t, params) for s in sols), "{} of value {} is no optimum", t, measure(t))

    def check_cryptarithm(self, case, rec):
        a, by, c = case["words"]
        text = "{} {} {} == {}".format(a, case["op"], by, c)
        letters = sorted({ch for w in (a, by, c) for ch in w if ch.isalpha()})
        heads = {w[0] for w in (a, by, c) if w[0].isalpha()} if case["avoid"] else set()
        want, must = [], False
        for perm in itertools.permutations(range(10), len(letters)):
            d = dict(zip(letters, perm))
            if any(d[x] == 0 for x in heads):
                continue
            n, m, r = [int("".join(str(d.get(ch, ch)) for ch in w)) for w in (a, by, c)]
            if m == 0:
                must = True
            elif (n // m if case["op"] == "/" else n % m) == r:
                want.append(perm)
        got, error = [], None
        try:
            for s in CryptarithmSolver(text, avoid_leading_zeros=case["avoid"], compile_constraints=case["compile"]):
                got.append(tuple(s[x] for x in letters))
        except ZeroDivisionError as e:
            error = e
        self.judged(error, [], must, must, [], text)
        require(set(got) <= set(want) and len(set(got)) == len(got), "{}: {} instead of {}", text, got, want)
        require(error is not None or len(got) == len(want), "{}: {} instead of {}", text, got, want)
        rec.label("cryptarithm-" + ("raised" if must else "defined"))
        rec.nontrivial = True


PROP = C35()
