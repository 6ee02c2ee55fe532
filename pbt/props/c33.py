import itertools
import random

from hypothesis import strategies as st

from .. import exprs
from .. import models as M
from ..core import Prop, require
from .c06 import objective_exprs, make_objective, better
from satisfy.constraint import AllDifferentConstraint, Constraint, ConstConstraint, ExpressionConstraint
from satisfy.objective import Objective


# ---------------------------------------------------------------- user-defined constraints

YES = {"bool": True, "int": 7, "negative": -1, "str": "no", "list": [0], "float": 0.5, "object": object()}
NO = {"bool": False, "int": 0, "negative": 0, "str": "", "list": [], "float": 0.0, "object": None}


class Verdict(M.ModConstraint):
    """What it returns is true or false, but need not be a bool."""

    def __init__(self, names, mod, rem, kind):
        super().__init__(names, mod, rem)
        self._kind = kind

    def evaluate(self, substitution):
        return (YES if super().evaluate(substitution) else NO)[self._kind]


class AtMost(Constraint):
    """The sum is at most the bound; rejects as soon as that has become impossible."""

    def __init__(self, names, lowest, bound):
        super().__init__(names)
        self._lowest = lowest
        self._bound = bound

    def evaluate(self, substitution):
        return sum(substitution[n] for n in self._lowest) <= self._bound

    def unsatisfied(self, substitution):
        return sum(substitution.get(n, low) for n, low in self._lowest.items()) > self._bound


class Compound(Constraint):
    """All, any or an odd number of other constraints."""

    def __init__(self, parts, how):
        super().__init__(name for p in parts for name in p.vars())
        self._parts = parts
        self._how = how

    def evaluate(self, substitution):
        truth = [bool(p.evaluate(substitution)) for p in self._parts]
        return all(truth) if self._how == "all" else any(truth) if self._how == "any" else sum(truth) % 2 == 1

    def compile(self):
        for p in self._parts:
            p.compile()

    def uncompile(self):
        for p in self._parts:
            p.uncompile()

    def is_compiled(self):
        return all(p.is_compiled() for p in self._parts)


class Refined(ExpressionConstraint):
    """An expression and something that is not one."""

    def __init__(self, expression, mod, rem):
        super().__init__(expression)
        self._mod = mod
        self._rem = rem

    def evaluate(self, substitution):
        return super().evaluate(substitution) and sum(substitution[n] for n in self.vars()) % self._mod != self._rem


def as_constraint(c, b):
    o = M.build_con(c, b)
    return o if isinstance(o, Constraint) else ExpressionConstraint(o)


def build_user(c, b, spec):
    k = c[0]
    names = [b.names[i] for i in c[1]] if k in ("verdict", "atmost", "table") else None
    if k == "verdict":
        return Verdict(names, *c[2:])
    if k == "atmost":
        return AtMost(names, {b.names[i]: min(spec["vars"][i]["dom"]) for i in c[1]}, c[2])
    if k == "compound":
        return Compound([as_constraint(x, b) for x in c[1]], c[2])
    if k == "refined":
        e = exprs.build_expr(c[1], b.vars, b.params)
        return Refined(M.satisfy.expression.Expression.coerce(e), c[2], c[3])
    require(False, "harness: {}", k)


def user_holds(c, values, params, used=None):
    k = c[0]
    if k == "verdict":
        return sum(values[i] for i in c[1]) % c[2] != c[3]
    if k == "atmost":
        return sum(values[i] for i in set(c[1])) <= c[2]
    if k == "compound":
        truth = [M.con_holds(x, values, params) for x in c[1]]
        return all(truth) if c[2] == "all" else any(truth) if c[2] == "any" else sum(truth) % 2 == 1
    # refined: over the variables the expression reports
    return M.con_holds(["expr", c[1]], values, params) and sum(values[i] for i in used) % c[2] != c[3]


# ---------------------------------------------------------------- user-defined objectives

class Record(object):
    def __init__(self):
        self.made = []
        self.told = []
        self.times = 1          # how often the objective is in the list


class State(Constraint):
    """Holds what has been found; only ever tightens."""

    def __init__(self, names, known, accepts):
        super().__init__(names)
        self._known = known
        self._accepts = accepts

    def evaluate(self, substitution):
        return self._accepts(self._known, substitution)


class UserObjective(Objective):
    """kind: novel (a value of the expression not seen before), far (differs from each one found in k places),
    step (better by k at least), ties (not worse), lex (better in the first, or as good and better in the second),
    free (anything)."""

    def __init__(self, o, b, log):
        self.o = o
        self.b = b
        self.log = log
        self.exprs = [M.satisfy.expression.Expression.coerce(exprs.build_expr(e, b.vars, b.params)) for e in o["exprs"]]
        self.names = sorted({n for e in self.exprs for n in e.vars()})
        self._expression = self.exprs[0]

    def measure(self, s):
        return [int(e.evaluate(s)) for e in self.exprs]

    def accepts(self, known, s):
        kind, k = self.o["kind"], self.o["k"]
        if kind == "free":
            return True
        if kind == "far":
            return all(sum(s[n] != f[n] for n in self.names) >= k for f in known)
        now = self.measure(s)
        if kind == "novel":
            return all(now[0] != self.measure(f)[0] for f in known)
        for f in known:
            old = self.measure(f)
            if kind == "step" and not now[0] <= old[0] - k:
                return False
            if kind == "ties" and not now[0] <= old[0]:
                return False
            if kind == "lex" and not now < old:
                return False
        return True

    def fresh(self, known):
        return State(self.names, known, self.accepts)

    def make_constraint(self, model):
        require(model is self.b.model, "asked for a constraint for another model")
        known = []
        c = self.fresh(known)
        self.log.made.append([c, known])
        return c

    def add_solution(self, constraint, substitution):
        mine = [known for c, known in self.log.made[-self.log.times:] if c is constraint]
        require(mine, "told of a solution with another constraint than the one made")
        self.log.told.append(dict(substitution))
        mine[0].append(dict(substitution))
        require(len(mine[0]) == len(self.log.told[::self.log.times]), "told twice of a solution with one of {} constraints", self.log.times)


class ByParameter(UserObjective):
    """A step objective by way of a parameter and an expression."""

    def make_constraint(self, model):
        self.bound = model.add_parameter(10 ** 400)       # beyond any value
        c = ExpressionConstraint(self.exprs[0] + self.o["k"] <= self.bound)
        self.log.made.append([c, []])
        return c

    def add_solution(self, constraint, substitution):
        super().add_solution(constraint, substitution)
        self.bound.value = self.measure(substitution)[0]
        if constraint.is_compiled():
            constraint.compile()


@st.composite
def user_constraints(draw, spec):
    nv = len(spec["vars"])
    idx = list(range(nv))
    chosen = list(draw(st.permutations(idx))[:draw(st.integers(0 if draw(st.integers(0, 9)) == 0 else 1, min(4, nv)))])
    k = draw(st.sampled_from(["verdict", "verdict", "atmost", "atmost", "compound", "compound", "refined"]))
    if k == "verdict":
        mod = draw(st.integers(2, 6))
        return [k, chosen, mod, draw(st.integers(0, mod - 1)), draw(st.sampled_from(sorted(YES)))]
    if k == "atmost":
        most = sum(max(spec["vars"][i]["dom"]) for i in chosen)
        least = sum(min(spec["vars"][i]["dom"]) for i in chosen)
        return [k, chosen, draw(st.integers(least, most)) if draw(st.integers(0, 9)) else least - 1]
    if k == "compound":
        parts = draw(st.lists(M.constraints(spec, None), min_size=1, max_size=3))
        return [k, parts, draw(st.sampled_from(["all", "any", "any", "odd"]))]
    mod = draw(st.integers(2, 6))
    return [k, ["<", draw(objective_exprs(spec, "quick")), ["i", draw(st.integers(-3, 9))]], mod, draw(st.integers(0, mod - 1))]


@st.composite
def cases(draw, tier):
    spec = draw(M.mixed_specs(tier, M.model_specs(
        max_vars=5, min_vars=1, max_dom=4, max_cons=2, max_space=120 if tier == "quick" else 400, extra=False, min_dom=1), most=80, extra=False))
    user = [[draw(st.sampled_from(["model", "model", "call"])), draw(user_constraints(spec))] for _ in range(draw(st.sampled_from([0, 1, 1, 2, 2, 3])))]
    objs = []
    if draw(st.integers(0, 2)):
        for _ in range(draw(st.sampled_from([1, 1, 1, 2, 2, 3]))):
            if draw(st.integers(0, 4)) == 0:
                objs.append([draw(st.sampled_from(["min", "max"])), draw(objective_exprs(spec, tier))])
            else:
                kind = draw(st.sampled_from(["novel", "far", "far", "step", "ties", "lex", "lex", "free", "parameter"]))
                objs.append({"kind": kind, "exprs": [draw(objective_exprs(spec, tier)) for _ in range(2 if kind in ("lex", "far") else 1)],
                             "k": draw(st.integers(1, 3))})
    return {"spec": spec, "user": user, "objs": objs, "cfg": draw(M.CONFIG), "seed": draw(st.integers(0, 99)),
            "limit": draw(st.sampled_from([None, None, None, 1, 2])), "again": draw(st.booleans()),
            "as": draw(st.sampled_from(["list", "tuple", "generator"])), "twice": draw(st.sampled_from([-1, -1, -1, 0, 1, 2])), "optimal": draw(st.integers(0, 3)) == 0}


class C33(Prop):
    id = "C33"
    rule = ("small random models with 0-3 user-defined constraints (verdicts of any type, early rejection of partial assignments, "
            "compounds of other constraints, refined expression constraints) in the model or the call, solved or optimised under 1-3 "
            "objectives, most of them user-defined (novel values, diverse solutions, steps, ties, lexicographic, unrestricted); "
            "non-trivial: some but not all assignments are feasible, or two solutions are told to an objective")
    oracle = ("brute force with the user's verdicts; an enumeration without objectives of which the objectives' own rules pick, one by one, "
              "the first solution they accept; the log of calls")
    quick = 10000
    thorough = 100000

    def strategy(self, tier):
        return cases(tier)

    def check(self, case, rec):
        spec, cfg, seed = case["spec"], case["cfg"], case["seed"]
        params = M.param_values(spec)
        b = M.build(spec)
        call = []
        used = []
        for where, c in case["user"]:
            o = build_user(c, b, spec)
            used.append([b.names.index(n) for n in o.vars()])
            rec.label("user:" + c[0], "where:" + where)
            rec.label_if(not o.vars(), "user:no-variable")
            rec.label_if(len(o.vars()) == 1, "user:one-variable")
            if where == "model":
                b.model.add_constraint(o)
            else:
                call.append(o)
        sols = [t for t in M.ref_solutions(spec)
                if all(user_holds(c, t, params, u) for (_, c), u in zip(case["user"], used))]
        feasible = set(sols)
        space = 1
        for v in spec["vars"]:
            space *= len(v["dom"])
        rec.nontrivial = 0 < len(sols) < space and bool(case["user"])
        lim = case["limit"]
        kw = {} if lim is None else {"limit": lim}
        solver = M.make_solver(cfg)

        def every(extra=()):
            random.seed(seed)
            return M.enumerate_solutions(solver.solve(b.model, additional_constraints=M.passed(call + list(extra), seed + 1)), len(sols) + 50, b)

        got = every()
        require(sorted(got) == sorted(sols), "solutions {} instead of {} ({})", sorted(got)[:5], sorted(sols)[:5], cfg)
        if not case["objs"]:
            return
        log = [Record() for _ in case["objs"]]
        objectives = []
        for o, record in zip(case["objs"], log):
            if isinstance(o, list):
                objectives.append(make_objective(o, b))
                rec.label("objective:" + o[0])
            else:
                objectives.append((ByParameter if o["kind"] == "parameter" else UserObjective)(o, b, record))
                rec.label("objective:" + o["kind"])
        mult = [1] * len(objectives)
        again = case.get("twice", -1)
        if 0 <= again < len(objectives) and not isinstance(objectives[again], ByParameter):
            rec.label("same-objective-twice")
            mult[again] = log[again].times = 2
        everyone = objectives + [o for o, k in zip(objectives, mult) if k == 2]
        for turn in range(2 if case["again"] else 1):
            for record in log:
                record.told.clear()
            before = [len(r.made) for r in log]
            arg = objectives[0] if len(everyone) == 1 and case["as"] != "list" else \
                {"list": list, "tuple": tuple, "generator": iter}[case["as"]](everyone)
            found = []
            random.seed(seed)
            if case["optimal"]:
                r = solver.optimal_solution(b.model, arg, additional_constraints=M.passed(call, seed), **kw)
                told = [rr.told[::rr.times] for rr, o in zip(log, case["objs"]) if not isinstance(o, list)]
                if not told:
                    return
                found = [M.as_tuple(s, b) for s in told[0]]
                require((r.solution is None) == (not found), "{} returned, told {}", r, found)
                require(r.solution is None or M.as_tuple(r.solution, b) == found[-1], "{} returned instead of the last one {}", r, found[-1:])
            else:
                for opt in solver.optimize(b.model, arg, additional_constraints=M.passed(call, seed), **kw):
                    t = M.as_tuple(opt.solution, b)
                    found.append(t)
                    require(len(found) <= len(sols), "more solutions than feasible assignments")
                    for o, record in zip(case["objs"], log):
                        if not isinstance(o, list):
                            require([M.as_tuple(s, b) for s in record.told] == [t for t in found for _ in range(record.times)], "told of {} when {} are delivered",
                                    record.told, found)
            for o, record, n in zip(case["objs"], log, before):
                if not isinstance(o, list):
                    require(len(record.made) == n + record.times, "asked for {} constraints in one optimisation", len(record.made) - n)
                    require([M.as_tuple(s, b) for s in record.told] == [t for t in found for _ in range(record.times)],
                            "told of {} instead of {}", record.told, found)
            require(set(found) <= feasible, "{} are not feasible", [t for t in found if t not in feasible])
            require(len(set(found)) == len(found) or any(not isinstance(o, list) for o in case["objs"]), "{} repeated", found)
            require(lim is None or len(found) <= lim, "{} solutions with limit {}", len(found), lim)
            rec.nontrivial = rec.nontrivial or len(found) > 1
            rec.label("told={}".format(min(len(found), 4)))
            self.accepted(case, b, objectives, found, sols, lim, params)
            if len(case["objs"]) == 1 and isinstance(case["objs"][0], dict) and case["objs"][0]["kind"] != "parameter":
                # the first ones that the objective accepts, out of an enumeration in the same order
                o = objectives[0]
                known = []
                greedy = []
                for t in every([o.fresh([])]):
                    s = dict(zip(b.names, t))
                    if o.accepts(known, s):
                        known.append(s)
                        greedy.append(t)
                        if lim is not None and len(greedy) >= lim:
                            break
                require(found == greedy, "{} instead of {} for {} ({})", found, greedy, case["objs"][0], cfg)

    def accepted(self, case, b, objectives, found, sols, lim, params):
        """Each solution is acceptable after those before it; at the end nothing acceptable is left out."""
        def ok(known, t):
            for o, objective in zip(case["objs"], objectives):
                if isinstance(o, list):
                    if known and not better(o, t, known[-1], params):
                        return False
                elif o["kind"] == "parameter":
                    if known and not objective.measure(named(t))[0] + o["k"] <= objective.measure(named(known[-1]))[0]:
                        return False
                elif not objective.accepts([named(x) for x in known], named(t)):
                    return False
            return True

        def named(t):
            return dict(zip(b.names, t))

        for i, t in enumerate(found):
            require(ok(found[:i], t), "{} after {} is not acceptable to {}", t, found[:i], case["objs"])
        if lim is None or len(found) < lim:
            left = [t for t in sols if t not in found and ok(found, t)]
            require(not left, "{} acceptable after {} to {} but not delivered", left[:3], found, case["objs"])


PROP = C33()
