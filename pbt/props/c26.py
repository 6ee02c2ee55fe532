import itertools

from hypothesis import strategies as st

from .. import models as M
from ..core import Prop, require
from .c06 import make_objective, objective_exprs, value, better


class WatchConstraint(M.ModConstraint):
    """A user-defined constraint that reports every assignment it is asked about."""

    def __init__(self, names, mod, rem, index, log):
        super().__init__(names, mod, rem)
        self._index = index
        self._log = log

    def evaluate(self, substitution):
        self._log(self._index, substitution)
        return super().evaluate(substitution)


@st.composite
def cases(draw, tier):
    spec = draw(M.mixed_specs(tier, M.model_specs(max_vars=5, min_vars=2, max_dom=5, max_cons=4, max_space=200 if tier == "quick" else 500,
                                                  extra=False, min_dom=1), most=60, extra=False, kinds=("wide", "constraints", "groups")))
    n = len(spec["vars"])
    cfg = draw(M.CONFIG)
    deep = draw(st.integers(0, 11)) == 0
    if deep:
        # more variables, few partial assignments
        spec, cfg = draw(M.chains(tier, 6, 14, 60))
        n = len(spec["vars"])
    watch = []
    for _ in range(draw(st.integers(1, 3))):
        k = draw(st.integers(1, min(3, n)))
        mod = draw(st.integers(2, 6))
        watch.append([list(draw(st.permutations(range(n)))[:k]), mod, draw(st.integers(0, mod - 1))])
        if deep and draw(st.booleans()):
            i = draw(st.integers(0, n - k))
            watch[-1][0] = list(range(i, i + k))
    # where the watchers are declared among the other constraints
    at = [draw(st.integers(0, len(spec["cons"]))) for _ in watch]
    obj = None
    if not deep and draw(st.integers(0, 3)) == 0:
        obj = [draw(st.sampled_from(["min", "max"])), draw(objective_exprs(spec, tier))]
    return {"spec": spec, "watch": watch, "at": at, "obj": obj, "cfg": cfg, "seed": draw(st.integers(0, 99)),
            "extra": draw(st.booleans())}


class C26(Prop):
    id = "C26"
    rule = ("random models with user-defined constraints that record the assignments they are asked about, solved or "
            "optimised under all configurations; non-trivial: a recorded assignment binds 3 variables or more, and "
            "some partial assignment violates a constraint")
    oracle = ("every recorded assignment respects, but for one of its variables, each constraint it binds completely "
              "(all-different ones pairwise) and the bound of the objective; the number of questions is compared with "
              "a count of the consistent partial assignments")
    quick = 12000
    thorough = 100000

    def strategy(self, tier):
        return cases(tier)

    def check(self, case, rec):
        import random
        spec, cfg, obj = case["spec"], case["cfg"], case["obj"]
        params = M.param_values(spec)
        n = len(spec["vars"])
        watch = case["watch"]
        cons = [c for c in spec["cons"]] + [["custom"] + w for w in watch]
        # in addition: pairs of all-different ones; constraints without variables bind from the start
        parts = []
        for c in cons:
            if c[0] == "alldiff":
                parts += [["alldiff", [a, b]] for a, b in itertools.combinations(sorted(set(c[1])), 2)]
            elif M.con_vars(c):
                parts.append(c)
        part_vars = [frozenset(M.con_vars(c)) for c in parts]
        memo = {}
        broken = [0]

        def respected(vals, bound):
            """All parts bound completely hold (vals: index -> value or None)."""
            key = tuple(v if i in bound else None for i, v in enumerate(vals))
            if key not in memo:
                memo[key] = all(M.con_holds(c, vals, params) for c, vs in zip(parts, part_vars) if vs <= bound)
                broken[0] += not memo[key]
            return memo[key]

        b = M.build(dict(spec, cons=[]))
        names = {name: i for i, name in enumerate(b.names)}
        asked = [0] * len(watch)
        best = [None]
        size = [0]
        ov = frozenset(())
        if obj:
            from .. import exprs
            ov = frozenset(exprs.names_in(obj[1]))
        use_extra = case["extra"] and not obj

        def log(k, substitution):
            asked[k] += 1
            vals = [None] * n
            for name, v in substitution.items():
                if name in names:
                    vals[names[name]] = v
            bound = frozenset(i for i in range(n) if vals[i] is not None)
            require(all(i in bound for i in watch[k][0]), "a constraint is evaluated on {}, where its variables are not all bound",
                    substitution)
            size[0] = max(size[0], len(bound))
            for v in sorted(bound):
                rest = bound - {v}
                if respected(vals, rest):
                    if best[0] is None or not ov <= rest or better(obj, vals, best[0], params):
                        return
            require(False, "{} is tried, although it violates a constraint whatever its last variable is ({})", dict(substitution), cfg)

        watchers = [WatchConstraint([b.vars[i].name for i in w[0]], w[1], w[2], k, log) for k, w in enumerate(watch)]
        for pos in range(len(spec["cons"]) + 1):
            if not use_extra:
                for k, at in enumerate(case["at"]):
                    if at == pos:
                        b.model.add_constraint(watchers[k])
            if pos < len(spec["cons"]):
                M.add(b, spec["cons"][pos])
        for name, v in zip(b.names, spec["vars"]):
            require(None not in v["dom"], "harness")
        random.seed(case["seed"])
        solver = M.make_solver(cfg)
        extra = watchers if use_extra else []
        count = 0
        if obj:
            for s in solver.optimize(b.model, make_objective(obj, b)):
                best[0] = M.as_tuple(s.solution, b)
                count += 1
        else:
            for s in solver.solve(b.model, additional_constraints=extra):
                count += 1
        rec.label("optimize" if obj else "additional" if use_extra else "solve", "policy:" + cfg["policy"])
        # questions: per order of the variables, every watcher can be asked once per value tried below a
        # consistent partial assignment (twice if it is given to the call)
        if (n <= 4 or cfg["policy"] in ("ORDERED", "REVERSED")) and not obj:
            orders = list(itertools.permutations(range(n))) if n <= 4 else []
            if cfg["policy"] == "ORDERED":
                orders = [tuple(range(n))]
            elif cfg["policy"] == "REVERSED":
                orders = [tuple(reversed(range(n)))]
            most = [0] * len(watch)
            for order in orders:
                sizes = self.levels(spec, order, respected)
                for k, w in enumerate(watch):
                    last = max(order.index(i) for i in w[0])
                    c = sizes[last]
                    if len(set(w[0])) == 1:
                        c = max(c, len(spec["vars"][w[0][0]]["dom"]))
                    if use_extra:
                        c = sum(sizes[last:]) + c
                    most[k] = max(most[k], c)
            for k, w in enumerate(watch):
                once = 2 if use_extra else 1
                require(asked[k] <= once * most[k],
                        "constraint on {} evaluated {} times; {} values can be tried there ({})",
                        [b.names[i] for i in w[0]], asked[k], most[k], cfg)
            rec.label("counted", "counted:{}".format("additional" if use_extra else "deep" if n > 5 else "model"))
        rec.nontrivial = size[0] >= 3 and broken[0] > 0
        rec.label("asked={}".format("0" if not any(asked) else "1-9" if sum(asked) < 10 else "10-99" if sum(asked) < 100 else "100+"))
        rec.label("largest-assignment={}".format(size[0]))

    def levels(self, spec, order, respected):
        """-> for each position, how many values can be tried there (below consistent partial assignments)"""
        n = len(order)
        sizes = [0] * n
        vals = [None] * n

        def rec(k, bound):
            if k == n:
                return
            i = order[k]
            for v in spec["vars"][i]["dom"]:
                vals[i] = v
                sizes[k] += 1
                b2 = bound | {i}
                if respected(vals, b2):
                    rec(k + 1, b2)
            vals[i] = None
        rec(0, frozenset())
        return sizes


PROP = C26()
