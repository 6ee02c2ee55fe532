from hypothesis import strategies as st

from .. import models as M
from .. import puzzles as P
from ..core import Prop, require
from ..env import CLOCK
from satisfy.knapsack import KnapsackOptimizer
from satisfy.utils import INFINITY


@st.composite
def problems(draw, max_items=7):
    n = draw(st.sampled_from([3, 4, 5, 2, 6, 1, 0, 7, 8][:max_items + 1]))
    if max_items > 6 and draw(st.integers(0, 39)) == 39:
        n = draw(st.integers(9, 14))
    dims = draw(st.sampled_from([1, 2, 1, 2, 3, 0]))
    if max_items > 6 and draw(st.integers(0, 39)) == 39:
        dims = draw(st.integers(4, 12))
    sign = draw(st.sampled_from(["plus", "plus", "plus", "mixed"]))
    num = st.integers(0, 12) if sign == "plus" else st.integers(-9, 9)
    if n > 8 and draw(st.booleans()):       # nearly all of many light items can be taken
        num = st.sampled_from([0, 0, 0, 0, 1, 2])
    values = draw(st.lists(st.one_of(num, num, st.integers(-20, 60)), min_size=n, max_size=n))
    weights = [draw(st.lists(num, min_size=dims, max_size=dims)) for _ in range(n)]
    caps = []
    for d in range(dims):
        total = sum(w[d] for w in weights)
        caps.append(draw(st.one_of(st.integers(0, max(0, total)), st.integers(0, max(0, total)), st.integers(-10, 40))))
    return {"values": values, "capacities": caps, "weights": weights}


@st.composite
def cases(draw, tier):
    case = draw(problems(7 if tier == "quick" else 8))
    case["as"] = [draw(st.sampled_from(["list", "tuple", "generator"])) for _ in range(4)]
    case["limit"] = draw(st.sampled_from([None, None, None, "inf", 1, 2, 3]))
    case["cfg"] = draw(st.one_of(st.none(), M.CONFIG))
    # on a clock that moves by one whenever it is read
    case["timeout"] = draw(st.one_of(st.none(), st.none(), st.none(), st.integers(0, 30), st.integers(0, 200)))
    case["break"] = draw(st.sampled_from([None] * 6 + ["too-many", "too-few", "row-long", "row-short", "value", "capacity", "weight"]))
    case["at"] = draw(st.integers(0, 99))
    case["junk"] = draw(st.sampled_from([1.5, "3", None, [1], 2.0]))
    case["seed"] = draw(st.integers(0, 9))
    return case


class C18(Prop):
    id = "C18"
    rule = ("random problems (0-8, sometimes up to 14 items, 0-3 dimensions, any signs; sequences given as lists, tuples or iterators), limits, timeouts, "
            "configurations, and single defects in the input; non-trivial: well-formed with at least 2 items, some selection "
            "feasible and some not")
    oracle = "brute force over all selections"
    quick = 16000
    thorough = 100000
    budget = 80_000_000     # 2 ** 14 selections

    def strategy(self, tier):
        return cases(tier)

    def check(self, case, rec):
        import random
        values, caps, weights = list(case["values"]), list(case["capacities"]), [list(w) for w in case["weights"]]
        how, at, junk = case["break"], case["at"], case["junk"]
        expect = None
        n, dims = len(values), len(caps)
        if how == "too-many":
            weights.append([1] * dims)
            expect = ValueError
        elif how == "too-few" and n:
            weights.pop()
            expect = ValueError
        elif how == "row-long" and n:
            weights[at % n].append(1)
            expect = ValueError
        elif how == "row-short" and n and dims:
            weights[at % n].pop()
            expect = ValueError
        elif how == "value" and n:
            values[at % n] = junk
            expect = TypeError
        elif how == "capacity" and dims:
            caps[at % dims] = junk
            expect = TypeError
        elif how == "weight" and n and dims:
            weights[at % n][at // n % dims] = junk
            expect = TypeError

        def wrap(i, x):
            return {"list": list, "tuple": tuple, "generator": lambda y: (z for z in y)}[case["as"][i]](x)
        args = {}
        cfg = case["cfg"]
        if cfg:
            args = {"var_selection_policy": M.policy(cfg["policy"]), "compile_constraints": cfg["compile"]}
        lim = case["limit"]
        if lim is not None:
            args["limit"] = INFINITY if lim == "inf" else lim
        timeout = case["timeout"]
        if timeout is not None:
            args["timeout"] = timeout
        random.seed(case["seed"])
        given = []

        def make():
            rows = [wrap(3, w) for w in weights]
            given[:] = [wrap(0, values), wrap(1, caps), wrap(2, rows)]
            opt = KnapsackOptimizer(*given, **args)
            given.extend(rows)
            return opt
        if expect is not None:
            rec.label("defect:" + how)
            try:
                make()
            except expect:
                return
            except Exception as e:
                require(False, "{}: {!r} raised instead of {}", how, e, expect.__name__)
            require(False, "{} accepted: {} {} {}", how, values, caps, weights)
        best, feasible = P.knapsack_best(values, caps, weights)
        rec.nontrivial = n >= 2 and 0 < len(feasible) < 2 ** n
        rec.label("items={}".format(n), "dims={}".format(dims), "feasible" if feasible else "infeasible")
        opt = make()
        for x, was in zip(given, (values, caps)):
            require(case["as"].count("generator") or list(x) == was, "{} was changed to {}", was, x)
        for x in given:             # the caller's lists stay the caller's
            if isinstance(x, list) and case["seed"] % 2:
                x[:] = [1] if case["seed"] > 5 else [99 if isinstance(y, int) else y for y in x]
                rec.label("lists-changed")
        results = []
        for _ in range(2):
            random.seed(case["seed"])
            if timeout is not None:
                CLOCK.start(auto=1)
            r = opt()
            CLOCK.stop()
            timed_out = timeout is not None and opt.get_stats().interrupt == "timeout"
            if not feasible:
                require(r.solution is None and not r.is_optimal and r.value is None, "infeasible but {} returned", r)
                results.append(None)
                continue
            if timed_out:
                rec.label("timed-out", "timed-out:nothing" if r.solution is None else "timed-out:selection")
                require(not r.is_optimal, "claims optimality although stopped by a timeout")
                if r.solution is None:
                    require(r.value is None, "no selection but value {}", r.value)
                    results.append(None)
                    continue
            require(r.solution is not None, "feasible (best {}) but no selection (limit {})", best, lim)
            sel = tuple(int(x) for x in r.solution)
            require(sel in feasible, "selection {} is not feasible", sel)
            require(r.value == sum(s * v for s, v in zip(sel, values)), "value {} reported for {}", r.value, sel)
            ws = tuple(sum(s * w[d] for s, w in zip(sel, weights)) for d in range(dims))
            require(tuple(r.weights) == ws, "weights {} reported for {} instead of {}", r.weights, sel, ws)
            if r.is_optimal:
                require(r.value == best, "claims optimality with {} although {} is possible", r.value, best)
            if not isinstance(lim, int) and not timed_out:
                require(r.is_optimal is True, "optimality not claimed without limit or timeout: {}", r)
            else:
                rec.label("limited:" + ("optimal" if r.is_optimal else "not-claimed"))
            results.append((r.is_optimal, sel))
        require(results[0] == results[1], "asked again: {} then {}", results[0], results[1])


PROP = C18()
