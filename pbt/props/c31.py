import gc
import itertools
import random
import tracemalloc

from hypothesis import strategies as st

from .. import exprs  # noqa: F401
from .. import models as M
from ..core import Prop, require
from satisfy import Model, Maximize, Minimize
from satisfy.cryptarithm import CryptarithmSolver
from satisfy.graph_labeling import GraphLabelingSolver
from satisfy.sudoku import SudokuSolver
from satisfy.tool.ascii_map_coloring import AsciiMapColoringSolver
from satisfy.utils import INFINITY
from .c06 import make_objective, objective_exprs
import networkx as nx


class Logged(M.ModConstraint):
    def __init__(self, names, mod, rem, log):
        super().__init__(names, mod, rem)
        self._log = log

    def evaluate(self, substitution):
        self._log.append(tuple(sorted(substitution.items())))
        return super().evaluate(substitution)


@st.composite
def log_cases(draw, tier):
    spec = draw(M.mixed_specs(tier, M.model_specs(max_vars=5, min_vars=1, max_dom=4, max_cons=3, max_space=150, extra=False, min_dom=1),
                              extra=False))
    n = len(spec["vars"])
    watch = []
    for _ in range(draw(st.integers(1, 2))):
        k = draw(st.integers(1, min(3, n)))
        mod = draw(st.integers(2, 6))
        watch.append([list(draw(st.permutations(range(n)))[:k]), mod, draw(st.integers(0, mod - 1))])
    obj = None
    if draw(st.integers(0, 2)) == 0:
        obj = [draw(st.sampled_from(["min", "max"])), draw(objective_exprs(spec, tier))]
    second = None
    if obj and draw(st.booleans()):     # a list of objectives
        second = [draw(st.sampled_from(["min", "max"])), draw(objective_exprs(spec, tier))]
    return {"kind": "log", "spec": spec, "watch": watch, "obj": obj, "second": second, "cfg": draw(M.CONFIG), "seed": draw(st.integers(0, 99)),
            "take": draw(st.integers(0, 6)), "how": draw(st.sampled_from(["next", "next", "limit", "solver-limit"]))}


@st.composite
def vast_cases(draw, tier):
    n = draw(st.integers(20, 60 if tier == "quick" else 150))
    d = draw(st.integers(4, 12))
    cons = []
    for _ in range(draw(st.integers(0, n))):
        i, j = draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))
        # none of these ever cuts the last value of a variable
        cons.append(draw(st.sampled_from([["sum", i, j], ["unary", i, draw(st.integers(0, d - 1))], ["custom", i, j], ["diff", i, j]])))
    if draw(st.booleans()):
        k = draw(st.integers(2, d))
        cons.append(["alldiff", list(draw(st.permutations(range(n)))[:k])])
    return {"kind": "vast", "n": n, "d": d, "cons": cons, "cfg": draw(M.CONFIG), "seed": draw(st.integers(0, 99)),
            "take": draw(st.integers(1, 6)), "obj": draw(st.sampled_from([None, None, "min", "max"])), "list": draw(st.booleans()),
            "names": draw(st.booleans()), "many": draw(st.integers(0, 19)) == 0}


@st.composite
def puzzle_cases(draw, tier):
    what = draw(st.sampled_from(["graph", "map", "crypt", "sudoku"]))
    case = {"kind": "puzzle", "what": what, "take": draw(st.integers(1, 5)), "many": draw(st.integers(0, 9)) == 0}
    if what == "graph":
        n = draw(st.integers(25, 60))
        case["edges"] = [[i, draw(st.integers(0, i - 1))] for i in range(1, n) if draw(st.booleans())]
        case["n"], case["labels"] = n, draw(st.integers(2, 4))
    elif what == "map":
        case["line"] = draw(st.sampled_from(["AB.", "A.", "AB", "ABA."])) * draw(st.integers(22, 34))
        case["down"] = draw(st.booleans())
    elif what == "crypt":
        letters = draw(st.permutations("ABCDEFGHIJ"))
        k = draw(st.integers(8, 10))
        cut = draw(st.integers(1, k - 1))
        case["source"] = "{} {} {} {} {}".format("".join(letters[:cut]), draw(st.sampled_from("+*")), "".join(letters[cut:k]),
                                                 draw(st.sampled_from(["!=", ">=", ">"])), draw(st.sampled_from(["0", "1", "7"])))
    else:
        # the empty grid (with givens the search may be long for other reasons)
        case["blank"] = draw(st.sampled_from([0, None]))
        case["take"] = draw(st.integers(1, 20))
    return case


class C31(Prop):
    id = "C31"
    rule = ("small models with a constraint that records the assignments it is asked about, taken apart by next() and by limits; models "
            "with 10^12 to 10^60 solutions and no dead ends, and puzzles with millions of solutions, of which 1-6 are taken; "
            "non-trivial: fewer solutions are taken than there are")
    oracle = ("the questions asked up to a solution are the first ones of the whole enumeration, and none is asked before the first "
              "request or after the limit; a step budget far below the number of solutions, each one verified; memory held after many solutions that are dropped")
    quick = 6000
    thorough = 50000
    budget = 3_000_000

    def strategy(self, tier):
        logs = log_cases(tier)
        return st.one_of(logs, logs, logs, vast_cases(tier), puzzle_cases(tier))

    def check(self, case, rec):
        rec.label("kind:" + case["kind"])
        getattr(self, "check_" + case["kind"])(case, rec)

    # -- what is asked up to the k-th solution

    def run_log(self, case, k=None, how=None):
        """-> (solutions taken, log, length of the log at each of them)"""
        spec = case["spec"]
        b = M.build(spec)
        log = []
        for w in case["watch"]:
            b.model.add_constraint(Logged([b.vars[i].name for i in w[0]], w[1], w[2], log))
        log.clear()         # (adding a constraint may have evaluated it)
        random.seed(case["seed"])
        solver = M.make_solver(case["cfg"])
        args = {}
        if how == "limit":
            args["limit"] = k
        elif how == "solver-limit":
            solver.limit = k
        if case["obj"]:
            objective = make_objective(case["obj"], b)
            if case.get("second"):
                objective = [objective, make_objective(case["second"], b)]
            it = solver.optimize(b.model, objective, **args)
        else:
            it = solver.solve(b.model, **args)
        it = iter(it)
        require(not log, "{} questions are asked before a solution is requested", len(log))
        got, at = [], []
        while how != "next" or len(got) < k:
            try:
                s = next(it)
            except StopIteration:
                break
            got.append(M.as_tuple(s.solution if case["obj"] else s, b))
            at.append(len(log))
        end = len(log)
        if how == "next" and hasattr(it, "close"):
            it.close()
            require(len(log) == end, "questions are asked when the enumeration is given up")
        return got, list(log), at

    def check_log(self, case, rec):
        k, how = case["take"], case["how"]
        full, flog, fat = self.run_log(case)
        got, log, at = self.run_log(case, k, how)
        rec.label("how:" + how, "policy:" + case["cfg"]["policy"],
                  "optimize-several" if case.get("second") else "optimize" if case["obj"] else "solve")
        rec.nontrivial = 0 < k < len(full)
        require(got == full[:k], "the first {} solutions are {} instead of {} ({})", k, got, full[:k], how)
        require(at == fat[:k], "questions asked up to each solution: {} instead of {} ({})", at, fat[:k], how)
        if k == 0:
            require(not log, "{} questions are asked for no solution ({})", len(log), how)
        elif len(got) == k:
            require(log == flog[:fat[k - 1]], "{} questions asked for {} solutions; {} were enough in the whole enumeration ({}, {})",
                    len(log), k, fat[k - 1], how, case["cfg"])
        else:
            require(log == flog, "questions differ in two runs of the whole enumeration")

    # -- far more solutions than can be listed

    def check_vast(self, case, rec):
        n, d = case["n"], case["d"]
        m = Model()
        xs = [m.add_int_variable(range(d), name="x{}".format(i) if case["names"] else None) for i in range(n)]
        tests = []
        for c in case["cons"]:
            if c[0] == "sum":
                m.add_constraint(xs[c[1]] + xs[c[2]] >= 0)
            elif c[0] == "diff":
                m.add_constraint(xs[c[1]] - xs[c[2]] < d)
            elif c[0] == "unary":
                m.add_constraint(xs[c[1]] <= d - 1 - c[2] // 4)
                tests.append(lambda t, c=c: t[c[1]] <= d - 1 - c[2] // 4)
            elif c[0] == "custom":
                m.add_constraint(M.ModConstraint([xs[c[1]].name, xs[c[2]].name], 2 * d + 1, 2 * d))
            else:
                m.add_all_different_constraint([xs[i] for i in c[1]])
                tests.append(lambda t, c=c: len({t[i] for i in c[1]}) == len(c[1]))
        cut = [c for c in case["cons"] if c[0] == "unary"]
        if cut and any(c[0] == "alldiff" and len(c[1]) > d - d // 4 for c in case["cons"]):
            rec.label("skipped:may-have-dead-ends")
            return
        random.seed(case["seed"])
        solver = M.make_solver(case["cfg"])
        rec.label("policy:" + case["cfg"]["policy"], "optimize" if case["obj"] else "solve")
        rec.nontrivial = True
        if case["obj"]:
            # variables not all at once: improving solutions come one after the other
            e = sum(xs[:3])
            objective = {"min": Minimize, "max": Maximize}[case["obj"]](e)
            it = solver.optimize(m, [objective, Maximize(xs[0] - xs[-1])] if case.get("list") else objective)
            k = 1
        else:
            it = solver.solve(m)
            k = case["take"]
        seen = set()
        for s in itertools.islice(it, k):
            s = s.solution if case["obj"] else s
            require(set(s) == {x.name for x in xs}, "a solution binds {}", sorted(s))
            t = tuple(s[x.name] for x in xs)
            require(all(v in range(d) for v in t) and all(f(t) for f in tests), "{} does not satisfy the model", t)
            seen.add(t)
        require(len(seen) == k, "{} different solutions among the first {}", len(seen), k)
        if case["many"] and not case["obj"]:
            rec.label("memory")
            self.memory(it)

    def memory(self, it, few=200, many=2500):
        """A long enumeration takes no more memory than a short one."""
        def take(k):
            for s in itertools.islice(it, k):
                pass
            del s
            gc.collect()
            return tracemalloc.get_traced_memory()[0]

        tracemalloc.start()
        try:
            one = take(few)
            two = take(many)
            require(two - one < many * 80, "{} bytes more are held after {} more solutions", two - one, many)
        finally:
            tracemalloc.stop()

    def check_puzzle(self, case, rec):
        k = case["take"]
        what = case["what"]
        rec.label("puzzle:" + what)
        rec.nontrivial = True
        if what == "graph":
            g = nx.Graph()
            g.add_nodes_from(range(case["n"]))
            g.add_edges_from(case["edges"])
            it = GraphLabelingSolver(g, list("abcd")[:case["labels"]])
            good = lambda s: set(s) == set(range(case["n"])) and all(s[a] != s[b] for a, b in case["edges"])
        elif what == "map":
            arg = list(case["line"]) if case["down"] else [case["line"]]
            it = AsciiMapColoringSolver(arg, limit=INFINITY)
            good = lambda s: [len(r) for r in s] == [len(r) for r in arg]
        elif what == "crypt":
            it = CryptarithmSolver(case["source"])
            good = lambda s: len(set(s.values())) == len(s) == len(set(case["source"]) & set("ABCDEFGHIJ"))
        else:
            it = SudokuSolver([[case["blank"]] * 9] * 9, limit=INFINITY)
            good = lambda s: all(sorted(r) == list(range(1, 10)) for r in s)
        it = iter(it)
        got = list(itertools.islice(it, k))
        require(len(got) == k, "{} solutions instead of {}", len(got), k)
        require(all(map(good, got)), "not a solution: {}", got)
        require(len({repr(sorted(s.items()) if isinstance(s, dict) else s) for s in got}) == k, "a solution comes twice")
        if case["many"] and what in ("graph", "map", "sudoku"):
            rec.label("memory:" + what)
            self.memory(it, 30, 300)


PROP = C31()
