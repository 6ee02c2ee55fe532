import itertools
import random

from hypothesis import strategies as st

from .. import models as M
from .. import puzzles as P
from ..core import Prop, require
from ..env import CLOCK
from satisfy import Model, Solver
from satisfy.cryptarithm import CryptarithmSolver
from satisfy.graph_labeling import GraphLabelingSolver
from satisfy.knapsack import KnapsackOptimizer
from satisfy.nonogram import NonogramSolver
from satisfy.sudoku import SudokuSolver
from satisfy.tool.ascii_map_coloring import AsciiMapColoringSolver
from satisfy.tool.queens import QueensSolver
from satisfy.utils import INFINITY
from .c15 import schemas
from .c18 import problems
import networkx as nx

VALUES = {"policy": st.sampled_from(M.POLICIES), "limit": st.sampled_from([None, "inf", 0, 1, 2, 3, 5, 50]),
          "timeout": st.sampled_from([None, None, "inf", 0, 3, 10, 40, 150, 10 ** 9]), "compile": st.booleans()}
ATTR = {"policy": "var_selection_policy", "limit": "limit", "timeout": "timeout", "compile": "compile_constraints"}
WORDS = ["A + B == 7", "A + BC == CB", "AB + C >= 180", "A * B == C * D", "AB - BA == 9", "A + A == B", "AA + B == BA + C",
         "A + B + C < 6", "AB == 7 * C", "1A + B1 == 5C", "A != A", "A == A", "AB + BA == CDC", "a * b == 12"]


@st.composite
def instances(draw):
    what = draw(st.sampled_from(["graph", "map", "crypt", "nonogram", "sudoku", "queens", "knapsack", "knapsack"]))
    if what == "graph":
        n = draw(st.sampled_from([3, 2, 4, 1, 0]))
        pairs = [[i, j] for i in range(n) for j in range(i)]
        return [what, n, [p for p in pairs if draw(st.integers(0, 2)) == 0], draw(st.sampled_from([2, 3, 1]))]
    if what == "map":
        return [what, draw(st.lists(st.text(alphabet="AB.", min_size=1, max_size=4), min_size=1, max_size=3)), draw(st.sampled_from([2, 3, 1]))]
    if what == "crypt":
        return [what, draw(st.sampled_from(WORDS)), draw(st.booleans())]
    if what == "nonogram":
        nc = draw(st.integers(1, 4))
        return [what, P.clues(draw(st.lists(st.lists(st.integers(0, 1), min_size=nc, max_size=nc), min_size=1, max_size=3)))]
    if what == "sudoku":
        return [what, draw(schemas(draw(st.sampled_from(["rectangle", "rectangle", "random", "complete", "clash"])), max_blanks=6))["schema"]]
    if what == "queens":
        return [what, draw(st.sampled_from([4, 2, 1, 3, 5, 0]))]
    return [what, draw(problems(5))]


def settings(draw, p):
    return {k: draw(VALUES[k]) for k in VALUES if draw(st.integers(0, 9)) < p}


@st.composite
def cases(draw, tier):
    inst = draw(instances())
    queens = inst[0] == "queens" and inst[1] > 1
    ops = []
    for _ in range(draw(st.integers(1, 4 if tier == "quick" else 7))):
        k = draw(st.sampled_from(["set", "set", "take", "bad"]))
        if k == "set":
            key = draw(st.sampled_from(list(VALUES)))
            ops.append(["set", key, draw(VALUES[key])])
        elif k == "take":
            ops.append(["take", draw(st.integers(0, 3))])
        else:
            ops.append([k])
        if draw(st.booleans()):
            ops.append(["all"])
    new = settings(draw, 4)
    if queens:
        # other orders take exponentially long on these
        ops = [o for o in ops if o[:2] != ["set", "policy"]]
        new.pop("policy", None)
    beside = None
    if inst[0] != "knapsack" and draw(st.integers(0, 2)) == 0:      # another puzzle alive at the same time
        second = draw(instances())
        for _ in range(2):
            if second[0] != inst[0]:
                second = draw(instances())
        beside = {"inst": second, "steps": draw(st.lists(st.integers(0, 3), min_size=3, max_size=14))}
    return {"inst": inst, "beside": beside, "new": new, "how": "args" if queens else draw(st.sampled_from(["args", "args", "solver", "solver", "shared"])),
            "model": draw(st.sampled_from([None, None, "new", "solver-first"])), "ops": ops + [["all"]],
            "none": draw(st.integers(0, 3)) == 0, "split": draw(st.one_of(st.none(), st.integers(0, 99))), "seed": draw(st.integers(0, 99))}


def make(inst, **args):
    what = inst[0]
    if what == "graph":
        g = nx.Graph()
        g.add_nodes_from(range(inst[1]))
        g.add_edges_from(map(tuple, inst[2]))
        return GraphLabelingSolver(g, list("rgb")[:inst[3]], **args)
    if what == "map":
        return AsciiMapColoringSolver(inst[1], colors=("red", "green", "blue")[:inst[2]], **args)
    if what == "crypt":
        return CryptarithmSolver(inst[1], avoid_leading_zeros=inst[2], **args)
    if what == "nonogram":
        return NonogramSolver(inst[1], **args)
    if what == "sudoku":
        return SudokuSolver(inst[1], **args)
    if what == "queens":
        return QueensSolver(inst[1], **args)
    d = inst[1]
    return KnapsackOptimizer(d["values"], d["capacities"], d["weights"], **args)


def real(k, v):
    return M.policy(v) if k == "policy" else INFINITY if v == "inf" else v


def norm(sol):
    """Something hashable out of any puzzle's solution."""
    if isinstance(sol, dict):
        return tuple(sorted(sol.items()))
    if isinstance(sol, (list, tuple)):
        return tuple(norm(x) for x in sol)
    return sol


class C32(Prop):
    id = "C32"
    rule = ("random instances of every puzzle, built with settings as arguments, with a solver and with a model of the caller's; random "
            "sequences of changed and rejected settings, full and partial enumerations on a moving clock, extra constraints on the "
            "puzzle's model, a second puzzle enumerated in turns with the first; non-trivial: two solutions or more (knapsack: three items or more)")
    oracle = ("the enumeration of a second puzzle object with a fresh solver under the same policy, of which each enumeration must be the "
              "prefix its limit or timeout allows; statistics against what was delivered; split into cases by a variable's values")
    quick = 8000
    thorough = 60000
    budget = 40_000_000

    def strategy(self, tier):
        return cases(tier)

    def check(self, case, rec):
        inst, seed = case["inst"], case["seed"]
        what = inst[0]
        rec.label("puzzle:" + what, "how:" + case["how"])
        CLOCK.start(1000, auto=1)
        if case.get("beside"):
            self.beside(inst, case["beside"], rec)
        new = {ATTR[k]: real(k, v) for k, v in case["new"].items()}
        args = {}
        if case["how"] == "args":
            args.update(new)
            if case["none"]:            # no wish of the caller's, said aloud
                for k in ("limit", "timeout") + (() if what in ("sudoku", "knapsack") else ("policy",)):
                    args.setdefault(ATTR[k], None)
            state = dict(case["new"])
            if what in ("sudoku", "map") and state.get("limit") is None:
                state["limit"] = 1
            own = None
        else:
            own = Solver(**new)
            args["solver"] = own
            state = dict(case["new"])
            if case["how"] == "shared":
                other = make(["graph", 3, [[1, 0]], 2], solver=own)
        model = None
        if case["model"]:
            model = Model()
            args["model"] = model
        puzzle = make(inst, **args)
        if own is not None:
            require(puzzle.solver is own, "the solver given is not used")
        if model is not None:
            require(puzzle.model is model, "the model given is not used")
        state = {k: state.get(k) for k in VALUES}
        if state["compile"] is None:
            state["compile"] = True
        if state["limit"] == "inf":
            state["limit"] = None
        if state["timeout"] == "inf":
            state["timeout"] = None
        known = {}

        def reference():
            """All solutions in order, by a puzzle object and a solver of their own."""
            key = state["policy"]
            if key not in known:
                if key is None and case["how"] == "args":
                    a = {"limit": INFINITY}
                else:
                    a = {"solver": Solver(**({"var_selection_policy": M.policy(key)} if key else {}))}
                random.seed(seed)
                known[key] = [norm(s) for s in make(inst, **a)]
            return known[key]

        if what == "knapsack":
            return self.knapsack(case, rec, puzzle, state)
        total = None
        for op in case["ops"]:
            if op[0] == "set":
                setattr(puzzle.solver, ATTR[op[1]], real(*op[1:]))
                state[op[1]] = None if op[2] == "inf" else op[2]
                continue
            if op[0] == "bad":
                try:
                    puzzle.solver.var_selection_policy = "ORDERED"
                    require(False, "a name is accepted as policy")
                except TypeError:
                    pass
                continue
            if case["how"] == "shared":
                rec.label("solver-used-elsewhere")
                require(len(list(itertools.islice(other, 2))) <= 2, "")
            want = reference()
            if total is None:
                total = sorted(want)
            require(sorted(want) == total, "the solutions depend on the policy {}", state["policy"])
            random.seed(seed)
            lim, timeout = state["limit"], state["timeout"]
            most = len(want) if lim is None else min(lim, len(want))
            if op[0] == "take":
                got = [norm(s) for s in itertools.islice(iter(puzzle), op[1])]
                if timeout is None:
                    require(got == want[:min(op[1], most)], "the first {} are {} instead of {} ({})", op[1], got, want[:most], state)
                else:
                    require(got == want[:len(got)] and len(got) <= most, "{} is not a prefix of {} ({})", got, want, state)
                continue
            got = []
            for s in puzzle:
                got.append(norm(s))
                require(len(got) <= most, "more than {} solutions ({})", most, state)
            stats = puzzle.get_stats()
            rec.label("interrupt:{}".format(stats.interrupt))
            require(tuple(stats) == tuple(puzzle.solver.get_stats()), "two answers about statistics")
            require(got == want[:len(got)], "{} is not a prefix of {} ({})", got, want, state)
            require(stats.count == len(got), "count {} after {} solutions ({})", stats.count, len(got), state)
            if stats.interrupt == "timeout":
                require(timeout is not None and stats.elapsed > timeout, "stopped by a timeout of {} after {}", timeout, stats.elapsed)
            else:
                require(len(got) == most, "{} solutions instead of {} ({})", len(got), most, state)
                expect = "limit" if lim is not None and len(got) == lim else None
                require(stats.interrupt == expect, "interrupt {!r} instead of {!r} ({})", stats.interrupt, expect, state)
        want = reference()
        rec.nontrivial = len(want) >= 2
        if case["split"] is not None:
            # the values of one of the variables split the solutions
            first = make(inst, limit=INFINITY) if case["how"] == "args" else make(inst, solver=Solver())
            infos = [i for i in first.model.variables().values() if i.domain is not None]
            if infos:
                name = infos[case["split"] % len(infos)].variable.name
                parts = []
                domain = sorted(first.model.get_var_domain(name))
                if len(domain) <= 12:
                    rec.label("split")
                    for v in domain:
                        p = make(inst, limit=INFINITY) if case["how"] == "args" else make(inst, solver=Solver())
                        p.model.add_constraint(p.model.get_variable(name) == v)
                        parts += [norm(s) for s in p]
                    require(sorted(parts) == sorted(want), "with {} fixed to each value in turn there are {} solutions, in all {}",
                            name, len(parts), len(want))

    def beside(self, inst, beside, rec):
        """Two enumerations of a puzzle and one of another puzzle, in turns."""
        second = beside["inst"]
        rec.label("beside:" + ("same-kind" if second[0] == inst[0] else "other-kind"))

        def listed(inst):
            if inst[0] == "knapsack":
                return [tuple(make(inst)())]
            return [norm(s) for s in itertools.islice(make(inst, limit=INFINITY), 300)]

        def started(puzzle):
            if isinstance(puzzle, KnapsackOptimizer):
                return iter(lambda: tuple(puzzle()), None)
            return iter(puzzle)

        want = [listed(inst)] * 2 + [listed(second)]
        p1 = make(inst, limit=INFINITY)
        p2 = make(second) if second[0] == "knapsack" else make(second, limit=INFINITY)
        runs = [started(p1), started(p1), started(p2)]
        got = [[], [], []]
        held = []
        for step in beside["steps"] + [0, 1, 2] * 100:
            i = step % 3
            if second[0] == "knapsack" and i == 2 and got[2]:
                continue
            x = next(runs[i], None)
            if x is None:
                require(got[i] == want[i] or len(want[i]) == 300, "{} solutions instead of {} of {} beside {}", len(got[i]), len(want[i]),
                        [inst, inst, second][i], [second, second, inst][i])
                continue
            got[i].append(x if second[0] == "knapsack" and i == 2 else norm(x))
            held.append((x, norm(x)))
            require(len(got[i]) > len(want[i]) or got[i][-1] == want[i][len(got[i]) - 1],
                    "solution {} of {} is {} instead of {} beside {}", len(got[i]), [inst, inst, second][i], got[i][-1],
                    want[i][len(got[i]) - 1: len(got[i])], [second, second, inst][i])
            require(len(got[i]) <= len(want[i]) or len(want[i]) == 300, "more than {} solutions of {}", len(want[i]), [inst, inst, second][i])
        for x, kept in held:
            require(norm(x) == kept, "a solution changed from {} to {}", kept, norm(x))

    def knapsack(self, case, rec, puzzle, state):
        d = case["inst"][1]
        best = P.knapsack_best(d["values"], d["capacities"], d["weights"])[0]
        rec.nontrivial = len(d["values"]) >= 3
        for op in case["ops"]:
            if op[0] == "set":
                setattr(puzzle.solver, ATTR[op[1]], real(*op[1:]))
                state[op[1]] = None if op[2] == "inf" else op[2]
            elif op[0] == "all":
                random.seed(case["seed"])
                r = puzzle()
                stats = puzzle.get_stats()
                rec.label("interrupt:{}".format(stats.interrupt))
                lim, timeout = state["limit"], state["timeout"]
                require(bool(r.is_optimal) == (r.solution is not None and stats.interrupt is None), "optimality {} with interrupt {!r}",
                        r.is_optimal, stats.interrupt)
                require(lim is None or stats.count <= lim, "{} solutions with a limit of {}", stats.count, lim)
                require((r.solution is None) == (stats.count == 0), "{} with count {}", r.solution, stats.count)
                if stats.interrupt is None:
                    require(lim is None or stats.count < lim, "{} solutions, limit {}, no interrupt", stats.count, lim)
                    require(r.value == best, "value {} instead of {} ({})", r.value, best, state)
                elif stats.interrupt == "limit":
                    require(lim is not None and stats.count == lim, "interrupt 'limit' after {} of {}", stats.count, lim)
                else:
                    require(timeout is not None and stats.elapsed > timeout, "stopped by a timeout of {} after {}", timeout, stats.elapsed)


PROP = C32()
