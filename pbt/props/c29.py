import json
import os
import random
import subprocess
import sys
import tempfile

from hypothesis import strategies as st

from .. import models as M
from ..core import Prop, require
from .c06 import make_objective, objective_exprs
from . import c15, c16, c18, c19, c20, c21

HERE = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
HASH_SEEDS = [0, 1, 2, 7, 11, 4242]
DETERMINISTIC = [p for p in M.POLICIES if p != "RANDOM"]
WORDS = ["red", "blue", "green", "yellow", "node1", "a", "B2", "x y", "N-2", "q", "zz", "Kansas"]


# ------------------------------------------------------------------ generators

@st.composite
def cases(draw, tier):
    kind = draw(st.sampled_from(["solve", "solve", "solve", "optimize", "cryptarithm", "cryptarithm", "graph", "map", "nonogram",
                                 "knapsack", "sudoku", "queens", "cli"]))
    a, b = draw(st.permutations(range(len(HASH_SEEDS))))[:2]
    case = {"kind": kind, "hash": [HASH_SEEDS[a], HASH_SEEDS[b]], "seed": draw(st.integers(0, 9)),
            "limit": draw(st.sampled_from([None, None, 1, 2, 5]))}
    cfg = st.fixed_dictionaries({"policy": st.sampled_from(DETERMINISTIC + ["GROUPS", "GROUPS", "RANDOM"]), "compile": st.booleans()})
    case["cfg"] = draw(cfg)
    if kind in ("solve", "optimize"):
        case["spec"] = draw(M.model_specs(max_vars=6, max_dom=4, max_cons=4, max_space=120, min_vars=1, planted=True))
        case["objs"] = draw(st.lists(st.tuples(st.sampled_from(["min", "max"]), objective_exprs(case["spec"], tier)).map(list),
                                     min_size=1, max_size=2))
    elif kind == "cryptarithm":
        case.update(draw(c19.cases("quick")))
        case["limit"] = draw(st.sampled_from([None, 1, 2, 5]))
    elif kind == "graph":
        g = draw(c20.graphs(5))
        case["graph"] = g
        case["nodes"] = draw(st.permutations(WORDS))[:g["n"]]
        case["labels"] = draw(st.permutations(WORDS))[:draw(st.integers(2, 3))]
        case["type"] = draw(st.sampled_from(["Graph", "DiGraph", "MultiGraph"]))
    elif kind == "map":
        lines = draw(c21.maps(5))
        case["lines"] = lines
        case["colors"] = draw(st.permutations(c21.COLORS))[:3]
        case["limit"] = draw(st.integers(1, 30))
    elif kind == "nonogram":
        case["nonogram"] = c16.P.clues(draw(c16.pictures(5)))
    elif kind == "knapsack":
        case["data"] = draw(c18.problems(7))
    elif kind == "sudoku":
        case["schema"] = draw(c15.schemas(draw(st.sampled_from(["digits", "rectangle", "random"]))))["schema"]
        case["limit"] = draw(st.integers(1, 12))
    elif kind == "queens":
        case["size"] = draw(st.integers(0, 6))
    elif kind == "cli":
        case["command"] = draw(st.sampled_from(["cryptarithm", "knapsack", "graph_labeling", "queens"]))
        case["show"] = draw(st.booleans())
        case["limit"] = draw(st.integers(1, 6))
        if case["command"] == "cryptarithm":
            case.update(draw(c19.cases("quick")))
            case["limit"] = draw(st.integers(1, 6))
        elif case["command"] == "knapsack":
            case["data"] = draw(c18.problems(6))
        elif case["command"] == "queens":
            case["size"] = draw(st.integers(0, 6))
        else:
            g = draw(c20.graphs(5))
            ids = draw(st.permutations(WORDS))[:g["n"]]
            case["data"] = {"directed": False, "multigraph": False, "graph": {}, "nodes": [{"id": x} for x in ids],
                            "links": [{"source": ids[x], "target": ids[y]} for x, y in g["edges"]]}
    return case


# ------------------------------------------------------------------ one run (in the child)

def produce(case):
    """Everything the run yields, in order, as JSON."""
    kind = case["kind"]
    random.seed(case["seed"])
    cfg = case["cfg"]
    args = {"var_selection_policy": M.policy(cfg["policy"]), "compile_constraints": cfg["compile"]}
    if case["limit"] is not None:
        args["limit"] = case["limit"]
    if kind in ("sudoku", "nonogram"):
        del args["var_selection_policy"]        # hopeless under some of them
    if kind in ("solve", "optimize"):
        b = M.build(case["spec"])
        solver = M.Solver(**args)
        if kind == "solve":
            return [[[n, s[n]] for n in b.names] for s in solver.solve(b.model, additional_constraints=b.extra)]
        objectives = [make_objective(o, b) for o in case["objs"]]
        return [[[n, o.solution[n]] for n in b.names]
                for o in solver.optimize(b.model, objectives, additional_constraints=b.extra)]
    if kind == "cryptarithm":
        from satisfy.cryptarithm import CryptarithmSolver
        if case["avoid"] != "default":
            args["avoid_leading_zeros"] = case["avoid"]
        return [sorted(s.items()) for s in CryptarithmSolver(c19.source_text(case), **args)]
    if kind == "graph":
        import networkx as nx
        from satisfy.graph_labeling import GraphLabelingSolver
        g = getattr(nx, case["type"])()
        g.add_nodes_from(case["nodes"])
        g.add_edges_from((case["nodes"][x], case["nodes"][y]) for x, y in case["graph"]["edges"])
        return [[[n, s[n]] for n in case["nodes"]] for s in GraphLabelingSolver(g, case["labels"], **args)]
    if kind == "map":
        from satisfy.tool.ascii_map_coloring import AsciiMapColoringSolver
        return [["".join(r) for r in m] for m in AsciiMapColoringSolver(case["lines"], case["colors"], **args)]
    if kind == "nonogram":
        from satisfy.nonogram import NonogramSolver
        return [[[int(x) for x in row] for row in pic] for pic in NonogramSolver(case["nonogram"], **args)]
    if kind == "knapsack":
        from satisfy.knapsack import KnapsackOptimizer
        p = case["data"]
        r = KnapsackOptimizer(p["values"], p["capacities"], p["weights"], **args)()
        return [r.is_optimal, r.solution, r.value, r.weights]
    if kind == "sudoku":
        from satisfy.sudoku import SudokuSolver
        return [[list(row) for row in g] for g in SudokuSolver(case["schema"], **args)]
    if kind == "queens":
        from satisfy.tool.queens import QueensSolver
        return [[[int(bool(x)) for x in row] for row in board] for board in QueensSolver(case["size"], **args)]
    from .c23 import run_main
    cmd = case["command"]
    argv = [cmd]
    folder = tempfile.mkdtemp(prefix="verif-c29-")
    name = os.path.join(folder, "input.json")
    try:
        if cmd == "cryptarithm":
            argv.append(c19.source_text(case))
        elif cmd == "queens":
            argv += ["-b", str(case["size"])]
        else:
            with open(name, "w") as f:
                json.dump(case["data"], f)
            argv += ["-i", name]
        argv += ["-l", str(case["limit"])]
        if case["show"]:
            argv += ["-s"]
        return [list(run_main(argv, auto=0))]
    finally:
        if os.path.exists(name):
            os.unlink(name)
        os.rmdir(folder)


# ------------------------------------------------------------------ the interpreters

CHILDREN = {}


def ask(seed, case):
    p = CHILDREN.get(seed)
    if p is None or p.poll() is not None:
        e = dict(os.environ, PYTHONHASHSEED=str(seed), PYTHONDONTWRITEBYTECODE="1", PYTHONUTF8="1")
        p = CHILDREN[seed] = subprocess.Popen([sys.executable, "-B", "-m", "pbt.child"], cwd=HERE, env=e, text=True,
                                              stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    p.stdin.write(json.dumps(case) + "\n")
    p.stdin.flush()
    return p


class C29(Prop):
    id = "C29"
    rule = ("random models, optimisations, puzzles and command lines under deterministic policies (or RANDOM with a seeded "
            "generator), with limits, run in two interpreters with different hash seeds; non-trivial: at least 2 solutions "
            "are produced, or one out of more because of a limit")
    oracle = "differential: both interpreters produce the same solutions in the same order"
    quick = 6000
    thorough = 60000
    budget = 5_000_000

    def strategy(self, tier):
        return cases(tier)

    def check(self, case, rec):
        procs = [ask(s, case) for s in case["hash"]]
        lines = [p.stdout.readline() for p in procs]
        for s, line in zip(case["hash"], lines):
            if not line:
                CHILDREN.pop(s).kill()
                raise RuntimeError("the interpreter with hash seed {} died".format(s))
        got = [json.loads(x) for x in lines]
        kind = case["kind"]
        rec.label("kind:" + (kind if kind != "cli" else "cli:" + case["command"]), "policy:" + case["cfg"]["policy"])
        if any(isinstance(g, dict) and g["error"] == "budget" for g in got):
            rec.label("skipped:too-much-work")
            return
        if isinstance(got[0], dict):
            rec.label("error:" + got[0]["error"].split(":")[0])
        rec.nontrivial = isinstance(got[0], list) and (len(got[0]) > 1 or case["limit"] == 1 and len(got[0]) == 1
                                                       or kind in ("cli", "knapsack"))
        if got[0] != got[1]:
            if isinstance(got[0], dict) or isinstance(got[1], dict):
                require(False, "hash seeds {}: {} versus {}", case["hash"], *got)
            at = next((i for i, (x, y) in enumerate(zip(*got)) if x != y), min(len(got[0]), len(got[1])))
            require(False, "hash seeds {}: the runs differ from solution {} on: {} versus {}", case["hash"], at + 1,
                    got[0][at:at + 2], got[1][at:at + 2])


PROP = C29()
