import ast
import contextlib
import io
import json
import os
import re
import sys
import tempfile

from hypothesis import strategies as st

from .. import env
from .. import puzzles as P
from ..core import Prop, require
from . import c15, c16, c18, c19, c20, c21
import networkx as nx
import satisfy.tool as T
from satisfy.cryptarithm import CryptarithmSolver
from satisfy.graph_labeling import GraphLabelingSolver
from satisfy.knapsack import KnapsackOptimizer
from satisfy.nonogram import NonogramSolver
from satisfy.sudoku import SudokuSolver
from satisfy.tool import demo_ascii_map_coloring, demo_cryptarithm, demo_graph_labeling, demo_knapsack
from satisfy.tool import demo_nonogram, demo_sudoku
from satisfy.tool.ascii_map_coloring import AsciiMapColoringSolver
from satisfy.tool.einstein_riddle import EinsteinRiddleSolver
from satisfy.tool.queens import QueensSolver
from satisfy.utils import INFINITY

WORDS = ["red", "blue", "green", "yellow", "magenta", "cyan", "a", "B2", "x y", "0", "10", "white"]
IDS = [0, 1, 2, "a", "b", "node1", "", "x y", 7, "N-2", [1, 2], ["a", 0]]
ANSI = {"red": 31, "green": 32, "yellow": 33, "blue": 34, "magenta": 35, "cyan": 36}
CODE = {v: k for k, v in ANSI.items()}
KINDS = ["knapsack", "sudoku", "graph_labeling", "graph_labeling", "ascii_map_coloring", "ascii_map_coloring", "nonogram",
         "nonogram", "queens", "cryptarithm", "knapsack",
         "cryptarithm", "einstein"]


@st.composite
def cases(draw, tier):
    kind = draw(st.sampled_from(KINDS))
    case = {"kind": kind, "limit": draw(st.sampled_from(["none", "none", "bare", 0, 1, 2, 3, 1000])),
            "timeout": draw(st.sampled_from(["none", "none", "bare", 1e9])), "show": draw(st.integers(0, 3)) == 0,
            "long": draw(st.booleans()), "tick": draw(st.sampled_from([None, None, 0, 0.25, 0.5])), "order": draw(st.permutations(range(6))), "newline": draw(st.booleans())}
    if kind == "knapsack":
        case["data"] = draw(c18.problems(6))
    elif kind == "sudoku":
        case["data"] = draw(c15.schemas(draw(st.sampled_from(["random", "digits", "rectangle", "complete", "clash", "altered"]))))
        case["none"] = draw(st.booleans())
    elif kind == "graph_labeling":
        case["graph"] = draw(c20.graphs(4))
        case["attributes"] = draw(st.booleans())
        case["directed"], case["multi"] = draw(st.booleans()), draw(st.booleans())
        case["ids"] = draw(st.permutations(IDS))[:case["graph"]["n"]]
        case["words"] = draw(st.one_of(st.none(), st.permutations(WORDS).map(lambda x: x[:3]),
                                       st.permutations(WORDS).map(lambda x: x[:2]), st.permutations(WORDS).map(lambda x: x[:1]),
                                       st.permutations(WORDS).map(lambda x: x[:5])))
    elif kind == "ascii_map_coloring":
        case["lines"] = draw(c21.maps(4))
        case["words"] = draw(st.one_of(st.none(), st.permutations(sorted(ANSI)).map(lambda x: x[:3]),
                                       st.permutations(sorted(ANSI)).map(lambda x: x[:2]),
                                       st.permutations(sorted(ANSI)).map(lambda x: x[:1]),
                                       st.permutations(sorted(ANSI)).map(lambda x: x[:4]),
                                       st.permutations(sorted(ANSI)).map(lambda x: x[:5]), st.permutations(sorted(ANSI))))
    elif kind == "nonogram":
        case["picture"] = draw(c16.pictures(5))
        case["image"] = draw(st.booleans())
        case["glyphs"] = draw(st.sampled_from(["_#", " #", "_x", " ."]))
        case["ragged"] = draw(st.booleans())
    elif kind == "queens":
        case["size"] = draw(st.integers(0, 5))
    elif kind == "cryptarithm":
        case["spec"] = draw(c19.puzzles(3))
        case["case"] = draw(st.sampled_from(["upper", "upper", "lower", "mixed"]))
        case["space"] = draw(st.booleans())
        case["zeros"] = draw(st.sampled_from(["none", "none", "bare", "on", "off", "off", "true", "False", "0", "1", "OFF"]))
    return case


def run_main(argv, auto=None):
    """-> (output, error output) of the command line; SystemExit is reported, exceptions propagate."""
    out, err = io.StringIO(), io.StringIO()
    old = sys.argv
    sys.argv = ["satisfy"] + argv
    if auto is not None:
        env.CLOCK.start(1000, auto)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                T.main()
            except SystemExit as e:
                require(e.code in (0, None), "{} exits with {}: {}", argv, e.code, err.getvalue())
    finally:
        sys.argv = old
        run_main.passed = env.CLOCK.fake - 1000 if auto is not None else None
        env.CLOCK.stop()
    return out.getvalue(), err.getvalue()


def blocks(text):
    """-> (text before the first solution, list of lines of each solution, summary line)"""
    lines = text.split("\n")
    while lines and not lines[-1].strip():
        lines.pop()
    require(lines, "nothing is printed")
    summary = lines.pop()
    require(summary.startswith("Found "), "the last line is not a summary: {!r}", summary)
    head, res = [], []
    for line in lines:
        m = re.fullmatch(r"=== solution (\d+) ===", line)
        if m:
            res.append([])
            require(int(m.group(1)) == len(res), "solution {} is announced as {}", len(res), line)
        elif res:
            res[-1].append(line)
        else:
            head.append(line)
    return head, res, summary


def summary_count(summary):
    before = summary.split(" in ")[0]
    if "unique" in before:
        return 1
    m = re.search(r"\d+", before)
    require(m, "no count in the summary {!r}", summary)
    return int(m.group())


def one_of(kind, lines, where):
    """Parse the lines of one solution into the form the oracle uses."""
    if kind == "sudoku":
        rows = [[int(ch) for ch in re.findall(r"\d", x)] for x in lines if x.startswith("\u2502")]
        require(len(rows) == 9 and all(len(r) == 9 for r in rows), "not a grid: {}", lines)
        return tuple(tuple(r) for r in rows)
    if kind == "queens":
        rows = [x for x in lines if x.startswith("\u2502")]
        return tuple(tuple("\u265b" in cell for cell in r.strip("\u2502").split("\u2502")) for r in rows)
    if kind == "nonogram":
        nr, nc = where
        pic = [x for x in lines]
        while pic and len(pic) > nr and not pic[-1].strip():
            pic.pop()
        require(len(pic) == nr and all(len(x) <= nc for x in pic), "picture of the wrong shape: {}", lines)
        return tuple(tuple(int(x.ljust(nc)[i] not in " _") for i in range(nc)) for x in pic)
    if kind == "graph_labeling":
        return ast.literal_eval("\n".join(lines).strip())
    if kind == "cryptarithm":
        d = dict(re.fullmatch(r"(\w) = (\d+)", x).groups() for x in lines if re.fullmatch(r"(\w) = (\d+)", x))
        arrow = [x[4:] for x in lines if x.startswith("==> ")]
        require(len(arrow) == 1, "no substituted expression in {}", lines)
        return {k: int(v) for k, v in d.items()}, arrow[0]
    if kind == "einstein":
        res = {}
        names = ["first", "second", "third", "fourth", "fifth"]
        for x in lines:
            m = re.search(r"The (.+), who lives in the (\w+) (\w+) house, drinks (.+), smokes (.+) and has (.+)\.$", x)
            if m:
                res[names.index(m.group(2)) + 1] = dict(owner=m.group(1), color=m.group(3), drink=m.group(4),
                                                        smoke=m.group(5), animal=m.group(6))
                require(("[*]" in x) == (m.group(6) == "a zebra"), "wrong house marked: {!r}", x)
        return res
    raise AssertionError(kind)


def cells_of(line):
    """'\\x1b[31m0\\x1b[0m' -> colors (None: no color) of the cells of a line"""
    res = []
    for esc, ch in re.findall(r"\x1b\[(\d+)m.\x1b\[0m|(.)", line):
        res.append(CODE.get(int(esc), esc) if esc else None)
        if not esc:
            require(ch == " " or ch == ".", "cell drawn as {!r}", ch)
    return res


class C23(Prop):
    id = "C23"
    rule = ("every sub-command on generated inputs (JSON or text files, arguments) with combinations and orders of the "
            "options for limits, timeouts, labels, colors, leading zeros, model display; the built-in examples; searches "
            "cut by a timeout under a faked clock; non-trivial: at least one solution is printed")
    oracle = "the reference solvers of C15-C22 applied to the parsed output; the library's own model for the model display"
    quick = 5000
    thorough = 40000
    budget = 400_000_000

    def strategy(self, tier):
        return cases(tier)

    def fixed(self, tier):
        out = []
        for kind in ("knapsack", "sudoku", "graph_labeling", "ascii_map_coloring", "nonogram", "einstein"):
            out.append({"kind": "default", "command": kind, "args": []})
        out.append({"kind": "default", "command": "graph_labeling", "args": ["-L", "a", "b", "c", "d"]})
        out.append({"kind": "default", "command": "graph_labeling", "args": ["-l", "-L", "a", "b", "c", "d", "-t"]})
        out.append({"kind": "default", "command": "sudoku", "args": ["-l"]})
        out.append({"kind": "default", "command": "knapsack", "args": ["-l", "2"]})
        out.append({"kind": "default", "command": "einstein", "args": ["-l", "-s"]})
        out.append({"kind": "default", "command": "cryptarithm", "args": ["-l", "1"]})
        if tier == "thorough":
            out.append({"kind": "default", "command": "cryptarithm", "args": []})
            out.append({"kind": "default", "command": "queens", "args": []})
        for i, (cmd, args) in enumerate([("queens", ["-b", "6"]), ("sudoku", ["-l"]), ("einstein", []), ("cryptarithm", []),
                                         ("graph_labeling", ["-L", "a", "b", "c", "d", "e", "f"]), ("knapsack", []),
                                         ("ascii_map_coloring", ["-l"]), ("nonogram", [])]):
            out.append({"kind": "timeout", "command": cmd, "args": args})
        # the example files of the repository
        folder = os.path.join(env.REPO, "examples")
        for name in sorted(os.listdir(folder)) if os.path.isdir(folder) else []:
            kind = name.split("_")[0]
            if kind not in ("knapsack", "sudoku"):
                continue
            with open(os.path.join(folder, name)) as f:
                data = json.load(f)
            for limit in ("none", "bare", 1):
                out.append({"kind": kind, "data": data if kind == "knapsack" else {"schema": data, "kind": "file"}, "none": False, "limit": limit,
                            "timeout": "none", "show": limit == 1, "long": limit == "bare", "order": [0, 1, 2, 3, 4, 5], "newline": True})
        for size in range(0, 8):
            out.append({"kind": "queens", "size": size, "limit": "none" if size != 7 else 5, "timeout": "none", "show": size in (3, 5),
                        "long": bool(size % 2), "order": [0, 1, 2, 3, 4, 5], "newline": False})
        return out

    # ------------------------------------------------------------------

    def check(self, case, rec):
        rec.label("command:" + case["kind"])
        if case["kind"] == "default":
            return self.check_default(case, rec)
        if case["kind"] == "timeout":
            return self.check_timeout(case, rec)
        folder = tempfile.mkdtemp(prefix="verif-c23-")
        name = os.path.join(folder, "input file.txt")
        try:
            self.check_run(case, rec, name)
        finally:
            if os.path.exists(name):
                os.unlink(name)
            os.rmdir(folder)

    def options(self, case, own):
        """own: list of groups of arguments. -> argv after the sub-command"""
        groups = list(own)
        long_ = case["long"]
        if case["limit"] != "none":
            groups.append(["--limit" if long_ else "-l"] + ([] if case["limit"] == "bare" else [str(case["limit"])]))
        if case["timeout"] != "none":
            groups.append(["--timeout" if long_ else "-t"] + ([] if case["timeout"] == "bare" else [str(case["timeout"])]))
        if case["show"]:
            groups.append(["--show-model" if long_ else "-s"])
        order = [i for i in case["order"] if i < len(groups)]
        argv = []
        for i in order:
            argv += groups[i]
        return argv

    def check_run(self, case, rec, name):
        kind = case["kind"]
        long_ = case["long"]
        own, content, model = [], None, None
        regions = labels = src = letters = schema = None
        if kind == "knapsack":
            p = case["data"]
            content = json.dumps(p)
            model = lambda: KnapsackOptimizer(p["values"], p["capacities"], p["weights"]).model
        elif kind == "sudoku":
            schema = [[None if not v and case["none"] else v for v in row] for row in case["data"]["schema"]]
            content = json.dumps(schema)
            model = lambda: SudokuSolver(schema).model
            want = P.sudoku_solutions(schema, 60)
        elif kind == "graph_labeling":
            g, ids = case["graph"], case["ids"]
            data = {"directed": case["directed"], "multigraph": case["multi"], "graph": {},
                    "nodes": [{"id": x} for x in ids],
                    "links": [{"source": ids[a], "target": ids[b]} for a, b in g["edges"]]}
            if case.get("attributes"):
                for k, d in enumerate(data["nodes"]):
                    d.update({"label": "red", "weight": k} if k % 2 else {"color": ["blue"]})
                for k, d in enumerate(data["links"]):
                    d.update({"weight": -k, "label": "x"})
                data["graph"] = {"name": "a graph", "labels": 1}
            content = json.dumps(data)
            labels = case["words"] or ["red", "blue", "green"]
            if case["words"]:
                own.append(["--labels" if long_ else "-L"] + labels)
            want = P.colorings(g["n"], [tuple(e) for e in g["edges"]], len(labels))
            model = lambda: GraphLabelingSolver(nx.node_link_graph(data), labels).model
        elif kind == "ascii_map_coloring":
            lines = case["lines"]
            content = "\n".join(lines) + ("\n" if case["newline"] else "")
            regions = P.map_regions(lines)
            labels = case["words"] or ["red", "blue", "green", "yellow"]
            if case["words"]:
                own.append(["--colors" if long_ else "-C"] + labels)
            if len(labels) ** len(regions) > 70000:
                return
            edges = P.region_edges(regions)
            want = P.colorings(len(regions), edges, len(labels))
            model = lambda: AsciiMapColoringSolver(content, labels).model
        elif kind == "nonogram":
            pic = case["picture"]
            if case["image"]:
                zero, one = case["glyphs"]
                lines = ["".join(one if x else zero for x in row) for row in pic]
                if case["ragged"]:
                    lines = [lines[0]] + [x.rstrip(" _") if x.rstrip(" _") else x for x in lines[1:]]
                content = "\n".join(lines) + ("\n" if case["newline"] else "")
            else:
                content = json.dumps(P.clues(pic))
            nono = P.clues(pic)
            want = P.nonogram_solutions(nono)
            if not (case["image"] and case["newline"]):
                model = lambda: NonogramSolver(nono).model
        elif kind == "queens":
            own.append(["--board-size" if long_ else "-b", str(case["size"])])
            want = P.queens_solutions(case["size"])
            model = lambda: QueensSolver(case["size"]).model
        elif kind == "einstein":
            model = lambda: EinsteinRiddleSolver().model
            want = [1]
        else:
            src = c19.source_text(case)
            z = case["zeros"]
            avoid = z.lower() in ("none", "bare", "on", "true", "1")
            if z != "none":
                own.append(["--avoid-leading-zeros" if long_ else "-z"] + ([] if z == "bare" else [z]))
            letters = P.crypt_letters(case["spec"])
            if not letters:
                return
            want = P.cryptarithm_solutions(case["spec"], avoid)
            model = lambda: CryptarithmSolver(src, avoid_leading_zeros=avoid).model
        if content is not None:
            flag = "input-image" if kind == "nonogram" and case["image"] else "input-file"
            with open(name, "w") as f:
                f.write(content)
            own.append([("--" + flag) if long_ else "-I" if flag == "input-image" else "-i", name])
        argv = self.options(case, own)
        if kind == "cryptarithm":
            argv = [src] + argv         # before the options: some of them take an optional value
        tick = case.get("tick")
        text, err = run_main([kind] + argv, tick)
        require(not err, "error output: {!r}", err)
        if tick is not None:
            self.check_elapsed(text, tick, run_main.passed)
        self.check_model(case["show"], text, model)
        if kind == "sudoku":
            self.check_shown_schema(text, schema)
        limit = {"none": None, "bare": None}.get(case["limit"], case["limit"])
        if kind == "knapsack":
            return self.check_knapsack(case, rec, text, p, limit)
        if case["limit"] == "none" and kind in ("sudoku", "ascii_map_coloring"):
            limit = 1
        head, sols, summary = blocks(text)
        big = kind == "sudoku" and len(want) > 60
        if big and (limit is None or limit > 60):
            return
        n = len(want) if limit is None else min(limit, len(want))
        rec.nontrivial = n > 0
        rec.label("limit:{}".format(case["limit"]), "printed={}".format(n if n < 3 else "3+"))
        require(len(sols) == n, "{} solutions printed instead of {} (limit {})", len(sols), n, limit)
        require(summary_count(summary) == n, "summary {!r}: {} solutions are printed", summary, n)
        require(("limit" in summary) == (limit is not None and len(want) >= limit), "summary {!r} with limit {} and {} solutions",
                summary, limit, len(want))
        require("timeout" not in summary, "summary {!r} mentions a timeout", summary)
        info = {"want": want, "regions": regions, "labels": labels, "src": src, "letters": letters, "schema": schema}
        keys = [self.check_solution(case, kind, lines, info) for lines in sols]
        require(len(set(keys)) == len(keys), "a solution is printed twice: {}", keys)

    def check_solution(self, case, kind, lines, x):
        if kind == "ascii_map_coloring":
            rows = [cells_of(line) for line in lines]
            color = []
            drawn = set()
            for reg in x["regions"]:
                require(all(r < len(rows) and c < len(rows[r]) for r, c in reg), "the map is not all drawn: {}", lines)
                cs = {rows[r][c] for r, c in reg}
                require(len(cs) == 1 and cs <= set(x["labels"]), "region {} is drawn in {}, colors are {}", sorted(reg), cs, x["labels"])
                color.append(x["labels"].index(cs.pop()))
                drawn |= reg
            for r, row in enumerate(rows):
                for c, v in enumerate(row):
                    require(v is None or (r, c) in drawn, "background cell ({},{}) is colored", r, c)
            require(tuple(color) in x["want"], "coloring {} is not proper for {}", color, case["lines"])
            return tuple(color)
        if kind == "nonogram":
            pic = case["picture"]
            got = one_of(kind, lines, (len(pic), len(pic[0])))
        else:
            got = one_of(kind, lines, None)
        if kind == "sudoku":
            require(P.sudoku_valid(got), "invalid grid {}", got)
            require(all(not v or got[r][c] == v for r, row in enumerate(x["schema"]) for c, v in enumerate(row)),
                    "grid {} changes the givens", got)
            return got
        if kind == "queens":
            n = case["size"]
            require(len(got) == n and all(len(r) == n and sum(r) == 1 for r in got), "board {}", lines)
            got = tuple(r.index(True) for r in got)
        elif kind == "graph_labeling":
            ids = [tuple(i) if isinstance(i, list) else i for i in case["ids"]]
            require(set(got) == set(ids), "labeling {} is not over the nodes {}", got, ids)
            require(set(got.values()) <= set(x["labels"]), "labeling {} uses other labels than {}", got, x["labels"])
            got = tuple(x["labels"].index(got[i]) for i in ids)
        elif kind == "cryptarithm":
            sol, arrow = got
            require(sorted(sol) == x["letters"], "digits printed for {} instead of {}", sorted(sol), x["letters"])
            text = "".join(str(sol[ch]) if ch in sol else ch for ch in x["src"].upper())
            require(arrow == text, "printed {!r} instead of {!r}", arrow, text)
            got = tuple(sol[ch] for ch in x["letters"])
        elif kind == "einstein":
            bad = P.riddle_failures(got)
            require(not bad, "arrangement {} fails {}", got, bad)
            return json.dumps(got, sort_keys=True)
        require(got in x["want"], "{} printed, which is no solution", got)
        return got

    def check_elapsed(self, text, tick, passed):
        """The clock moves by tick when it is read, and only then."""
        summary = [x for x in text.split("\n") if x.strip()][-1]
        m = re.search(r"in (\d+\.\d+) seconds", summary)
        require(m, "no time in the summary {!r}", summary)
        t = float(m.group(1))
        require(t <= passed and (t == 0 if not tick else (t / tick).is_integer()), "{} s reported, the clock moved by {} in steps of {}",
                t, passed, tick)
        count = summary_count(summary) if "iteration" not in summary else int(re.search(r"after (\d+)", summary).group(1))
        require(t > 0 or not tick or not count, "{!r} although the clock moves", summary)

    def check_shown_schema(self, text, schema):
        head = text.split("=== solution")[0].split("\n")
        rows = [re.findall(r"[\d.]", x) for x in head if x.startswith("\u2502")]
        require(rows == [[str(v) if v else "." for v in row] for row in schema], "schema {} is shown as {}", schema, rows)

    def check_model(self, show, text, model):
        has = "model variables" in text
        require(has == bool(show), "the model is {}shown", "" if has else "not ")
        if not has or model is None:
            return
        lines = text.split("\n")
        m = model()
        at = next(i for i, x in enumerate(lines) if "model variables" in x)
        names = list(m.variables())
        shown = lines[at + 1:at + 1 + len(names)]
        require(len(shown) == len(names) and all(repr(n) in x for n, x in zip(names, shown)),
                "the variables {} are shown as {}", names[:5], shown[:5])
        at = next((i for i, x in enumerate(lines) if "model constraints" in x), None)
        require(at is not None, "the constraints are not shown")
        cons = list(m.constraints())
        shown = [x for x in lines[at + 1:at + 1 + len(cons)]]
        require(all(re.match(r"\s*{}\) ".format(i), x) for i, x in enumerate(shown)) and len(shown) == len(cons),
                "{} constraints, shown as {}", len(cons), shown[:5])

    def check_knapsack(self, case, rec, text, p, limit):
        best, feasible = P.knapsack_best(p["values"], p["capacities"], p["weights"])
        get = dict(re.findall(r"^(is_optimal|solution|value|weights): (.*)$", text, re.M))
        lines = [x for x in text.split("\n") if x.strip()]
        summary = lines[-1]
        require(summary.startswith("Found"), "the last line is not a summary: {!r}", summary)
        m = re.search(r"after (\d+) solve iteration", summary)
        require(m, "no count in {!r}", summary)
        count = int(m.group(1))
        optimal = get.get("is_optimal") == "True"
        require(get.get("is_optimal") in ("True", "False"), "is_optimal is {}", get.get("is_optimal"))
        require(("sub-optimal" not in summary) == optimal, "summary {!r} but is_optimal is {}", summary, optimal)
        require("timeout" not in summary, "summary {!r} mentions a timeout", summary)
        require(limit is None or count <= limit, "{} iterations with limit {}", count, limit)
        require(("limit" in summary) == (limit is not None and count == limit), "summary {!r} with limit {}", summary, limit)
        if limit is None:
            require(optimal == bool(feasible), "is_optimal: {}, best is {}", optimal, best)
        if "solution" not in get:
            require("no solution found" in text, "neither a solution nor its absence is printed")
            require(not feasible or limit == 0, "no solution found, best is {}", best)
            require(count == 0, "{} iterations but no solution", count)
            return
        require("no solution found" not in text, "a solution and its absence are printed")
        sel = tuple(int(x == "X") for x in ast.literal_eval(get["solution"]).split())
        rec.nontrivial = True
        require(count >= 1, "no iteration but a solution")
        require(sel in feasible, "selection {} is not feasible", sel)
        value = sum(s * v for s, v in zip(sel, p["values"]))
        require(ast.literal_eval(get["value"]) == value, "value {} printed instead of {}", get["value"], value)
        ws = tuple(sum(s * w[d] for s, w in zip(sel, p["weights"])) for d in range(len(p["capacities"])))
        require(tuple(ast.literal_eval(get["weights"])) == ws, "weights {} printed instead of {}", get["weights"], ws)
        require(not optimal or value == best, "value {} claimed optimal, {} is possible", value, best)

    # ------------------------------------------------------------------ built-in examples

    def check_default(self, case, rec):
        cmd, args = case["command"], case["args"]
        rec.nontrivial = True
        text, err = run_main([cmd] + args)
        require(not err, "error output: {!r}", err)
        require(("model variables" in text) == ("-s" in args), "model display")
        if cmd == "knapsack":
            p = json.loads(demo_knapsack.default_knapsack_source())
            return self.check_knapsack({}, rec, text, p, 2 if "-l" in args else None)
        head, sols, summary = blocks(text)
        count = summary_count(summary)
        require(count == len(sols), "summary {!r}: {} solutions are printed", summary, len(sols))
        fake = {"picture": None, "size": 8}
        x = {}
        limit = None
        if cmd == "sudoku":
            schema = json.loads(demo_sudoku.default_sudoku_source())
            want = P.sudoku_solutions(schema, 60)
            x.update(schema=schema, want=want)
            limit = None if "-l" in args else 1
        elif cmd == "graph_labeling":
            data = json.loads(demo_graph_labeling.default_graph_labeling_source())
            ids = [d["id"] for d in data["nodes"]]
            labels = ["a", "b", "c", "d"] if args else ["red", "blue", "green"]
            want = P.colorings(len(ids), [(ids.index(d["source"]), ids.index(d["target"])) for d in data["links"]], len(labels))
            fake["ids"] = ids
            x.update(want=want, labels=labels)
        elif cmd == "ascii_map_coloring":
            lines = demo_ascii_map_coloring.default_ascii_map_coloring_source().split("\n")
            regions = P.map_regions(lines)
            edges = P.region_edges(regions)

            class Proper(object):
                def __contains__(self, t):
                    return all(t[a] != t[b] for a, b in edges)
            fake["lines"] = "the example"
            x.update(want=Proper(), regions=regions, labels=["red", "blue", "green", "yellow"])
            want = [1]
            limit = 1
        elif cmd == "nonogram":
            nono = json.loads(demo_nonogram.default_nonogram_source())
            want = P.nonogram_solutions(nono)
            fake["picture"] = [[0] * len(nono["columns"])] * len(nono["rows"])
            x.update(want=want)
        elif cmd == "queens":
            want = P.queens_solutions(8)
            x.update(want=want)
        elif cmd == "einstein":
            want = [1]
        else:
            src = demo_cryptarithm.default_cryptarithm_source()
            spec = {"left": ["SEND", ["+", "MORE"]], "rel": "==", "right": ["MONEY"]}
            require(src == "SEND+MORE==MONEY", "other example: {}", src)
            letters = P.crypt_letters(spec)
            want = {(7, 5, 1, 6, 0, 8, 9, 2)}       # D E M N O R S Y
            x.update(want=want, src=src, letters=letters)
            limit = 1 if args else None
        n = len(want) if limit is None else min(limit, len(want))
        require(len(sols) == n, "{} solutions printed instead of {}", len(sols), n)
        require(("limit" in summary) == (limit is not None and len(want) >= limit), "summary {!r}, limit {}", summary, limit)
        keys = [self.check_solution(fake, cmd, lines, x) for lines in sols]
        require(len(set(keys)) == len(keys), "a solution is printed twice")

    def check_timeout(self, case, rec):
        """Every reading of the clock takes 1000 s: a 5 s timeout must cut the search, a huge one must not."""
        rec.nontrivial = True
        cmd, args = case["command"], case["args"]
        text, err = run_main([cmd] + args + ["-t", "5"], 1000)
        summary = [x for x in text.split("\n") if x.strip()][-1]
        require("timeout" in summary, "a search that overran its timeout is reported as {!r}", summary)
        require("limit" not in summary, "no limit was reached: {!r}", summary)
        if cmd != "knapsack":
            head, sols, summary = blocks(text)
            require(summary_count(summary) == len(sols), "summary {!r}: {} solutions are printed", summary, len(sols))
        if cmd in ("sudoku", "graph_labeling", "knapsack", "nonogram"):
            for t in ([], ["-t"], ["-t", "1e15"]):
                text, err = run_main([cmd] + args + t, 1000)
                summary = [x for x in text.split("\n") if x.strip()][-1]
                require("timeout" not in summary, "{} reports {!r}", t, summary)


PROP = C23()
