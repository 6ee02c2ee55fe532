import contextlib
import io
import json
import os
import sys
import tempfile

from hypothesis import strategies as st

from .. import models as M
from ..core import Prop, require
from . import c15, c16, c18, c19, c20, c21
from .c06 import make_objective, objective_exprs, value
from satisfy import Maximize, Minimize, Model, Solver
from satisfy import constraint as C
from satisfy import expression as X
from satisfy.solver import ModelSolver
import satisfy.tool as T

COMMANDS = ["knapsack", "sudoku", "graph_labeling", "ascii_map_coloring", "nonogram", "queens", "einstein", "cryptarithm"]
FILES = COMMANDS[:5]
OPTIONS = {"knapsack": ["--input-file"], "sudoku": ["--input-file"], "graph_labeling": ["--input-file", "--labels"],
           "ascii_map_coloring": ["--input-file", "--colors"], "nonogram": ["--input-file", "--input-image"],
           "queens": ["--board-size"], "einstein": [], "cryptarithm": ["--avoid-leading-zeros"]}
SHORT = {"--input-file": "-i", "--input-image": "-I", "--labels": "-L", "--colors": "-C", "--board-size": "-b",
         "--avoid-leading-zeros": "-z", "--limit": "-l", "--timeout": "-t", "--show-model": "-s"}
ARGS = ["unknown-option", "bad-limit", "bad-limit", "bad-timeout", "surplus", "missing-file", "own", "own", "unknown-command", "no-file-name"]
JUNK_JSON = ["x", None, 1.5, [1], {}, "1"]


@st.composite
def content(draw, kind):
    """A well-formed input, as data or text."""
    if kind == "knapsack":
        return draw(c18.problems(5))
    if kind == "sudoku":
        return draw(c15.schemas(draw(st.sampled_from(["random", "digits", "complete"]))))["schema"]
    if kind == "graph_labeling":
        g = draw(c20.graphs(4))
        ids = ["a", "b", 1, 2][:g["n"]]
        return {"directed": False, "multigraph": draw(st.booleans()), "graph": {}, "nodes": [{"id": x} for x in ids],
                "links": [{"source": ids[a], "target": ids[b]} for a, b in g["edges"]]}
    if kind == "nonogram":
        from .. import puzzles as P
        return P.clues(draw(c16.pictures(4)))
    return draw(c21.maps(3))


@st.composite
def cli_args(draw, tier):
    kind = draw(st.sampled_from(COMMANDS))
    how = draw(st.sampled_from(ARGS))
    case = {"kind": "args", "command": kind, "how": how, "long": draw(st.booleans()), "also": draw(st.lists(
        st.sampled_from([["-l", "1"], ["-s"], ["-t", "1000"], ["-l"], ["-t"]]), max_size=2, unique_by=lambda x: x[0])),
        "at_end": draw(st.booleans()), "i": draw(st.integers(0, 9)),
        "junk": draw(st.sampled_from(["x", "1.5", "1e3", "one", "", "0x10", "1,2", "--", "3 4", "None", "inf?"]))}
    return case


@st.composite
def cli_content(draw, tier):
    kind = draw(st.sampled_from(FILES[:3] + ["nonogram", "cryptarithm", "knapsack"]))
    case = {"kind": "content", "command": kind, "also": draw(st.lists(
        st.sampled_from([["-l", "1"], ["-s"], ["-t", "1000"], ["-l"]]), max_size=2, unique_by=lambda x: x[0])),
        "i": draw(st.integers(0, 999)), "j": draw(st.integers(0, 999))}
    if kind == "cryptarithm":
        spec = draw(c19.puzzles(3))
        case["text"] = c19.source_text({"spec": spec, "case": draw(st.sampled_from(["upper", "lower"])), "space": draw(st.booleans())})
        case["how"] = draw(st.sampled_from(["operator", "parenthesis", "closing", "relation-first", "words", "assignment", "list",
                                            "attribute", "call", "subscript", "name", "statement", "empty", "tilde"]))
    else:
        case["data"] = draw(content(kind))
        case["how"] = draw(st.sampled_from(["truncated", "empty", "kind", "surplus", "value", "value", "value", "missing", "shape", "shape"]))
        case["junk"] = draw(st.sampled_from(JUNK_JSON))
    return case


API = ["objective", "objective", "optimize", "optimize-list", "optimal", "constraint", "variable", "parameter", "lookup", "domain",
       "solver-setting", "modelsolver-setting", "evaluate", "additional"]
JUNK = {"int": 3, "none": None, "str": "x", "list": [1], "float": 1.5, "object": object(), "class": X.Variable, "bool": True}


@st.composite
def api_cases(draw, tier):
    spec = draw(M.model_specs(min_vars=1, max_vars=4, max_dom=3, max_cons=2, max_space=40, extra=False, min_dom=1))
    ops = draw(st.lists(st.tuples(st.sampled_from(API), st.sampled_from(sorted(JUNK)), st.sampled_from(["min", "max"]),
                                  st.integers(0, 3)).map(list), min_size=1, max_size=5))
    return {"kind": "api", "spec": spec, "ops": ops, "obj": [draw(st.sampled_from(["min", "max"])), draw(objective_exprs(spec, tier))],
            "cfg": draw(M.CONFIG), "used": draw(st.booleans())}


def run(argv):
    """-> (exit: None, an exit status or an exception; output; error output)"""
    out, err = io.StringIO(), io.StringIO()
    old = sys.argv
    sys.argv = ["satisfy"] + argv
    end = None
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                T.main()
            except SystemExit as e:
                end = e.code or 0
            except Exception as e:
                if type(e).__module__.startswith("pbt"):
                    raise
                end = e
    finally:
        sys.argv = old
    return end, out.getvalue(), err.getvalue()


class C34(Prop):
    id = "C34"
    rule = ("command lines with one thing wrong (options, numbers, files, arguments), well-formed input files with one thing made "
            "wrong (cut, a value, key or row lost or replaced) and the help texts; sequences of senseless calls of the API between "
            "solves; non-trivial: something is refused")
    oracle = ("an error exit (status 2 and a message for the command line itself) and no word of a solution or a summary; the documented "
              "exceptions, and afterwards the same solutions and optimum as the reference")
    quick = 8000
    thorough = 60000

    def strategy(self, tier):
        return st.one_of(cli_args(tier), cli_content(tier), cli_content(tier), api_cases(tier))

    def fixed(self, tier):
        out = [{"kind": "help", "argv": a} for a in ([], ["-h"], ["--help"])]
        return out + [{"kind": "help", "argv": [c, h]} for c in COMMANDS for h in ("-h", "--help")]

    def check(self, case, rec):
        rec.label("kind:" + case["kind"])
        getattr(self, "check_" + case["kind"])(case, rec)

    def check_help(self, case, rec):
        end, out, err = run(case["argv"])
        require(end in (None, 0), "{} ends with {!r}: {}", case["argv"], end, err)
        require(not err, "error output: {!r}", err)
        words = COMMANDS
        if case["argv"] and case["argv"][0] in COMMANDS:
            words = OPTIONS[case["argv"][0]] + ["--limit", "--timeout", "--show-model"]
            words = words + [SHORT[w] for w in words]
        missing = [w for w in words if w not in out]
        require(not missing, "the help of {} does not mention {}", case["argv"], missing)
        require("=== solution" not in out and "Found " not in out, "the help of {} solves something", case["argv"])
        rec.nontrivial = True

    def refused(self, argv, rec, status=None):
        end, out, err = run(argv)
        for word in ("=== solution", "Found ", "is_optimal", "optimal_solution"):
            require(word not in out, "{} is wrong, but {!r} is printed: {!r}", argv, word, out[-300:])
        require(end not in (None, 0), "{} is wrong, but ends with status 0: {!r}", argv, out[-200:])
        if status is not None:
            require(end == status, "{} ends with {!r} instead of the status {}", argv, end, status)
            require(err.strip(), "{} is refused without a message", argv)
        rec.nontrivial = True

    def check_args(self, case, rec):
        kind, how, long_, junk = case["command"], case["how"], case["long"], case["junk"]
        if how == "own":
            how = {"knapsack": "missing-file", "sudoku": "missing-file", "graph_labeling": "no-words", "ascii_map_coloring": "no-words",
                   "nonogram": "two-inputs", "queens": "bad-size", "einstein": "surplus", "cryptarithm": "bad-zeros"}[kind]
        if how in ("missing-file", "no-file-name") and kind not in FILES:
            how = "unknown-option"
        name = lambda option: option if long_ else SHORT[option]
        also = [x for x in case["also"] if how not in ("bad-limit", "bad-timeout") or x[0] not in ("-l", "-t")]
        folder = None
        first = [kind]
        if how == "unknown-option":
            bad = [["--frobnicate"], ["-q"], ["--limits", "3"], ["-x", "1"], ["--no-limit"], ["--solver=1"]][case["i"] % 6]
        elif how == "bad-limit":
            if junk == "--":
                junk = "-"
            bad = [name("--limit"), junk]
        elif how == "bad-timeout":
            if junk in ("1.5", "1e3", "--"):
                junk = "soon"
            bad = [name("--timeout"), junk]
        elif how == "surplus":
            bad = ["surplus", "words"]
        elif how == "unknown-command":
            first = [["knapsac", "Sudoku", "solve", "queen", "graph-labeling", "nonograms", "all"][case["i"] % 7]]
            bad = []
        elif how == "missing-file":
            folder = tempfile.mkdtemp(prefix="verif-c34-")
            bad = [name("--input-file"), os.path.join(folder, "nothing here")]
        elif how == "no-file-name":
            also, bad = [], [name("--input-file")]
        elif how == "no-words":
            also, bad = [], [name("--labels" if kind == "graph_labeling" else "--colors")]
        elif how == "two-inputs":
            folder = tempfile.mkdtemp(prefix="verif-c34-")
            files = [os.path.join(folder, x) for x in "ab"]
            for f in files:
                with open(f, "w") as h:
                    h.write('{"rows": [[1]], "columns": [[1]]}')
            bad = [name("--input-file"), files[0], name("--input-image"), files[1]]
        elif how == "bad-size":
            if junk == "--":
                junk = "-"
            bad = [name("--board-size"), junk]
        else:
            bad = [name("--avoid-leading-zeros"), ["maybe", "x", "1.5", "onn", "none"][case["i"] % 5]]
        if kind == "cryptarithm" and how != "unknown-command":
            first = first + ["A==B"]
        rec.label("args:" + how)
        argv = first + ([y for x in also for y in x] + bad if case["at_end"] else bad + [y for x in also for y in x])
        try:
            self.refused(argv, rec, 2)
        finally:
            if folder:
                for f in os.listdir(folder):
                    os.unlink(os.path.join(folder, f))
                os.rmdir(folder)

    def spoil(self, case):
        """-> text of the file, or None if this cannot be spoilt that way"""
        kind, how, junk = case["command"], case["how"], case["junk"]
        data = json.loads(json.dumps(case["data"]))
        i, j = case["i"], case["j"]
        if how == "truncated":
            text = json.dumps(data)
            return text[:i % len(text)]
        if how == "empty":
            return ["", " ", "\n\n"][i % 3]
        if how == "surplus":
            return json.dumps(data) + ["]", "}", " 1", ","][i % 4]
        if how == "kind":
            return json.dumps([5, None, "text", True, 2.5, [] if isinstance(data, dict) else {}][i % 6])
        if how == "missing" and isinstance(data, dict):
            keys = {"knapsack": ["values", "capacities", "weights"], "nonogram": ["rows", "columns"], "graph_labeling": ["nodes", "links"]}
            del data[keys[kind][i % len(keys[kind])]]
            return json.dumps(data)
        if kind == "sudoku":
            if how == "value":
                data[i % 9][j % 9] = junk if junk not in (None,) else 10 + i
            elif j % 2:
                (data.pop if i % 2 else data.append)(*([i % 9] if i % 2 else [[0] * 9]))
            else:
                (data[j % 9].pop if i % 2 else data[j % 9].append)(0)
            return json.dumps(data)
        if kind == "knapsack":
            v, c, w = data["values"], data["capacities"], data["weights"]
            if how == "value":
                where = [x for x in (v, c) + tuple(w) if x]
                if not where:
                    return None
                x = where[i % len(where)]
                x[j % len(x)] = junk
            elif i % 3 == 0:
                w.append([1] * len(c))
            elif not v:
                return None
            elif i % 3 == 1:
                w.pop(j % len(w))
            else:
                w[j % len(w)].append(1)
            return json.dumps(data)
        if kind == "nonogram":
            side = data[["rows", "columns"][i % 2]]
            if how == "value":
                side[j % len(side)] = [junk if junk != [1] else [[1]]] + side[j % len(side)]
            elif how == "shape":
                side[j % len(side)] = 3         # a number instead of a list of runs
            return json.dumps(data)
        if how == "value" or how == "shape":
            where = data[["nodes", "links"][i % 2]]
            if how == "value":
                where.insert(j % (len(where) + 1), [5, None, 1.5][j % 3])
            elif data["links"]:
                del data["links"][j % len(data["links"])][["source", "target"][i % 2]]
            else:
                return None
            return json.dumps(data)
        return None

    def check_content(self, case, rec):
        kind, how = case["command"], case["how"]
        also = [y for x in case["also"] for y in x]
        if kind == "cryptarithm":
            src = case["text"]
            text = {"operator": src + " +", "parenthesis": "(" + src, "closing": src + ")", "relation-first": "== " + src, "words": src + " A B",
                    "assignment": "A = B", "list": src + ", A", "attribute": "A.B == C", "call": "A() == B", "subscript": "A[0] == B",
                    "name": "\u00e9 == " + src, "statement": src + "; A", "empty": "", "tilde": "~A == B"}[how]
            if text.startswith("-"):
                return
            rec.label("cryptarithm:" + how)
            return self.refused([kind, text] + also, rec)
        text = self.spoil(case)
        if text is None:
            rec.label("skipped")
            return
        rec.label("{}:{}".format(kind, how))
        folder = tempfile.mkdtemp(prefix="verif-c34-")
        name = os.path.join(folder, "input")
        try:
            with open(name, "w") as f:
                f.write(text)
            self.refused([kind, "-i", name] + also, rec)
        finally:
            os.unlink(name)
            os.rmdir(folder)

    # -- the API

    def raises(self, errors, what, f):
        try:
            r = f()
        except errors:
            return
        except Exception as e:
            require(False, "{}: {!r} instead of {}", what, e, errors)
        require(False, "{} is accepted: {!r}", what, r)

    def check_api(self, case, rec):
        spec = case["spec"]
        b = M.build(spec)
        sols = M.ref_solutions(spec)
        params = M.param_values(spec)
        solver = M.make_solver(case["cfg"])
        good = make_objective(case["obj"], b)
        if case["used"]:
            list(solver.solve(b.model))
        before = [(n, list(i.domain)) for n, i in b.model.variables().items() if i.domain is not None]
        cons = list(b.model.constraints())
        for op, name, sense, i in case["ops"]:
            junk = JUNK[name]
            what = "{}({})".format(op, name)
            rec.label("api:" + op)
            if op == "objective":
                self.raises(TypeError, what, lambda: {"min": Minimize, "max": Maximize}[sense](junk))
            elif op in ("optimize", "optimal", "optimize-list"):
                if op == "optimize-list":
                    bad = [good, junk] if i % 2 else [junk, good]
                    bad = bad + [good] if i > 1 else bad
                else:
                    bad = b.vars[0] if i % 2 else junk
                    if name == "list":
                        bad = [b.vars[0]]
                # not an iterable, or an iterable of other things
                got = []
                f = (lambda: solver.optimal_solution(b.model, bad)) if op == "optimal" else \
                    (lambda: got.extend(solver.optimize(b.model, bad)))
                self.raises((ValueError, TypeError), what, f)
                require(not got, "{}: {} are yielded before it is refused", what, got)
            elif op == "constraint":
                self.raises(TypeError, what, lambda: C.ExpressionConstraint(junk))
            elif op in ("variable", "parameter"):
                if name != "str":
                    self.raises(TypeError, what, (lambda: X.Variable(junk)) if op == "variable" else (lambda: X.Parameter(junk, 3)))
            elif op == "lookup":
                self.raises(KeyError, what, lambda: b.model.get_variable("no such variable"))
            elif op == "domain":
                self.raises(KeyError, what, lambda: b.model.get_var_domain(["none", X.Variable("none")][i % 2]))
            elif op == "solver-setting":
                self.raises(TypeError, what, lambda: Solver(**{["limits", "policy", "compile", "objective"][i]: junk}))
            elif op == "modelsolver-setting":
                self.raises(TypeError, what, lambda: ModelSolver(model=Model(), **{["limits", "policy", "compile", "objective"][i]: junk}))
            elif op == "evaluate":
                # an expression lacking the value of a variable
                e = b.vars[0] + 1 if i % 2 else -b.vars[0]
                self.raises(X.EvaluationError, what, lambda: e.evaluate({"other": 1}))
            elif op == "additional":
                # a constraint given to the call, over a name that is no variable of the model
                if not b.model.solvable():
                    continue
                stray = b.params[0].name if b.params and i % 2 else "nowhere"
                bad = [C.ExpressionConstraint(X.Variable(stray) + b.vars[0] > -99), C.AllDifferentConstraint([stray, b.names[0]]),
                       M.ModConstraint([stray], 3, 1), C.ExpressionConstraint(X.Variable(stray) == X.Variable(stray)),
                       M.ModConstraint(b.names[:1] + [stray], 3, 1)][(i + len(name)) % 5]
                good_one = C.ExpressionConstraint(b.vars[0] == b.vars[0])
                extra = [[bad], [good_one, bad], (bad, good_one)][len(name) % 3]
                got = []
                f = (lambda: got.extend(solver.solve(b.model, additional_constraints=extra))) if sense == "min" else \
                    (lambda: got.extend(solver.optimize(b.model, good, additional_constraints=extra)))
                self.raises(ValueError, "a constraint over {!r} given to the call".format(stray), f)
                require(not got, "{} are yielded before a constraint over {!r} is refused", got, stray)
        rec.nontrivial = bool(case["ops"])
        after = [(n, list(i.domain)) for n, i in b.model.variables().items() if i.domain is not None]
        require(after == before, "variables changed from {} to {}", before, after)
        mine = list(b.model.constraints())
        require(len(mine) == len(cons) and all(x is y for x, y in zip(mine, cons)), "constraints changed from {} to {}", cons, mine)
        got = M.enumerate_solutions(solver.solve(b.model), len(sols) + 20, b)
        require(len(got) == len(sols) and set(got) == set(sols), "afterwards the solutions are {} instead of {}", got[:5], sols[:5])
        r = solver.optimal_solution(b.model, good)
        if not sols:
            require(r.solution is None, "afterwards {} is found", r)
            return
        t = M.as_tuple(r.solution, b)
        best = (min if case["obj"][0] == "min" else max)(value(case["obj"], s, params) for s in sols)
        require(r.is_optimal and t in sols and value(case["obj"], t, params) == best, "afterwards the optimum is {} instead of {}", r, best)


PROP = C34()
