from hypothesis import strategies as st

from .. import models as M
from .. import puzzles as P
from ..core import Prop, require
from satisfy.sudoku import SudokuSolver
from satisfy.utils import INFINITY

PERM3 = st.permutations(range(3)).map(list)


@st.composite
def grids(draw):
    return P.sudoku_grid(list(draw(st.permutations(range(1, 10)))), draw(PERM3), [draw(PERM3) for _ in range(3)],
                         draw(PERM3), [draw(PERM3) for _ in range(3)], draw(st.booleans()))


@st.composite
def schemas(draw, kind=None, max_blanks=34):
    """-> (kind, schema): puzzles made by blanking a complete grid, possibly damaged."""
    grid = draw(grids())
    kind = kind or draw(st.sampled_from(["random", "random", "digits", "rectangle", "complete", "clash", "altered", "malformed"]))
    blanks = set()
    if kind in ("random", "clash", "altered"):
        n = draw(st.integers(1, max_blanks))
        blanks = set(draw(st.permutations(range(81)))[:n])
    elif kind == "digits":
        gone = set(draw(st.permutations(range(1, 10)))[:draw(st.sampled_from([1, 2, 2, 3]))])
        blanks = {9 * r + c for r in range(9) for c in range(9) if grid[r][c] in gone}
    elif kind == "rectangle":
        # two rows of a band and some columns: often several completions
        band = draw(st.integers(0, 2))
        r1, r2 = [3 * band + i for i in draw(st.permutations(range(3)))[:2]]
        cols = draw(st.permutations(range(9)))[:draw(st.integers(2, 9))]
        blanks = {9 * r + c for r in (r1, r2) for c in cols}
    schema = [[0 if 9 * r + c in blanks else grid[r][c] for c in range(9)]
              for r in range(9)]
    if kind == "clash":
        # overwrite a cell with the digit of a given in its row, column or block
        r, c = draw(st.integers(0, 8)), draw(st.integers(0, 8))
        unit = draw(st.sampled_from(["row", "col", "block"]))
        cells = {"row": [(r, j) for j in range(9)], "col": [(i, c) for i in range(9)],
                 "block": [(r // 3 * 3 + i, c // 3 * 3 + j) for i in range(3) for j in range(3)]}[unit]
        given_ = [p for p in cells if p != (r, c) and schema[p[0]][p[1]]]
        if given_:
            p = draw(st.sampled_from(given_))
            schema[r][c] = schema[p[0]][p[1]]
    elif kind == "altered":
        r, c = draw(st.integers(0, 8)), draw(st.integers(0, 8))
        schema[r][c] = draw(st.integers(1, 9))
    elif kind == "malformed":
        how = draw(st.sampled_from(["short", "long", "row-short", "row-long", "value", "empty", "row-empty"]))
        i, j = draw(st.integers(0, 8)), draw(st.integers(0, 8))
        if how == "short":
            del schema[i]
        elif how == "long":
            schema.insert(i, list(schema[j]))
        elif how == "row-short":
            del schema[i][j]
        elif how == "row-long":
            schema[i].insert(j, draw(st.integers(0, 9)))
        elif how == "value":
            schema[i][j] = draw(st.sampled_from([10, -1, 11, 99, "5", "", "x", 2.5, -9]))
        elif how == "empty":
            schema = []
        else:
            schema[i] = []
    return {"kind": kind, "schema": schema}


@st.composite
def cases(draw, tier):
    case = draw(schemas(max_blanks=44 if tier == "quick" else 50))
    case["none"] = draw(st.sampled_from([0, 1, 2]))        # blanks as 0, as None, mixed
    case["limit"] = draw(st.sampled_from(["inf", "inf", "inf", "default", "None", 1, 2, 5]))
    case["rows"] = draw(st.sampled_from(["list", "tuple", "generator"]))
    case["cfg"] = draw(st.one_of(st.none(), st.none(), st.fixed_dictionaries(
        {"policy": st.sampled_from(["ORDERED", "GROUPS", "MIN_BOUND", "REVERSED"]), "compile": st.booleans()})))
    return case


class C15(Prop):
    id = "C15"
    rule = ("9x9 schemas made from complete grids (all symmetries of a base pattern) by blanking random cells, whole "
            "digits or rectangles, then possibly putting clashing or altered givens or damaging the shape; limits and "
            "configurations; non-trivial: well-formed, at least 5 blanks")
    oracle = "independent bit-mask solver (all completions) and validity predicate"
    quick = 8000
    thorough = 80000
    budget = 100_000_000

    def strategy(self, tier):
        return cases(tier)

    def check(self, case, rec):
        kind = case["kind"]
        schema = [[None if v == 0 and (case["none"] == 1 or (case["none"] == 2 and (r + c) % 2)) else v
                   for c, v in enumerate(row)] for r, row in enumerate(case["schema"])]
        given_ = [list(r) for r in schema]
        if case["rows"] == "tuple":
            arg = tuple(tuple(r) for r in schema)
        elif case["rows"] == "generator":
            arg = (iter(r) for r in schema)
        else:
            arg = schema
        rec.label("kind:" + kind, "limit:{}".format(case["limit"]))
        args = {}
        if case["cfg"]:
            args = {"var_selection_policy": M.policy(case["cfg"]["policy"]), "compile_constraints": case["cfg"]["compile"]}
        if kind == "malformed":
            try:
                solver = SudokuSolver(arg, **args)
                res = list(solver)
            except ValueError:
                return
            except Exception as e:
                require(False, "malformed schema {} ends in {!r}, not in a ValueError", schema, e)
            require(False, "malformed schema {} accepted: {}", schema, res[:1])
        want = P.sudoku_solutions(schema, 60)
        lim = case["limit"]
        if len(want) > 60 and lim == "inf":
            lim = 40
        if lim != "default":
            args["limit"] = {"inf": INFINITY, "None": None}.get(lim, lim)
        n = {"default": 1, "None": 1, "inf": len(want)}.get(lim, lim)
        rec.label("completions={}".format(len(want) if len(want) < 3 else "3+"))
        rec.nontrivial = sum(1 for row in schema for v in row if not v) >= 5
        solver = SudokuSolver(arg, **args)
        got = []
        kept = P.Kept()
        for g in map(kept.add, solver):
            got.append(tuple(tuple(r) for r in g))
            require(len(got) <= n, "more than {} grids yielded (limit {})", n, lim)
        for g in got:
            require(len(g) == 9 and all(len(r) == 9 for r in g), "grid of the wrong shape: {}", g)
            require(P.sudoku_valid(g), "invalid grid {}", g)
            require(all(not v or g[r][c] == v for r, row in enumerate(given_) for c, v in enumerate(row)),
                    "grid {} changes a given of {}", g, given_)
        kept.check()
        require(case["rows"] == "generator" or [list(r) for r in arg] == given_, "the schema given was changed to {}", arg)
        require(len(set(got)) == len(got), "a grid is yielded twice")
        require(len(got) == min(n, len(want)), "{} grids yielded instead of {} (limit {}, {} completions) for {}",
                len(got), min(n, len(want)), lim, len(want), given_)
        if len(want) <= 60:
            require(set(got) <= set(want), "yielded grids are not completions")


PROP = C15()
