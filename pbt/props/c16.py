from hypothesis import strategies as st

from .. import models as M
from .. import puzzles as P
from ..core import Prop, require
from satisfy.nonogram import NonogramSolver
from satisfy.utils import INFINITY


@st.composite
def pictures(draw, max_side=5, min_side=1):
    nr = draw(st.integers(min_side, max_side))
    nc = draw(st.integers(min_side, max_side))
    shape = draw(st.integers(0, 19)) if max_side > 5 else 0
    if shape >= 18:         # long and narrow
        nr, nc = draw(st.integers(1, 2)), draw(st.integers(max_side, max_side + 7))
        if shape == 18:
            nr, nc = nc, nr
    style = draw(st.sampled_from(["random", "random", "dense", "sparse", "diagonal", "lines"]))
    bit = {"random": st.integers(0, 1), "dense": st.integers(0, 3).map(lambda i: int(i > 0)),
           "sparse": st.integers(0, 3).map(lambda i: int(i == 3)), "diagonal": st.integers(0, 1),
           "lines": st.integers(0, 1)}[style]
    if style == "diagonal":
        k = draw(st.integers(0, 1))
        pic = [[int((r + c) % 2 == k) for c in range(nc)] for r in range(nr)]
    elif style == "lines":
        cols = draw(st.lists(bit, min_size=nc, max_size=nc))
        rows = draw(st.lists(bit, min_size=nr, max_size=nr))
        pic = [[int(rows[r] and cols[c]) for c in range(nc)] for r in range(nr)]
    else:
        pic = [draw(st.lists(bit, min_size=nc, max_size=nc)) for _ in range(nr)]
    return pic


@st.composite
def cases(draw, tier):
    pic = draw(pictures(6 if tier == "quick" else 7))
    nono = P.clues(pic)
    how = draw(st.sampled_from(["own", "own", "own", "changed", "random"]))
    if how == "changed":
        # change one clue
        side = draw(st.sampled_from(["rows", "columns"]))
        i = draw(st.integers(0, len(nono[side]) - 1))
        nono[side][i] = draw(st.lists(st.integers(1, 3), max_size=3))
    elif how == "random":
        nono = {s: [draw(st.lists(st.integers(1, 4), max_size=2)) for _ in nono[s]] for s in ("rows", "columns")}
    return {"picture": pic, "nonogram": nono, "how": how,
            "limit": draw(st.sampled_from([None, None, None, "inf", 1, 2])),
            "as": draw(st.sampled_from(["list", "tuple"])),
            "cfg": draw(st.one_of(st.none(), st.none(), M.CONFIG)), "seed": draw(st.integers(0, 9))}


class C16(Prop):
    id = "C16"
    rule = ("clues of random pictures up to 6x6 (7x7 thorough; dense, sparse, chequered, with blank rows and columns), "
            "such clues with one changed, and random clues; limits, policies, compilation; non-trivial: at least 2 runs "
            "in all and a side longer than 1")
    oracle = "independent enumeration of all pictures with these runs (row patterns x column prefixes)"
    quick = 10000
    thorough = 80000
    budget = 60_000_000

    def strategy(self, tier):
        return cases(tier)

    def fixed(self, tier):
        out = []
        # many places for a run
        for width in (13, 16) + ((18,) if tier != "quick" else ()):
            for runs in ([1], [3], [width - 1], [width], [1, width - 4], [], [2, 1, width - 9]):
                row = [int(x) for x in "0".join("1" * r for r in runs).rjust(width - (len(runs) % 2), "0").ljust(width, "0")]
                for pic in ([row], [row, row[::-1]], [[x] for x in row]):
                    out.append({"picture": pic, "nonogram": P.clues(pic), "how": "own", "limit": None, "as": "tuple", "cfg": None, "seed": 0})
        for nr in range(1, 5):
            for nc in range(1, 5):
                for v in (0, 1):
                    pic = [[v] * nc for _ in range(nr)]
                    out.append({"picture": pic, "nonogram": P.clues(pic), "how": "own", "limit": None, "as": "list",
                                "cfg": None, "seed": 0})
        return out

    def check(self, case, rec):
        import random
        random.seed(case["seed"])
        nono = case["nonogram"]
        nr, nc = len(nono["rows"]), len(nono["columns"])
        want = P.nonogram_solutions(nono)
        rec.label("how:" + case["how"], "pictures={}".format(len(want) if len(want) < 3 else "3+"))
        rec.label_if(any(not r for r in nono["rows"] + nono["columns"]), "blank-line")
        nruns = sum(len(r) for r in nono["rows"])
        rec.label_if(not nruns, "no-runs")
        rec.nontrivial = nruns >= 2 and max(nr, nc) > 1
        args = {}
        cfg = case["cfg"]
        if cfg and (nr * nc <= 12 and nruns <= 6 or cfg["policy"] in ("MIN_BOUND",)):
            args = {"var_selection_policy": M.policy(cfg["policy"]), "compile_constraints": cfg["compile"]}
            rec.label("policy:" + cfg["policy"])
        lim = case["limit"]
        if lim is not None:
            args["limit"] = INFINITY if lim == "inf" else lim
        n = min(lim, len(want)) if isinstance(lim, int) else len(want)
        arg = nono if case["as"] == "list" else {k: tuple(tuple(x) for x in v) for k, v in nono.items()}
        got = []
        kept = P.Kept()
        before = repr(arg)
        for pic in map(kept.add, NonogramSolver(arg, **args)):
            got.append(tuple(tuple(int(bool(x)) for x in row) for row in pic))
            require(len(got) <= n, "more than {} pictures yielded", n)
            p = got[-1]
            require(len(p) == nr and all(len(r) == nc for r in p), "picture of shape {}x{} expected: {}", nr, nc, p)
            cl = P.clues(p)
            require(cl["rows"] == nono["rows"] and cl["columns"] == nono["columns"],
                    "picture {} has clues {} instead of {}", p, cl, nono)
        kept.check()
        require(repr(arg) == before, "the clues given were changed from {} to {}", before, arg)
        require(len(set(got)) == len(got), "a picture is yielded twice: {}", got)
        require(len(got) == n, "{} pictures yielded instead of {} (limit {}); missing e.g. {}", len(got), n, lim,
                sorted(set(want) - set(got))[:1])
        if case["how"] == "own" and not isinstance(lim, int):
            require(tuple(tuple(r) for r in case["picture"]) in got, "the picture itself is not found: {}", case["picture"])


PROP = C16()
