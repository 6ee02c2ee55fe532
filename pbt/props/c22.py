import random

from hypothesis import strategies as st

from .. import budget
from .. import models as M
from .. import puzzles as P
from ..core import Prop, require
from satisfy import Model
from satisfy.tool.queens import QueensSolver
from satisfy.tool.einstein_riddle import EinsteinRiddleSolver
from satisfy.utils import INFINITY

FAST = ["ORDERED", "GROUPS", "MIN_BOUND", "MAX_CONSTRAINT"]
RIDDLE = [p for p in M.POLICIES if p not in ("RANDOM", "MIN_CONSTRAINT")]


def attacks(p):
    return [(i, j) for j in range(len(p)) for i in range(j) if abs(p[i] - p[j]) == j - i]


@st.composite
def placements(draw):
    """A permutation no two queens of which attack each other, or only two of them, far apart or not."""
    rnd = random.Random(draw(st.integers(0, 10 ** 6)))
    n = draw(st.integers(4, 16))
    p = rnd.sample(range(n), n)
    for _ in range(400):            # repaired by swaps
        bad = attacks(p)
        if not bad:
            break
        i = rnd.choice(rnd.choice(bad))
        best = []
        for j in range(n):
            q = list(p)
            q[i], q[j] = q[j], q[i]
            best.append((len(attacks(q)) if j != i else 10 ** 6, rnd.random(), q))
        p = min(best)[2]
    if draw(st.integers(0, 2)):     # ... and broken by one
        near = []
        for j in range(n):
            for i in range(j):
                q = list(p)
                q[i], q[j] = q[j], q[i]
                bad = attacks(q)
                if bad:
                    near.append((len(bad), rnd.choice([-1, 0]) * max(b - a for a, b in bad), rnd.random(), q))
        if near:
            p = min(near)[3]
    return ["placed", n, draw(st.sampled_from(FAST + [None])), draw(st.sampled_from([None, True, False])), p]


class C22(Prop):
    id = "C22"
    rule = ("every board size up to 8 (9 and 10 with limits) with the default configuration, every fast policy x compilation "
            "up to size 5, random limits; whole boards of up to 16 queens, right or wrong by one pair, given by constraints on the puzzle's model; the riddle under every fast policy x compilation and with limits; non-trivial: "
            "a board of size 4 or more, or the riddle")
    oracle = "all placements found by permutations; attacks on a given board counted directly; the riddle's 15 clues checked on the answer directly"
    quick = 400
    thorough = 6000
    budget = 300_000_000

    def strategy(self, tier):
        queens = st.tuples(st.just("queens"), st.integers(0, 5), st.sampled_from(FAST + [None]), st.sampled_from([None, True, False]),
                           st.sampled_from([None, "inf", 1, 2, 3, 5, 10, 11]))
        small = st.tuples(st.just("queens"), st.integers(0, 2), st.sampled_from(M.POLICIES), st.booleans(),
                          st.sampled_from([None, "inf", 1, 2, 3]))
        riddle = st.tuples(st.just("riddle"), st.just(0), st.sampled_from(RIDDLE + [None]), st.sampled_from([None, True, False]),
                           st.sampled_from([None, "inf", 1, 2]))
        return st.one_of(queens, queens, small, riddle, placements(), placements()).map(list)

    def fixed(self, tier):
        out = [["queens", n, None, None, None] for n in range(0, 7)] + [["riddle", 0, None, None, None]]
        out += [["queens", n, p, c, None] for n in range(0, 6) for p in FAST for c in (True, False)]
        out += [["riddle", 0, p, c, None] for p in RIDDLE for c in (True, False)]
        out += [["queens", 7, None, None, None], ["queens", 8, None, None, None], ["queens", 9, None, None, 1]]
        if tier == "thorough":
            out += [["riddle", 0, "MIN_CONSTRAINT", True, None]]
            out += [["queens", 6, p, c, None] for p in FAST for c in (True, False)]
        return sorted(out, key=lambda x: -x[1])

    def check(self, case, rec):
        random.seed(3)
        kind, size, pol, comp, lim = case
        if size < 8:
            budget.BUDGET.limit = 60_000_000        # 7 million for the hardest
        args = {}
        if pol:
            args["var_selection_policy"] = M.policy(pol)
        if comp is not None:
            args["compile_constraints"] = comp
        if lim is not None and kind != "placed":
            args["limit"] = INFINITY if lim == "inf" else lim
        if kind == "placed":
            return self.placed(size, args, lim, rec)
        rec.label(kind if kind == "riddle" else "queens:{}".format(size), "policy:{}".format(pol))
        if kind == "riddle":
            rec.nontrivial = True
            res = []
            for sol in EinsteinRiddleSolver(**args):
                bad = P.riddle_failures(sol)
                require(not bad, "arrangement {} fails: {}", sol, bad)
                res.append(sol)
                require(len(res) == 1, "more than one arrangement yielded")
            require(len(res) == 1, "no arrangement yielded")
            return
        rec.nontrivial = size >= 4
        want = P.queens_solutions(size)
        n = min(lim, len(want)) if isinstance(lim, int) else len(want)
        got = []
        kept = P.Kept()
        for board in map(kept.add, QueensSolver(size, **args)):
            require(len(board) == size and all(len(r) == size for r in board), "board {} is not {}x{}", board, size, size)
            queens = [(r, c) for r in range(size) for c in range(size) if board[r][c]]
            require(len(queens) == size, "board {} has {} queens", board, len(queens))
            for i, (r, c) in enumerate(queens):
                for r2, c2 in queens[:i]:
                    require(r != r2 and c != c2 and abs(r - r2) != abs(c - c2), "queens attack each other: {}", board)
            got.append(tuple(c for r, c in queens))
            require(len(got) <= n, "more than {} boards", n)
        kept.check()
        require(len(set(got)) == len(got), "a board is yielded twice")
        require(len(got) == n, "{} boards of size {} instead of {} (limit {})", len(got), size, n, lim)

    def placed(self, size, args, p, rec):
        """The whole board is given, by constraints on the puzzle's model."""
        model = Model()
        puzzle = QueensSolver(size, model=model, **args)
        names = ["q_{}".format(r) for r in range(size)]
        if any(n not in model.variables() or sorted(model.get_var_domain(n)) != list(range(size)) for n in names):
            rec.label("skipped:no-variables-for-rows")
            return
        for name, c in zip(names, p):
            model.add_constraint(model.get_variable(name) == c)
        bad = attacks(p)
        boards = [[[int(x) for x in row] for row in board] for board in puzzle]
        rec.nontrivial = True
        rec.label("placed:" + ("valid" if not bad else "attack-at-{}".format(min(10, max(b - a for a, b in bad)))))
        require(len(boards) == (0 if bad else 1), "{} boards for the placement {}, in which {} attack each other", len(boards), p, bad)
        if boards:
            got = [[c for c in range(size) if row[c]] for row in boards[0]]
            require(len(got) == size and all(len(x) == 1 for x in got), "board {} for the placement {}", boards[0], p)
            got = [x[0] for x in got]
            require(len(set(got)) == size and not attacks(got), "queens attack each other: {}", boards[0])


PROP = C22()
