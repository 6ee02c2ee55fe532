import random

from hypothesis import strategies as st

from .. import models as M
from .. import puzzles as P
from ..core import Prop, require
import termcolor
from satisfy.tool.ascii_map_coloring import AsciiMapColoringSolver
from satisfy.utils import INFINITY

COLORS = ["red", "green", "blue", "yellow", "magenta", "cyan"]
GLYPHS = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"


def winding(draw):
    """A snake, a spiral or a maze of one character, in a background or among other regions."""
    how = draw(st.sampled_from(["snake", "spiral", "maze"]))
    nr, nc = 2 * draw(st.integers(1, 7)) + 1, 2 * draw(st.integers(1, 7)) + 1
    fill = draw(st.sampled_from(". B"))
    grid = [[fill] * nc for _ in range(nr)]
    if how == "snake":
        for r in range(nr):
            for c in range(nc) if r % 2 == 0 else [nc - 1 if r % 4 == 1 else 0]:
                grid[r][c] = "A"
    elif how == "spiral":
        r, c, dr, dc = 0, 0, 0, 1
        grid[0][0] = "A"
        turned = 0
        while turned < 2:
            r1, c1, r2, c2 = r + dr, c + dc, r + 2 * dr, c + 2 * dc
            if (0 <= r1 < nr and 0 <= c1 < nc and grid[r1][c1] != "A"
                    and not (0 <= r2 < nr and 0 <= c2 < nc and grid[r2][c2] == "A")):
                r, c = r1, c1
                grid[r][c] = "A"
                turned = 0
            else:
                dr, dc = dc, -dr
                turned += 1
    else:
        rnd = random.Random(draw(st.integers(0, 10 ** 6)))
        stack = [(0, 0)]
        grid[0][0] = "A"
        while stack:
            r, c = stack[-1]
            ways = [(a, b) for a, b in ((0, 2), (2, 0), (0, -2), (-2, 0))
                    if 0 <= r + a < nr and 0 <= c + b < nc and grid[r + a][c + b] != "A"]
            if not ways:
                stack.pop()
                continue
            a, b = rnd.choice(ways)
            grid[r + a // 2][c + b // 2] = grid[r + a][c + b] = "A"
            stack.append((r + a, c + b))
    for _ in range(draw(st.integers(0, 2))):        # cut somewhere
        grid[draw(st.integers(0, nr - 1))][draw(st.integers(0, nc - 1))] = draw(st.sampled_from(".C"))
    if draw(st.booleans()):
        grid = [list(x) for x in zip(*grid)]
    if draw(st.booleans()):
        grid = grid[::-1]
    if draw(st.booleans()):
        grid = [x[::-1] for x in grid]
    return ["".join(x) for x in grid]


@st.composite
def maps(draw, max_side=5):
    nr = draw(st.integers(1, max_side))
    chars = draw(st.sampled_from(["AB", "AB .", "ABC.", "01 ", "A.", "ABCD", "#@ .", "A _-", "a\u00e9A"]))
    ch = st.sampled_from(chars)
    form = draw(st.integers(0, 31)) if max_side > 4 else 0
    if form >= 30:      # winding regions: the far end is many more steps away than the map is long
        return winding(draw)
    if form == 29:      # large regions
        n = draw(st.integers(8, 16))
        lines = [[draw(st.sampled_from("A."))] * n for _ in range(draw(st.integers(3, n)))]
        for k in range(draw(st.integers(0, 3))):
            r, c = draw(st.integers(0, len(lines) - 1)), draw(st.integers(0, n - 1))
            for i in range(r, min(len(lines), r + draw(st.integers(1, 6)))):
                for j in range(c, min(n, c + 5)):
                    lines[i][j] = "B.AC"[k]
        return ["".join(x) for x in lines]
    if form == 28:      # many regions in a row
        line = draw(st.text(alphabet=st.sampled_from("AB."), min_size=8, max_size=14))
        return [line] if draw(st.booleans()) else list(line)
    if form == 27:      # more regions than there are glyphs to draw them with
        piece = draw(st.sampled_from(["A.", "AB.", "A.B", "ABA.", "AB"]))
        n = draw(st.integers(37, 90)) * len(piece) // max(1, len(piece.replace(".", "")))
        line = (piece * n)[:n + 2]
        if draw(st.booleans()):
            return [line] if draw(st.booleans()) else list(line)
        w = draw(st.integers(5, 20))
        return [x for i in range(0, len(line), w) for x in (line[i:i + w], "." * draw(st.integers(0, w)))]
    form %= 4
    if form == 3:
        # regions that are paths over a background: touching here and there, often at a corner only
        nr, nc = draw(st.integers(2, max_side)), draw(st.integers(2, max_side))
        grid = [["."] * nc for _ in range(nr)]
        for k in range(draw(st.integers(2, 4))):
            r, c = draw(st.integers(0, nr - 1)), draw(st.integers(0, nc - 1))
            for dr, dc in draw(st.lists(st.sampled_from([(1, 0), (0, 1), (0, -1), (-1, 0), (1, 0), (0, 1), (1, 1), (1, -1)]),
                                        max_size=6)):
                grid[r][c] = "ABAC"[k]
                r, c = min(max(r + dr, 0), nr - 1), min(max(c + dc, 0), nc - 1)
            grid[r][c] = "ABAC"[k]
        return ["".join(row) for row in grid]
    if form == 2 or form == 1 and nr == 1:
        nc = draw(st.integers(1, max_side))
        lines = [draw(st.text(alphabet=ch, min_size=nc, max_size=nc)) for _ in range(nr)]
    else:
        lines = [draw(st.text(alphabet=ch, max_size=max_side + 2)) for _ in range(nr)]
    return lines


@st.composite
def cases(draw, tier):
    lines = draw(maps(5 if tier == "quick" else 6))
    regions = P.map_regions(lines)
    k = draw(st.sampled_from([2, 3] if 7 < len(regions) < 10 else [2] if len(regions) > 9 else [3, 2, 4, 1] if len(regions) <= 5 else [2, 3] if len(regions) <= 7 else [2]))
    return {"lines": lines, "colors": draw(st.permutations(COLORS))[:k], "default_colors": draw(st.integers(0, 5)) == 0,
            "as": draw(st.sampled_from(["str", "list", "tuple"])),
            "limit": draw(st.sampled_from(["inf", "inf", "inf", "default", None, 1, 3])),
            "cfg": draw(st.one_of(st.none(), M.CONFIG)), "seed": draw(st.integers(0, 9))}


class C21(Prop):
    id = "C21"
    rule = ("random character maps up to 6 rows, sometimes 16, snakes, spirals and mazes among them, sometimes with up to 90 regions (ragged or rectangular; several alphabets with and without background), "
            "1-4 colors, limits, configurations; non-trivial: at least 2 regions, touching ones among them, and a coloring "
            "exists")
    oracle = "own flood fill (8-connected), brute force over all colorings, colored cells compared with termcolor's output"
    quick = 8000
    thorough = 60000

    def strategy(self, tier):
        return cases(tier)

    def check(self, case, rec):
        random.seed(case["seed"])
        lines = case["lines"]
        rec.label_if(len(lines) > 6 or max(map(len, lines)) > 8, "large-map")
        regions = P.map_regions(lines)
        edges = P.region_edges(regions)
        colors = ["red", "green", "blue", "yellow"] if case["default_colors"] else case["colors"]
        lim = case["limit"]
        if len(regions) > 36:
            # too many colorings to list: two per component at least, when two colors are enough
            comps = P.bipartite_components(len(regions), edges)
            if not comps or len(colors) < 2:
                rec.label("skipped:too-many-regions")
                return
            rec.label("regions>36")
            want = range(2 ** min(comps, 20))
            lim = lim if isinstance(lim, int) and lim <= len(want) else "default"
        elif len(colors) ** len(regions) > 70000:
            rec.label("skipped:too-many-regions")
            return
        else:
            want = P.colorings(len(regions), edges, len(colors))
        rec.nontrivial = len(regions) >= 2 and bool(edges) and bool(want)
        rec.label("regions={}".format(min(len(regions), 6)), "colorings={}".format(len(want) if len(want) < 3 else "3+"))
        rec.label_if(len({len(x) for x in lines}) > 1, "ragged")
        args = {}
        cfg = case["cfg"]
        if cfg and len(regions) <= 8:
            args = {"var_selection_policy": M.policy(cfg["policy"]), "compile_constraints": cfg["compile"]}
        if lim == "inf" and len(want) > 300:
            lim = 50
        if lim != "default":
            args["limit"] = INFINITY if lim == "inf" else lim
        n = {"inf": len(want), "default": 1, None: 1}.get(lim, lim)
        n = min(n, len(want))
        if not case["default_colors"]:
            args["colors"] = tuple(colors)
        arg = {"str": "\n".join, "list": list, "tuple": tuple}[case["as"]](lines)
        got = []
        kept = P.Kept()
        before = repr(arg)
        for pic in map(kept.add, AsciiMapColoringSolver(arg, **args)):
            require([len(r) for r in pic] == [len(x) for x in lines], "row lengths {} instead of {}",
                    [len(r) for r in pic], [len(x) for x in lines])
            t = []
            drawn = set()
            for i, reg in enumerate(regions):
                found = None
                cells = {pic[r][c] for r, c in reg}
                require(len(cells) == 1, "region {} is drawn in several ways: {}", sorted(reg), cells)
                cell = next(iter(cells))
                for k, color in enumerate(colors):
                    if any(cell == termcolor.colored(gl, color) for gl in GLYPHS):
                        found = k
                require(found is not None, "region {} is drawn as {!r}, not in one of {}", sorted(reg), cell, colors)
                t.append(found)
                drawn |= reg
            for r, line in enumerate(lines):
                for c, ch in enumerate(line):
                    if (r, c) not in drawn:
                        require(pic[r][c] in (" ", ch), "background cell ({},{}) drawn as {!r}", r, c, pic[r][c])
            for a, b in edges:
                require(t[a] != t[b], "touching regions {} and {} have the same color in {}", a, b, t)
            got.append(tuple(t))
            require(len(got) <= n, "more than {} colorings yielded (limit {})", n, lim)
        kept.check()
        require(repr(arg) == before, "the map given was changed from {} to {}", before, arg)
        require(len(set(got)) == len(got), "a coloring is yielded twice")
        require(len(got) == n, "{} colorings instead of {} (limit {})", len(got), n, lim)


PROP = C21()
