"""Independent reference solvers of the puzzles the library models."""
import itertools
import operator

from .core import require


# ------------------------------------------------------------------ sudoku

BASE = [[(3 * (r % 3) + r // 3 + c) % 9 for c in range(9)] for r in range(9)]


def sudoku_grid(digits, bands, rows, stacks, cols, transpose):
    """A complete valid grid: the base pattern with digits, bands, rows, stacks and columns permuted."""
    ro = [3 * b + r for b in bands for r in rows[b]]
    co = [3 * s + c for s in stacks for c in cols[s]]
    g = [[digits[BASE[r][c]] for c in co] for r in ro]
    return [list(x) for x in zip(*g)] if transpose else g


def sudoku_valid(grid):
    want = set(range(1, 10))
    rows = [set(r) for r in grid]
    cols = [set(c) for c in zip(*grid)]
    blocks = [{grid[3 * a + i][3 * b + j] for i in range(3) for j in range(3)} for a in range(3) for b in range(3)]
    return all(s == want for s in rows + cols + blocks)


def sudoku_solutions(schema, cap):
    """All completions (up to cap + 1), as tuples of rows. Bit masks, fewest candidates first."""
    rows, cols, blocks = [0] * 9, [0] * 9, [0] * 9
    grid = [[v or 0 for v in row] for row in schema]
    blanks = []
    for r in range(9):
        for c in range(9):
            v = grid[r][c]
            if v:
                bit = 1 << v
                k = 3 * (r // 3) + c // 3
                if (rows[r] | cols[c] | blocks[k]) & bit:
                    return []
                rows[r] |= bit
                cols[c] |= bit
                blocks[k] |= bit
            else:
                blanks.append((r, c))
    res = []

    def go():
        best, where = None, None
        for i, (r, c) in enumerate(blanks):
            m = 0x3FE & ~(rows[r] | cols[c] | blocks[3 * (r // 3) + c // 3])
            n = bin(m).count("1")
            if best is None or n < best[0]:
                best, where = (n, m), i
                if n == 0:
                    return
        if best is None:
            res.append(tuple(tuple(x) for x in grid))
            return
        r, c = blanks.pop(where)
        k = 3 * (r // 3) + c // 3
        for v in range(1, 10):
            bit = 1 << v
            if best[1] & bit:
                rows[r] |= bit
                cols[c] |= bit
                blocks[k] |= bit
                grid[r][c] = v
                go()
                rows[r] &= ~bit
                cols[c] &= ~bit
                blocks[k] &= ~bit
                grid[r][c] = 0
                if len(res) > cap:
                    break
        blanks.insert(where, (r, c))
    go()
    return res


# ------------------------------------------------------------------ nonograms

def runs(cells):
    return [len(list(g)) for filled, g in itertools.groupby(bool(c) for c in cells) if filled]


def clues(picture):
    return {"rows": [runs(r) for r in picture], "columns": [runs(c) for c in zip(*picture)]}


def nonogram_solutions(nonogram, cap=10 ** 9):
    nr, nc = len(nonogram["rows"]), len(nonogram["columns"])
    lines = {}
    for bits in itertools.product((0, 1), repeat=nc):
        lines.setdefault(tuple(runs(bits)), []).append(bits)
    cands = [lines.get(tuple(r), []) for r in nonogram["rows"]]
    # acceptable prefixes of every column
    pre = []
    for clue in nonogram["columns"]:
        ok = set()
        for bits in itertools.product((0, 1), repeat=nr):
            if runs(bits) == list(clue):
                for i in range(nr + 1):
                    ok.add(bits[:i])
        pre.append(ok)
    res = []

    def go(rows):
        if len(res) > cap:
            return
        if len(rows) == nr:
            res.append(tuple(rows))
            return
        for cand in cands[len(rows)]:
            new = rows + [cand]
            if all(tuple(x[c] for x in new) in pre[c] for c in range(nc)):
                go(new)
    if all(() in p for p in pre):
        go([])
    return res


# ------------------------------------------------------------------ knapsack

def knapsack_best(values, capacities, weights):
    """-> (best value or None, set of feasible selections)"""
    best, feasible = None, set()
    for sel in itertools.product((0, 1), repeat=len(values)):
        if all(sum(s * w[d] for s, w in zip(sel, weights)) <= cap for d, cap in enumerate(capacities)):
            feasible.add(sel)
            v = sum(s * x for s, x in zip(sel, values))
            if best is None or v > best:
                best = v
    return best, feasible


# ------------------------------------------------------------------ cryptarithms

def word_value(word, digits):
    n = 0
    for ch in word.upper():
        n = 10 * n + (digits[ch] if ch.isalpha() else int(ch))
    return n


def term_value(tokens, digits):
    """tokens: word, (op, word)...; * and / bind tighter than + and -; / is floor division."""
    total, sign = 0, 1
    cur = word_value(tokens[0], digits)
    for op, w in tokens[1:]:
        v = word_value(w, digits)
        if op == "*":
            cur *= v
        elif op == "/":
            cur //= v
        else:
            total += sign * cur
            sign, cur = (1 if op == "+" else -1), v
    return total + sign * cur


REL = {"==": lambda a, b: a == b, "!=": lambda a, b: a != b, "<": lambda a, b: a < b, "<=": lambda a, b: a <= b,
       ">": lambda a, b: a > b, ">=": lambda a, b: a >= b}


def crypt_words(spec):
    return [t if isinstance(t, str) else t[1] for side in (spec["left"], spec["right"]) for t in side]


def crypt_letters(spec):
    return sorted({ch for w in crypt_words(spec) for ch in w.upper() if ch.isalpha()})


def cryptarithm_solutions(spec, avoid_leading_zeros):
    """-> set of tuples of digits, in the order of the sorted letters"""
    letters = crypt_letters(spec)
    first = {w[0].upper() for w in crypt_words(spec) if w[0].isalpha()} if avoid_leading_zeros else set()
    res = set()
    sides = (spec["left"], spec["right"])
    if len(letters) >= 5 and all(isinstance(x, str) or x[0] in "+-" for s in sides for x in s):
        # linear: left - right as one coefficient per letter
        coef, const = dict.fromkeys(letters, 0), 0
        for s, sign in zip(sides, (1, -1)):
            for x in s:
                op, w = ("+", x) if isinstance(x, str) else x
                place = sign if op == "+" else -sign
                for ch in reversed(w.upper()):
                    if ch.isalpha():
                        coef[ch] += place
                    else:
                        const += place * int(ch)
                    place *= 10
        coefs = [coef[x] for x in letters]
        heads = [letters.index(ch) for ch in first]
        rel = REL[spec["rel"]]
        for perm in itertools.permutations(range(10), len(letters)):
            if rel(sum(map(operator.mul, coefs, perm)) + const, 0) and all(perm[i] for i in heads):
                res.add(perm)
        return res
    for perm in itertools.permutations(range(10), len(letters)):
        digits = dict(zip(letters, perm))
        if any(digits[ch] == 0 for ch in first):
            continue
        if REL[spec["rel"]](term_value(spec["left"], digits), term_value(spec["right"], digits)):
            res.add(perm)
    return res


# ------------------------------------------------------------------ maps

def map_regions(lines):
    """-> list of sets of cells: 8-connected areas of the same character, blanks and dots excluded,
    in reading order of their first cell"""
    cell = {(r, c): ch for r, line in enumerate(lines) for c, ch in enumerate(line) if ch not in " ."}
    seen, regions = set(), []
    for pos in sorted(cell):
        if pos in seen:
            continue
        region, todo = set(), [pos]
        while todo:
            p = todo.pop()
            if p in region:
                continue
            region.add(p)
            for q in around(p):
                if cell.get(q) == cell[pos]:
                    todo.append(q)
        seen |= region
        regions.append(region)
    return regions


def around(p):
    return [(p[0] + i, p[1] + j) for i in (-1, 0, 1) for j in (-1, 0, 1) if i or j]


def region_edges(regions):
    owner = {p: i for i, reg in enumerate(regions) for p in reg}
    return {tuple(sorted((i, owner[q]))) for i, reg in enumerate(regions) for p in reg for q in around(p)
            if q in owner and owner[q] != i}


def colorings(n, edges, k):
    """All proper labelings of nodes 0..n-1 with 0..k-1."""
    before = [[] for _ in range(n)]
    for a, b in edges:
        if a == b:
            return set()
        before[max(a, b)].append(min(a, b))
    level = [()]
    for i in range(n):
        level = [t + (x,) for t in level for x in range(k) if all(t[j] != x for j in before[i])]
    return set(level)


def bipartite_components(n, edges):
    """The number of connected components, or 0 where two colors are not enough."""
    near = [[] for _ in range(n)]
    for a, b in edges:
        near[a].append(b)
        near[b].append(a)
    side = {}
    comps = 0
    for i in range(n):
        if i in side:
            continue
        comps += 1
        side[i] = 0
        todo = [i]
        while todo:
            a = todo.pop()
            for b in near[a]:
                if b not in side:
                    side[b] = 1 - side[a]
                    todo.append(b)
                elif side[b] == side[a]:
                    return 0
    return comps


# ------------------------------------------------------------------ queens and the riddle

def queens_solutions(n):
    return {p for p in itertools.permutations(range(n))
            if len({p[i] + i for i in range(n)}) == n and len({p[i] - i for i in range(n)}) == n}


ATTRS = {
    "owner": ["English", "Swede", "Dane", "Norwegian", "German"],
    "color": ["red", "green", "white", "yellow", "blue"],
    "drink": ["water", "coffee", "tea", "milk", "beer"],
    "smoke": ["Pall Mall", "Prince", "Dunhill", "Blend", "Blue Master"],
    "animal": ["cats", "a dog", "birds", "a horse", "a zebra"],
}


def riddle_failures(houses):
    """houses: {1..5: {"owner", "color", "drink", "smoke", "animal"}} -> clues that do not hold."""
    bad = []
    if sorted(houses) != [1, 2, 3, 4, 5]:
        return ["houses are {}".format(sorted(houses))]
    for attr, values in ATTRS.items():
        if sorted(houses[i].get(attr) for i in houses) != sorted(values):
            return ["{} used are {}".format(attr, [houses[i].get(attr) for i in houses])]
    at = {v: i for i in houses for v in houses[i].values()}
    checks = [
        ("English in red", at["English"] == at["red"]),
        ("Swede has a dog", at["Swede"] == at["a dog"]),
        ("Dane drinks tea", at["Dane"] == at["tea"]),
        ("green left of white", at["green"] == at["white"] - 1),
        ("coffee in green", at["coffee"] == at["green"]),
        ("Pall Mall has birds", at["Pall Mall"] == at["birds"]),
        ("yellow smokes Dunhill", at["yellow"] == at["Dunhill"]),
        ("milk in the middle", at["milk"] == 3),
        ("Norwegian first", at["Norwegian"] == 1),
        ("Blend next to cats", abs(at["Blend"] - at["cats"]) == 1),
        ("horse next to Dunhill", abs(at["a horse"] - at["Dunhill"]) == 1),
        ("Blue Master drinks beer", at["Blue Master"] == at["beer"]),
        ("German smokes Prince", at["German"] == at["Prince"]),
        ("Norwegian next to blue", abs(at["Norwegian"] - at["blue"]) == 1),
        ("water next to Blend", abs(at["water"] - at["Blend"]) == 1),
    ]
    return [name for name, ok in checks if not ok]


class Kept(object):
    """The solutions an enumeration has delivered: each is an object of its own, and stays as it was."""

    def __init__(self):
        self.held = []

    def add(self, obj):
        self.held.append((obj, repr(obj)))
        return obj

    def check(self):
        for obj, text in self.held:
            require(repr(obj) == text, "a solution delivered as {} is {} later", text, obj)
