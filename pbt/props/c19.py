import itertools

from hypothesis import strategies as st

from .. import models as M
from .. import puzzles as P
from ..core import Prop, require
from satisfy.cryptarithm import CryptarithmSolver
from satisfy.utils import INFINITY


def spell(draw, n, letter_of, p_letter, min_len=1):
    """A number as a word: some digits become letters."""
    out = ""
    for d in str(n).zfill(min_len):
        if d in letter_of and draw(p_letter):
            out += letter_of[d]
        else:
            out += d
    return out


@st.composite
def puzzles(draw, max_letters=4):
    k = draw(st.sampled_from([3, 2, 4, 1, 3, 5][:max_letters + 1]))
    num = st.one_of(st.integers(0, 9), st.integers(0, 99), st.integers(0, 999), st.integers(100, 99999))
    n1, n2 = draw(st.integers(1, 3)), draw(st.sampled_from([1, 1, 1, 2]))

    def side(n):
        out = [draw(num)]
        for _ in range(n - 1):
            op = draw(st.sampled_from(["+", "+", "+", "-", "*", "*", "/"]))
            x = draw(num)
            if op == "/":
                x = max(1, x % 100)
            out.append([op, x])
        return out
    left = side(n1)
    rel = draw(st.sampled_from(["==", "==", "==", "==", "==", "!=", "<", ">=", "<=", ">"]))

    def val(s):
        return P.term_value([str(x) if not isinstance(x, list) else (x[0], str(x[1])) for x in s], {})
    v = val(left)
    planted = draw(st.integers(0, 4)) != 0 and v >= 0
    right = [v] if planted and n2 == 1 else side(n2)
    if planted and n2 == 2:
        a = draw(st.integers(0, max(0, v)))
        right = [a, ["+", v - a]]

    # the letters stand for digits that occur
    occurring = sorted({d for x in left + right for d in str(x[1] if isinstance(x, list) else x)})
    digits = draw(st.permutations(occurring))[:k]
    letters = draw(st.lists(st.sampled_from("ABCDEFGHIJKLMNOPQRSTUVWXYZ"), min_size=k, max_size=k, unique=True))
    letter_of = dict(zip(digits, letters))
    keep = draw(st.sampled_from([10, 10, 10, 7]))
    p_letter = st.integers(0, 9).map(lambda i: i < keep)

    def words(s):
        out = []
        for x in s:
            if not isinstance(x, list):
                out.append(spell(draw, x, letter_of, p_letter))
            elif x[0] == "/":
                # the divisor must not become 0 for any digits: it keeps a literal leading digit
                w = spell(draw, x[1], letter_of, p_letter)
                out.append(["/", str(x[1])[0] + w[1:]])
            else:
                out.append([x[0], spell(draw, x[1], letter_of, p_letter)])
        return out
    lw, rw = words(left), words(right)
    for side_ in (lw, rw):
        # the library evaluates literal / literal with Python's own division: not a cryptarithm matter
        for i, x in enumerate(side_):
            if isinstance(x, list) and x[0] == "/":
                x[0] = "/" if all(any(ch.isalpha() for ch in (y if isinstance(y, str) else y[1])) for y in side_[:i]) else "+"
    if draw(st.booleans()):
        lw, rw = rw, lw
    return {"left": lw, "rel": rel, "right": rw}


@st.composite
def formulas(draw):
    """Any expression, as tokens (a word is a list), over up to 13 letters of which all but three are given digits by
    constraints added to the model: these hold in the planted assignment, surplus letters leave no solution."""
    k = draw(st.sampled_from([2, 3, 3, 4, 5, 6, 7, 8, 9, 10, 10]))
    letters = list(draw(st.permutations("ABCDEFGHIJKLMNOPQRSTUVWXYZ"))[:k])
    digit = dict(zip(letters, draw(st.permutations(range(10)))))
    surplus = []
    if k == 10:
        surplus = [x for x in "ABCDEFGHIJKLMNOPQRSTUVWXYZ" if x not in letters][:draw(st.integers(0, 3))]
    wait = list(draw(st.permutations(letters + surplus)))

    def word():
        n = draw(st.sampled_from([1, 1, 2, 2, 3, 4, 6] * 6 + [12, 20, 25, 45]))
        out = ""
        for _ in range(n):
            z = draw(st.integers(0, 9))
            out += str(draw(st.integers(0, 9))) if z == 0 else wait.pop() if wait and z < 8 else draw(st.sampled_from(letters))
        return [out]

    def term(depth):
        z = draw(st.integers(0, 9)) if depth else 9
        if z >= 5:
            return [word()]
        if z == 4:
            return ["-", "("] + term(depth - 1) + [")"]
        op = draw(st.sampled_from(["+", "-", "*", "%", "**", "+", "*"]))
        if op == "%":
            w = word()
            w[0] = str(draw(st.integers(1, 9))) + w[0][:1]         # never 0
            return ["("] + term(depth - 1) + [")", "%", w]
        if op == "**":
            return ["("] + term(depth - 1) + [")", "**", draw(st.sampled_from("0123"))]
        return ["("] + term(depth - 1) + [op] + term(depth - 1) + [")"]

    def value(tokens):
        return eval(python(tokens), {}, {"w%d" % i: read(w, digit) for i, w in enumerate(words_of(tokens))})

    def relation():
        left = term(2)
        v = value(left) if not any(ch in surplus for w in words_of(left) for ch in w) else -1
        if draw(st.integers(0, 5)) and v >= 0:
            of = {str(d): x for x, d in digit.items()}
            right = [["".join(of.get(ch, ch) if draw(st.integers(0, 3)) else ch for ch in str(v))]]
            return left + ["=="] + right if draw(st.booleans()) else right + ["=="] + left
        right = term(2)
        return left + [draw(st.sampled_from(["<", "<=", ">", ">=", "!=", "=="]))] + right
    tokens = relation()
    if draw(st.integers(0, 3)) == 0:
        tokens = ["("] + tokens + [")", draw(st.sampled_from("&&|")), "("] + relation() + [")"]
    while wait and wait[-1] in surplus:
        tokens = ["("] + tokens + [")", "&", "(", [wait.pop()], ">=", "0", ")"]
    used = sorted({ch for w in words_of(tokens) for ch in w if ch.isalpha()})
    free = list(draw(st.permutations(used))[:draw(st.integers(0, 3))]) if used else []
    extra = [x for x in used if x in surplus]
    spare = iter(draw(st.permutations(range(10))))
    return {"kind": "formula", "tokens": tokens,
            "given": {x: digit[x] if x in digit else next(spare) for x in used if x not in free and (x not in extra or draw(st.booleans()))},
            "gaps": draw(st.sampled_from(["", "", " ", "  "])), "case": draw(st.sampled_from(["upper", "lower"])),
            "avoid": draw(st.sampled_from(["default", "default", True, False, False])),
            "compile": draw(st.sampled_from([None, True, False]))}


def words_of(tokens):
    return [t[0] for t in tokens if isinstance(t, list)]


def python(tokens):
    """Python source over the values w0, w1, ... of the words."""
    out, n = [], 0
    for t in tokens:
        if isinstance(t, list):
            out.append("w%d" % n)
            n += 1
        else:
            out.append({"/": "//", "&": " and ", "|": " or "}.get(t, t))
    return " ".join(out)


def read(w, digit):
    return int("".join(ch if ch.isdigit() else str(digit[ch]) for ch in w))


@st.composite
def cases(draw, tier):
    if draw(st.integers(0, 4)) == 0:
        return draw(formulas())
    return {"spec": draw(puzzles(4 if tier == "quick" else 5)),
            "case": draw(st.sampled_from(["upper", "upper", "lower", "mixed"])),
            "space": draw(st.booleans()),
            "avoid": draw(st.sampled_from(["default", "default", True, False, False])),
            "limit": draw(st.sampled_from([None, None, None, "inf", 1, 3])),
            "compile": draw(st.sampled_from([None, True, False]))}


def source_text(case):
    spec = case["spec"]
    sp = " " if case["space"] else ""

    def word(w):
        if case["case"] == "lower":
            return w.lower()
        if case["case"] == "mixed":
            return "".join(ch.lower() if i % 2 else ch for i, ch in enumerate(w))
        return w

    def side(s):
        return "".join(word(x) if isinstance(x, str) else sp + x[0] + sp + word(x[1]) for x in s)
    return side(spec["left"]) + sp + spec["rel"] + sp + side(spec["right"])


class C19(Prop):
    id = "C19"
    rule = ("equations and inequalities over sums, products and quotients of words of letters and digits (up to 4 / 5 "
            "letters), mostly spelled out from true numeric equations; any formulas (parentheses, %, **, &, |) over up to 13 letters, "
            "all but a few given by constraints added to the model; case, spacing, leading-zero option, limits; "
            "non-trivial: at least 2 letters, a word of 2 characters or more, and a solution")
    oracle = "brute force over all assignments of different digits, words read as decimal numbers"
    quick = 5000
    thorough = 50000
    budget = 400_000_000

    def strategy(self, tier):
        return cases(tier)

    def fixed(self, tier):
        one = {"case": "upper", "space": True, "avoid": "default", "limit": None, "compile": None}
        big = [(["SEND", ["+", "MORE"]], ["MONEY"]), (["TWO", ["+", "TWO"]], ["FOUR"]), (["BASE", ["+", "BALL"]], ["GAMES"]),
               (["EAT", ["+", "THAT"]], ["APPLE"]), (["ABC", ["-", "DE"]], ["FG"]), (["A", ["+", "B"], ["+", "C"], ["+", "D"]], ["EF"]),
               (["ONE", ["+", "ONE"]], ["TWO"]), (["ABCDEFGH"], ["9753102A"])]
        out = [dict(one, spec={"left": a, "rel": "==", "right": b}) for a, b in big]
        for i in (1, 3, 6):
            out.append(dict(out[i], avoid=False, case="lower", compile=False))
        if tier == "thorough":
            out.append(dict(one, spec={"left": ["CROSS", ["+", "ROADS"]], "rel": "==", "right": ["DANGER"]}, limit=1))
        return out

    def check_formula(self, case, rec):
        tokens, given = case["tokens"], case["given"]
        words = words_of(tokens)
        letters = sorted({ch for w in words for ch in w if ch.isalpha()})
        free = [x for x in letters if x not in given]
        if len(free) > 4 or not letters:
            return
        avoid = case["avoid"] is not False
        heads = {w[0] for w in words if w[0].isalpha()} if avoid else set()
        code = compile(python(tokens), "formula", "eval")
        want = set()
        if len(set(given.values())) == len(given):
            for perm in itertools.permutations([d for d in range(10) if d not in given.values()], len(free)):
                digit = dict(given, **dict(zip(free, perm)))
                if not any(digit[x] == 0 for x in heads) and eval(code, {}, {"w%d" % i: read(w, digit) for i, w in enumerate(words)}):
                    want.add(tuple(digit[x] for x in letters))
        src = case["gaps"].join(t if isinstance(t, str) else t[0] if case["case"] == "upper" else t[0].lower() for t in tokens)
        rec.label("formula", "letters={}".format(min(len(letters), 11)), "avoid:{}".format(case["avoid"]))
        rec.label("solutions={}".format(len(want) if len(want) < 3 else "3+"))
        args = {}
        if case["avoid"] != "default":
            args["avoid_leading_zeros"] = case["avoid"]
        if case["compile"] is not None:
            args["compile_constraints"] = case["compile"]
        solver = CryptarithmSolver(src, **args)
        require(solver.source == src.upper(), "source is {!r} instead of {!r}", solver.source, src.upper())
        if not isinstance(solver.expr, (bool, int)):
            for shift in range(3):
                digit = {x: (i * (shift + 1) + shift) % 10 for i, x in enumerate(letters)}
                truth = eval(code, {}, {"w%d" % i: read(w, digit) for i, w in enumerate(words)})
                require(bool(solver.expr.evaluate(digit)) == bool(truth), "expr {} of {} is {} under {}", solver.expr, src, not truth, digit)
        for x, d in given.items():
            solver.model.add_constraint(solver.model.get_variable(x) == d)
        got = []
        for sol in solver:
            require(sorted(sol) == letters, "{}: solution {} is not over the letters {}", src, sol, letters)
            t = tuple(sol[x] for x in letters)
            require(t in want, "{} with {}: {} is no solution (leading zeros {})", src, given, sol, "avoided" if avoid else "allowed")
            got.append(t)
            require(len(got) <= len(want), "{}: more than {} solutions", src, len(want))
        require(len(set(got)) == len(got) == len(want), "{} with {}: {} solutions instead of {}; missing e.g. {} for {}", src, given,
                len(got), len(want), sorted(want - set(got))[:1], letters)
        rec.nontrivial = len(letters) >= 2 and bool(want)

    def check(self, case, rec):
        if case.get("kind") == "formula":
            return self.check_formula(case, rec)
        spec = case["spec"]
        letters = P.crypt_letters(spec)
        avoid = case["avoid"] is not False
        want = P.cryptarithm_solutions(spec, avoid)
        words = P.crypt_words(spec)
        rec.nontrivial = len(letters) >= 2 and max(len(w) for w in words) >= 2 and bool(want)
        rec.label("letters={}".format(len(letters)), "avoid:{}".format(case["avoid"]), "rel:" + spec["rel"])
        rec.label("solutions={}".format(len(want) if len(want) < 3 else "3+"))
        rec.label_if(any(any(c.isalpha() for c in w) and any(c.isdigit() for c in w) for w in words), "mixed-word")
        if not letters and not any(True for _ in words):
            return
        args = {}
        if case["avoid"] != "default":
            args["avoid_leading_zeros"] = case["avoid"]
        if case["compile"] is not None:
            args["compile_constraints"] = case["compile"]
        lim = case["limit"]
        if lim is not None:
            args["limit"] = INFINITY if lim == "inf" else lim
        n = min(lim, len(want)) if isinstance(lim, int) else len(want)
        src = source_text(case)
        got = []
        kept = P.Kept()
        for sol in map(kept.add, CryptarithmSolver(src, **args)):
            require(sorted(sol) == letters, "{}: solution {} is not over the letters {}", src, sol, letters)
            t = tuple(sol[x] for x in letters)
            got.append(t)
            require(t in want, "{}: {} is no solution (leading zeros {})", src, sol, "avoided" if avoid else "allowed")
            require(len(got) <= n, "{}: more than {} solutions", src, n)
        kept.check()
        require(len(set(got)) == len(got), "{}: a solution is yielded twice", src)
        require(len(got) == n, "{}: {} solutions instead of {} (limit {}); missing e.g. {} for {}", src, len(got), n, lim,
                sorted(want - set(got))[:1], letters)


PROP = C19()
