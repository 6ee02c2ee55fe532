from hypothesis import strategies as st

from .. import puzzles as P
from ..core import Prop, require
from .c16 import pictures
from satisfy.nonogram import pixmap_shape, pixmap_to_nonogram
from satisfy.tool import demo_nonogram as D

CH = st.sampled_from([" ", "_", " ", "_", "#", "#", "x", ".", "0", "\t", "-", "\u00e9", "\u00a0", "\u2588", "1"])


@st.composite
def cases(draw, tier):
    return {
        "picture": draw(pictures(8 if tier == "quick" else 14)),
        "cells": draw(st.sampled_from(["int", "bool", "truthy"])),
        "as": draw(st.sampled_from(["list", "tuple"])),
        "lines": draw(st.lists(st.text(alphabet=CH, max_size=8), min_size=1, max_size=6)),
        "chars": draw(st.sampled_from([None, None, ["_", "x"], [" ", "."], ["_", "\u2588"], [".", "#"]])),
        "zeroes": draw(st.one_of(st.none(), st.lists(CH, max_size=4))),
        "zeroes_as": draw(st.sampled_from(["frozenset", "set", "str", "list"])),
    }


class C17(Prop):
    id = "C17"
    rule = ("random pictures up to 8x8 (14x14) and random ragged texts over blanks, underscores and other characters; "
            "non-trivial: the picture has both filled and empty cells")
    oracle = "run lengths by grouping; text/picture round trip; character-wise reading of the text"
    quick = 20000
    thorough = 300000

    def strategy(self, tier):
        return cases(tier)

    def check(self, case, rec):
        pic = case["picture"]
        conv = {"int": int, "bool": bool, "truthy": lambda x: x * 5}[case["cells"]]
        arg = [[conv(x) for x in row] for row in pic]
        if case["as"] == "tuple":
            arg = tuple(tuple(r) for r in arg)
        flat = {x for row in pic for x in row}
        rec.nontrivial = len(flat) == 2
        rec.label("shape:{}".format("square" if len(pic) == len(pic[0]) else "wide" if len(pic) < len(pic[0]) else "tall"))
        want = P.clues(pic)

        def norm(n):
            return {k: [list(x) for x in n[k]] for k in n}
        before = repr(arg)
        got = norm(pixmap_to_nonogram(arg))
        require(got == want, "clues {} instead of {}", got, want)
        require(tuple(pixmap_shape(arg)) == (len(pic), len(pic[0])), "shape {} instead of {}", pixmap_shape(arg), (len(pic), len(pic[0])))
        text = D.pixmap_to_image(arg)
        require(repr(arg) == before, "the picture given was changed from {} to {}", before, arg)
        lines = text.split("\n")
        require(len(lines) == len(pic) and all(len(x) == len(pic[0]) for x in lines), "text {!r} has the wrong shape", text)
        back = [[int(bool(x)) for x in row] for row in D.image_to_pixmap(text)]
        require(back == pic, "reading {!r} gives {} instead of {}", text, back, pic)
        require(norm(D.image_to_nonogram(text)) == want, "clues of the text are wrong")
        if case["chars"]:
            zero, one = case["chars"]
            text = D.pixmap_to_image(arg, zero=zero, one=one)
            require(text == "\n".join("".join(one if x else zero for x in row) for row in pic), "text is {!r}", text)
            back = [[int(bool(x)) for x in row] for row in D.image_to_pixmap(text, zeroes={zero})]
            require(back == pic, "reading {!r} gives {} instead of {}", text, back, pic)
        # arbitrary text
        lines = case["lines"]
        width = max(len(x) for x in lines)
        if width == 0:
            return
        rec.label_if(len({len(x) for x in lines}) > 1, "ragged")
        want = [[int(c < len(x) and x[c] not in " _") for c in range(width)] for x in lines]
        got = [[int(bool(x)) for x in row] for row in D.image_to_pixmap("\n".join(lines))]
        require(got == want, "{!r} is read as {} instead of {}", lines, got, want)
        require(norm(D.image_to_nonogram("\n".join(lines))) == P.clues(want), "clues of {!r} are wrong", lines)
        if case["zeroes"] is not None:
            # blank characters of the caller's
            blank = {"frozenset": frozenset, "set": set, "str": "".join, "list": list}[case["zeroes_as"]](case["zeroes"])
            rec.label("no-blank-character" if not case["zeroes"] else "own-blank-characters")
            want = [[int(c < len(x) and x[c] not in case["zeroes"]) for c in range(width)] for x in lines]
            text = "\n".join(lines)
            got = [[int(bool(x)) for x in row] for row in D.image_to_pixmap(text, zeroes=blank)]
            require(got == want, "{!r} with blanks {!r} is read as {} instead of {}", lines, blank, got, want)
            got = norm(D.image_to_nonogram(text, zeroes=blank))
            require(got == P.clues(want), "clues of {!r} with blanks {!r} are {}", lines, blank, got)


PROP = C17()
