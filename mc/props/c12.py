"""Headings keep their level and text"""

import itertools
import math

from ..containers import CONTAINERS, expect, inner, put
from ..engine import FuncSpace
from ..oracle import call, fill

LEVEL = "model_checking"
ASSUMPTIONS = ["headings are put together from the texts listed in mc/props/c12.py"]

TEXTS = {
    "": None,
    "w": None,
    "two words": None,
    "a  b   c": None,
    "a very long heading with many words in it that goes on": None,
    "closed ##": None,
    "a # b": None,
    "C#": None,
    "\\#": None,
    "\\# b": None,
    "1. a": None,
    "- a": None,
    "> a": None,
    "`co  de` x": None,
    "[a b](/c 'd e')": None,
    "a|b": None,
    "---": None,
    "| a |": None,
    "a<br>b": None,
    "a\\": None,
    "é中\u2028x": None,
    "```": None,
}
# Without a space these are something else
NEEDS_SPACE = {"", "```"}
BEFORE = {
    "nothing": [],
    "paragraph": ["p"],
    "blank": ["p", ""],
    "heading": ["# h"],
    "underlined": ["h", "-"],
    "fence": ["```", "```"],
    "break": ["***", ""],
    "list": ["* l", ""],
    "quote": ["> q", ""],
    "table": ["| t |", "| - |"],
    "code": ["    c"],
}
BEFORE_RESULT = {
    "table": ["| t |", "|---|"],
}
AFTER = {"end": [], "paragraph": ["p"], "blank": ["", "p"], "heading": ["###### h"],
         "underline": ["==="], "code": ["    c"], "fence": ["```", "```"]}


def before_result(before, w):
    if before == "break":
        return ["***" if w == "inf" else "*" * max(3, w), ""]
    return BEFORE_RESULT.get(before, BEFORE[before])


def compare(lines, wanted, container, w, r):
    text = "\n".join(put(lines, container)) + "\n"
    expected = "\n".join(expect(wanted, container)) + "\n"
    kind, out = call(text, w, r)
    r.validate()
    if expected != text:
        r.interesting()
    if (kind, out) != ("ok", expected):
        r.violation("heading", text=text, expected=expected, outcome=[kind, out])


def run_atx(case, r):
    level, indent, space, text, trailing, before, after, container, w = case
    line = " " * indent + "#" * level + space + text + trailing
    wanted = ("#" * level + " " + text).rstrip(" ")
    lines = BEFORE[before] + [line] + AFTER[after]
    wanted = before_result(before, inner(w, container)) + [wanted] + AFTER[after]
    compare(lines, wanted, container, w, r)


def atx(levels, indents, gaps, texts, trailings, befores, afters, containers, widths):
    for case in itertools.product(
        levels, indents, gaps, texts, trailings, befores, afters, containers, widths
    ):
        level, indent, space, text, trailing, before, after, container, w = case
        if not space and (text in NEEDS_SPACE or text.startswith("#")):
            continue
        if not text and (indent or space) and not trailing and False:
            continue
        if blank_in_list(before, after, container):
            continue
        if after == "underline" and container not in ("top", "quote"):
            # Isn't an underline, as a heading isn't a paragraph, but a paragraph
            continue
        if indent and container.endswith("quote") and before == "nothing":
            # The space after the quote marker may be dropped there
            continue
        if (indent or before == "code") and container.endswith("item"):
            continue
        if before == "code" and (container != "top" or indent):
            continue
        yield list(case)


def blank_in_list(before, after, container):
    if container in ("top", "quote", "quotequote"):
        return False
    return (
        "" in BEFORE[before]
        or "" in AFTER[after]
        or before in ("fence", "list", "code")
        or after == "code"
    )


# --- Underlined headings --------------------------------------------------------------

WORDS = {
    "a": ["a"],
    "ab": ["ab"],
    "sentence": ["The", "quick,", "brown", "fox", "jumps"],
    "long": ["antidisestablishmentarianism", "x"],
    "code": ["`x y`", "z"],
    "number": ["a", "b 1.", "c"],
    "equals": ["a", "b = c"],
    "equal": ["=a", "=b"],
    "dash": ["-a", "-b", "c"],
    "unicode": ["\u00fcn", "\u00ef\u4e2d\u6587\U0001f600", "e\u0301"],
}


def underlined_words(name):
    if name == "number":
        return [("a", True, False), ("b 1.", True, False), ("c", True, False)]
    if name == "equals":
        return [("a", True, False), ("b =", True, False), ("c", True, False)]
    return [(word, True, False) for word in WORDS[name]]


def run_setext(case, r):
    name, breaks, indents, underline, before, after, container, w = case
    words = " ".join(WORDS[name]).split(" ") if name in ("number", "equals") else WORDS[name]
    text = words[0]
    # Number and bullet words are only ever inside of a line
    for i, word in enumerate(words[1:]):
        glued = word in ("1.", "=")
        text += ("\n" if breaks == "all" and not glued else " ") + word
    lines = text.split("\n")
    lines = [
        " " * indents[min(i, len(indents) - 1)] + line for i, line in enumerate(lines)
    ]
    size = inner(w, container)
    wanted = fill(underlined_words(name), math.inf if size == "inf" else size)
    wanted.append(underline.strip()[0] * max(map(len, wanted)))
    lines.append(underline)
    lines = BEFORE[before] + lines + AFTER[after]
    wanted = before_result(before, size) + wanted + AFTER[after]
    compare(lines, wanted, container, w, r)


def setext(names, breaks, indents, underlines, befores, afters, containers, widths):
    for case in itertools.product(
        names, breaks, indents, underlines, befores, afters, containers, widths
    ):
        name, broken, indent, underline, before, after, container, w = case
        if before in ("paragraph", "list", "code"):
            # A paragraph would be part of the heading
            continue
        if blank_in_list(before, after, container):
            continue
        if before == "quote":
            # Documented to be changed by the formatter
            continue
        if container not in ("top",) and (any(indent) or underline.startswith(" ")):
            continue
        if after == "underline":
            continue
        yield [name, broken, list(indent), underline, before, after, container, w]


def run_atx_length(case, r):
    n, level, pattern, container, w = case
    text = (pattern * n)[:n].strip()
    line = "#" * level + " " + text
    compare([line + " "], [line], container, w, r)


CHARACTERS = [chr(i) for i in range(33, 127)] + list("\xad\xdf\u0301\u200b\u4e2d\ufeff\U0001f600")


def run_character(case, r):
    c, form, level, space, container, w = case
    text = form.replace("c", c)
    line = "#" * level + space + text
    compare(["# h", line, "p"], ["# h", "#" * level + " " + text, "p"], container, w, r)


def characters():
    """Every printable character at the ends and inside of the text"""
    for c, form, level, space, container in itertools.product(
        CHARACTERS, ["c", "cc", "ccc", "cx", "c x", "xc", "x c", "xcy", "x c y", "cxc"],
        [1, 3, 6], ["", " ", "   "], ["top", "item", "quote"],
    ):
        if not space and c == "#":
            continue
        yield [c, form, level, space, container, 20]


def setext_characters():
    """The same for underlined headings whose text is a single word"""
    for c, form, underline, container in itertools.product(
        CHARACTERS, ["xc", "xcy", "xcc"], ["=", "---"], ["top", "item", "quote"]
    ):
        yield [c, form, underline, container, 20]


def run_setext_character(case, r):
    c, form, underline, container, w = case
    text = form.replace("c", c)
    compare([text, underline, "p"], [text, underline[0] * len(text), "p"], container, w, r)


def run_setext_length(case, r):
    n, char, size, underline, w = case
    words = [("abcdefg" * size)[: 1 + (i * size) % (size + 3)] for i in range(n)]
    wanted = fill([(x, True, False) for x in words], math.inf if w == "inf" else w)
    wanted.append(char * max(map(len, wanted)))
    compare([" ".join(words), char * underline], wanted, "top", w, r)


def spaces(tier):
    thorough = tier == "thorough"
    texts = list(TEXTS)
    containers = list(CONTAINERS)
    befores = list(BEFORE)
    afters = list(AFTER)
    # The standard has six, but more are taken for a heading as well
    levels = range(1, 10)
    result = [
        FuncSpace(
            "atx",
            lambda: atx(
                levels, range(4), ["", " ", "   "], texts, ["", "  "], ["nothing"],
                ["end", "paragraph"], ["top"], [1, 10, 88, "inf"],
            ),
            run_atx,
            "every level, indentation, spacing, text and line length",
        ),
        FuncSpace(
            "atx-contexts",
            lambda: atx(
                [1, 3, 6, 7], [0, 2], ["", " "], texts, [""], befores, afters,
                ["top", "quote"], [7],
            ),
            run_atx,
            "every text between every two kinds of text",
        ),
        FuncSpace(
            "atx-containers",
            lambda: atx(
                levels, [0], ["", " ", "  "], texts, [""], ["nothing", "paragraph"],
                ["end", "paragraph", "heading"], containers, [3, 20, "inf"],
            ),
            run_atx,
            "every text in every container",
        ),
        FuncSpace(
            "setext",
            lambda: setext(
                list(WORDS), ["none", "all"],
                [(0,), (1,), (3,), (0, 2), (2, 0), (0, 4), (1, 8)],
                ["=", "-", "===", "---", "  ==", "   --  ", "=" * 30, "-" * 30, "=  "],
                ["nothing", "blank"], ["end", "paragraph"], ["top"],
                list(range(1, 32)) + ["inf", 0],
            ),
            run_setext,
            "every text, way to break lines, indentation, underline and line length",
        ),
        FuncSpace(
            "setext-contexts",
            lambda: setext(
                list(WORDS), ["all"], [(0,)], ["=", "--"], befores, afters, containers,
                [1, 5, 13, 40, "inf"],
            ),
            run_setext,
            "every text between every two kinds of text in every container",
        ),
    ]
    if thorough:
        result += [
            FuncSpace(
                "atx-contexts-more",
                lambda: atx(
                    levels, range(4), ["", " ", "  "], texts, ["", " "], befores, afters,
                    ["top", "quote", "quotequote"], [1, 30, "inf"],
                ),
                run_atx,
                "every text between every two kinds of text",
            ),
        ]
    result += [
        FuncSpace(
            "atx-lengths",
            lambda: (
                [n, level, pattern, container, w]
                for n in range(1, 301) for level in (1, 6, 30)
                for pattern in ("x", "ab ", "lorem ipsum, ")
                for container in ("top", "item") for w in (20, 88)
            ),
            run_atx_length,
            "headings of every length up to 300",
        ),
        FuncSpace(
            "setext-lengths",
            lambda: (
                [n, char, size, underline, w]
                for n in range(1, 41) for char in "=-" for size in (1, 7, 95)
                for underline in (1, 40, 200) for w in (10, 72, 88, 100, "inf")
            ),
            run_setext_length,
            "headings of up to 40 words",
        ),
    ]
    result += [
        FuncSpace(
            "characters", characters, run_character,
            f"each of {len(CHARACTERS)} characters in 10 places of a heading",
        ),
        FuncSpace(
            "setext-characters", setext_characters, run_setext_character,
            f"each of {len(CHARACTERS)} characters in 3 places of an underlined heading",
        ),
    ]
    for s in result:
        s.rule += "; nontrivial: reformatting changes the text"
    return result
