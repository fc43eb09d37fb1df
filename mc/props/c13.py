"""Thematic breaks stay thematic breaks of the right width

`is_break` is a state machine of its own for the definition in the CommonMark standard.
"""

import itertools

from ..containers import CONTAINERS, expect, inner, put
from ..engine import FuncSpace
from ..oracle import call

LEVEL = "model_checking"
ASSUMPTIONS = ["no tabs in the indentation"]


def is_break(line):
    """0-3 spaces and then only three or more of one character and spaces"""
    state, char, count = 0, None, 0
    for c in line:
        if c == " " or (c == "\t" and char):
            if char is None:
                state += 1
                if state > 3:
                    return False
            continue
        if c not in "-_*" or char not in (None, c):
            return False
        char = c
        count += 1
    return count >= 3


def result(char, w):
    return char * 3 if w == "inf" else char * max(3, w)


def spaced(char, w):
    """The same with spaces in between, so that it doesn't underline anything"""
    return " ".join(char * (3 if w == "inf" else max(3, (max(3, w) + 1) // 2)))


BEFORE = {
    "nothing": [],
    "blank": ["p", ""],
    "heading": ["# h"],
    "fence": ["```", "```"],
    "list": ["+ l"],
    "listblank": ["+ l", ""],
    "number": ["1. l"],
    "quote": ["> q", ""],
    "break": ["___"],
    "definition": ["[l]: /u"],
    "paragraph": ["p"],
}
AFTER = {"end": [], "paragraph": ["p"], "blank": ["", "p"], "list": ["+ l"], "code": ["    c"],
         "stars": ["***"]}


def run(case, r):
    line, before, after, container, w = case
    size = inner(w, container)

    def layout(lines):
        return [result(l.strip()[0], size) if is_break(l) else l for l in lines]

    char = line.strip()[0]
    lines = BEFORE[before] + [line] + AFTER[after]
    form = spaced if before == "paragraph" and char == "-" else result
    wanted = layout(BEFORE[before]) + [form(char, size)] + layout(AFTER[after])
    compare(lines, wanted, container, w, r)


def compare(lines, wanted, container, w, r):
    text = "\n".join(put(lines, container)) + "\n"
    expected = "\n".join(expect(wanted, container)) + "\n"
    kind, out = call(text, w, r)
    r.validate()
    if expected != text:
        r.interesting()
    if (kind, out) != ("ok", expected):
        r.violation("break", text=text, expected=expected, outcome=[kind, out])


def spellings(length, chars="-_*"):
    """All texts over a character and the space that are thematic breaks"""
    for char in chars:
        for n in range(3, length + 1):
            for parts in itertools.product(char + " ", repeat=n):
                line = "".join(parts)
                if is_break(line):
                    yield line


def tabbed(length, widths):
    """The same with tabs between and after the characters"""
    for char in "-_*":
        for n in range(4, length + 1):
            for parts in itertools.product(char + " \t", repeat=n):
                line = "".join(parts)
                if "\t" in line and is_break(line):
                    for w in widths:
                        yield [line, "nothing", "end", "top", w]
                        yield [line, "blank", "list", "quote", w]


def long_breaks():
    """Breaks of every number of characters up to 200, with gaps of up to 6 spaces"""
    for char, n, k in itertools.product("-_*", [*range(3, 200), 255, 256, 257, 1000], range(7)):
        for start, end in (("", ""), ("   ", " " * k)):
            line = start + char + (" " * k + char) * (n - 1) + end
            yield [line, "blank", "blank", "top", 88]
            if not start:
                yield [line, "heading", "end", "quote", 30]
                if k == 0:
                    yield [line, "nothing", "end", "hundreds", "inf"]
    # Gaps that are far wider
    for char, k, at in itertools.product("-_*", [7, 20, 79, 80, 81, 120, 256, 1000], range(3)):
        line = char + (" " * k if at == 0 else "") + char + (" " * k if at == 1 else "") + char
        yield [line + " " * k * (at == 2), "heading", "paragraph", "top", 40]


def breaks(length, befores, afters, containers, widths):
    for line in spellings(length):
        for before, after, container, w in itertools.product(
            befores, afters, containers, widths
        ):
            in_list = container not in ("top", "quote", "quotequote")
            if before == "paragraph" and not line.strip().strip("-"):
                # Underlines
                continue
            if in_list and (
                "" in BEFORE[before] + AFTER[after] or before in ("fence", "list", "number")
                or after == "code"
            ):
                continue
            if in_list and before == "nothing":
                marker = CONTAINERS[container][0]
                if any(is_break(marker[i:] + line) for i in range(len(marker))):
                    # The whole line is one
                    continue
            if line.startswith(" ") and (in_list or container.endswith("quote")) and (
                before == "nothing" and after in ("end", "code")
            ):
                # Spaces after a marker
                continue
            if line.startswith(" ") and in_list:
                continue
            if before in ("list", "number") and line.startswith("  "):
                # Inside of the item
                continue
            yield [line, before, after, container, w]


# --- What isn't one ------------------------------------------------------------------


def run_not(case, r):
    """The line has to survive as text or as the start of a list"""
    line, before = case
    text = "\n".join(BEFORE[before] + [line]) + "\n"
    kind, out = call(text, 20, r)
    r.validate()
    r.interesting()
    if kind != "ok":
        r.violation("not-a-break", text=text, outcome=[kind, out])
        return
    new = out.split("\n")[len(BEFORE[before]):]
    if any(is_break(l) and len(l.strip()) == 20 for l in new):
        r.violation("not-a-break", text=text, output=out)


def not_breaks(length):
    for n in range(1, length + 1):
        for parts in itertools.product("-_* ", repeat=n):
            line = "".join(parts)
            if is_break(line) or not line.strip() or line.endswith(" "):
                continue
            # An item whose content is one
            stripped = line.lstrip(" ")
            while stripped[:2] in ("- ", "* ", "+ "):
                stripped = stripped[2:].lstrip(" ")
            if is_break(stripped) and stripped != line.lstrip(" "):
                continue
            for before in ("nothing", "blank", "heading"):
                yield [line, before]


def run_under(case, r):
    """Dashes directly under a paragraph are a heading"""
    words, underline, before, w = case
    text = "\n".join(BEFORE[before] + words + [underline]) + "\n"
    kind, out = call(text, w, r)
    r.validate()
    r.interesting()
    size = max(map(len, words))
    wanted = "\n".join(BEFORE[before] + words + ["-" * size]) + "\n"
    if (kind, out) != ("ok", wanted):
        r.violation("heading", text=text, expected=wanted, outcome=[kind, out])


def under():
    for words in (["a"], ["ab", "cd"], ["abc", "de", "fgh"]):
        for indent, n, trailing in itertools.product(range(4), range(1, 12), ["", "  "]):
            underline = " " * indent + "-" * n + trailing
            for before in ("nothing", "blank", "heading", "fence", "listblank"):
                size = max(map(len, words))
                yield [words, underline, before, size]


def spaces(tier):
    thorough = tier == "thorough"
    widths = [*range(-1, 12), 20, 88, "inf"]
    containers = list(CONTAINERS)
    spaces_ = [
        FuncSpace(
            "spellings",
            lambda: breaks(10 if thorough else 9, ["nothing"], ["end"], ["top"], widths),
            run,
            "every thematic break of up to 9 (10) characters at every line length",
        ),
        FuncSpace(
            "tabs",
            lambda: tabbed(8 if thorough else 7, [9, "inf"]),
            run,
            "every thematic break of up to 7 (8) characters, spaces and tabs",
        ),
        FuncSpace(
            "contexts",
            lambda: breaks(6, list(BEFORE), list(AFTER), ["top", "quote"], [1, 9, "inf"]),
            run,
            "every thematic break of up to 6 characters between every two kinds of text",
        ),
        FuncSpace(
            "containers",
            lambda: breaks(
                5, ["nothing", "blank", "heading", "break"], ["end", "paragraph", "stars"],
                containers, [*range(0, 16), 88, "inf"],
            ),
            run,
            "every thematic break of up to 5 characters in every container",
        ),
        FuncSpace(
            "not-breaks",
            lambda: not_breaks(8 if thorough else 7),
            run_not,
            "every line of up to 7 (8) dashes, underscores, asterisks and spaces that "
            "isn't a thematic break",
        ),
        FuncSpace(
            "lengths",
            lambda: (
                [line, "nothing", "end", container, w]
                for line in ["---", "***", "_ _ _", "-" * 90, "* " * 50, "_" * 300]
                for container in ("top", "quote", "hundreds") for w in range(1, 301)
            ),
            run,
            "every line length up to 300",
        ),
        FuncSpace(
            "long-breaks", long_breaks, run,
            "thematic breaks of up to 200 characters with gaps of up to 6 spaces",
        ),
        FuncSpace("underlines", under, run_under, "dashes under a paragraph"),
    ]
    for s in spaces_:
        s.rule += "; nontrivial: reformatting changes the text"
    return spaces_
