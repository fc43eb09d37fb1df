"""Link reference definitions keep label, destination and title"""

import itertools
import math

from ..containers import CONTAINERS, expect, inner, put
from ..engine import FuncSpace
from ..oracle import call, fill, rendering_differs

LEVEL = "model_checking"
ASSUMPTIONS = ["definitions are put together from the parts listed in mc/props/c14.py"]

LABELS = ["l", "a b", "^1", "a long label with many words", "Ünï", "x" * 999, "a(b)", "`c`", "1.", "\\\\", "a:b", "a: 'b"]
DESTINATIONS = [
    "/u",
    "<u>",
    "http://x.y/z?q=1#f",
    "/a/destination/that/is/rather/long/so/that/it/is/always/too/long",
    "\"q\"",
    "'q",
    "[k]",
    "#",
    "*",
    "---",
    ">",
    "1.",
    "é中",
]
TITLES = {
    "none": [],
    "short": ["'t'"],
    "double": ['"t u"'],
    "words": ["'one two three four five six seven eight nine ten'"],
    "escaped": ["'a\\' b'"],
    "other": ["'a \" b'"],
    "lines": ["'a", "b c", "d'"],
    "wide": ['"e  f', "g h i j k l m n o p q r\""],
    "backslash": ["'a\\\\'"],
    "brackets": ["'[a b](c d)'"],
    "empty": ["''"],
}
# What can't end a line as it would be a title then
GLUED = {
    "garbage": "'t' and", "garbage2": 'u" and', "garbage3": "u) and", "garbage4": "'t' 'u'",
    "underlined": "'t' and",
}
# Does the destination, and does the title, stand on a line of its own?
SPLITS = [(False, False), (True, False), (False, True), (True, True)]
AFTER = {
    "end": [],
    "blank": ["", "p q"],
    "definition": ["[k]: /v 'x'"],
    "text": ["plain text"],
    "heading": ["# h"],
    "fence": ["```", "x  y", "```"],
    "list": ["* i"],
    "unclosed": ["'not a title"],
    "garbage": ["'t' and more"],
    "garbage2": ['"t', 'u" and more'],
    "garbage3": ["(t u) and more"],
    "garbage4": ["'t' 'u' v w"],
    "underlined": ["'t' and more", "==="],
    "quote": ["> q"],
    "twoblank": ["", "", "'t'"],
    "apart": ["'t u", "", "v' w"],
}
BEFORE = {"nothing": [], "paragraph": ["p", ""], "definition": ["[j]: /w"], "heading": ["# h"],
          "list": ["* i", ""]}


def title_words(title):
    # A link in a title is laid out like any other text
    if title == "brackets":
        return [("'[a", True, False), ("b](", True, False), ("c d)'", False, False)]
    return [(word, True, False) for line in TITLES[title] for word in line.split()]


def layout(label, destination, title, split, w):
    """The lines of the result"""
    first = f"[{label}]:"
    if split[0]:
        lines = [first, destination]
    else:
        lines = [f"{first} {destination}"]
    if title == "none":
        return lines
    words = title_words(title)
    if not words:
        return lines
    if split[1] or len(lines[-1]) + 1 + len(words[0][0]) > w:
        return lines + fill(words, w)
    return lines[:-1] + fill([(lines[-1], False, False)] + words, w)


def spell(label, destination, title, split, indent, gap):
    lines = [" " * indent + f"[{label}]:"]
    if split[0]:
        lines.append(gap[1:] + destination)
    else:
        lines[-1] += gap + destination
    rows = TITLES[title]
    if rows:
        if split[1]:
            lines.append(gap[1:] + rows[0])
        else:
            lines[-1] += gap + rows[0]
        lines += [gap[1:] + row for row in rows[1:]]
    return lines


def run(case, r):
    label, destination, title, split, indent, gap, before, after, container, w = case
    size = inner(w, container)
    size = math.inf if size == "inf" else size
    if label == "x999":
        label = "x" * 999
    source = BEFORE[before] + spell(label, destination, title, split, indent, gap) + AFTER[after]
    wanted_after = list(AFTER[after])
    if after == "apart":
        wanted_after = fill([("'t", True, False), ("u", True, False)], size) + [""]
        wanted_after += fill([("v'", True, False), ("w", True, False)], size)
    if after in ("blank", "text", "unclosed") or after in GLUED:
        lead = 1 if after == "blank" else 0
        words = " ".join(wanted_after[lead:]).replace(" ===", "")
        if after in GLUED and title == "none":
            words = words.replace(GLUED[after], GLUED[after].replace(" ", "\0"))
        words = [x.replace("\0", " ") for x in words.split()]
        wanted_after = wanted_after[:lead] + fill([(x, True, False) for x in words], size)
        if after == "underlined":
            wanted_after += ["=" * max(map(len, wanted_after))]
    if after == "definition":
        wanted_after = fill([("[k]: /v", True, False), ("'x'", True, False)], size)
    wanted = BEFORE[before] + layout(label, destination, title, split, size) + wanted_after
    text = "\n".join(put(source, container)) + "\n"
    expected = "\n".join(expect(wanted, container)) + "\n"
    kind, out = call(text, w, r)
    r.validate()
    if expected != text:
        r.interesting()
    if kind == "ok" and after in GLUED and container == "top" and rendering_differs(text, out):
        r.violation("absorbed", text=text, output=out)
    if (kind, out) != ("ok", expected):
        r.violation("definition", text=text, expected=expected, outcome=[kind, out])


def definitions(
    labels, destinations, titles, splits, indents, gaps, befores, afters, containers, widths
):
    for case in itertools.product(
        labels, destinations, titles, splits, indents, gaps, befores, afters, containers,
        widths,
    ):
        label, destination, title, split, indent, gap, before, after, container, w = case
        if title == "none" and split[1]:
            continue
        if w != "inf" and inner(w, container) < 1:
            continue
        if destination in ("#", "*", "---", ">", "1.") and split[0]:
            # Would start something else
            continue
        if destination == "[k]" and split[0]:
            # Documented to be treated as a definition without a destination
            continue
        in_list = container not in ("top", "quote", "quotequote")
        if in_list and ("" in BEFORE[before] + AFTER[after] or after == "list"):
            continue
        if indent and container != "top":
            continue
        case = list(case)
        if label == "x" * 999:
            case[0] = "x999"
        yield case


def run_long(case, r):
    words, breaks, destination, split, container, w = case
    parts = [f"word{i}"[: 1 + (7 * i) % 6] for i in range(words)]
    rows = [" ".join(parts[i : i + breaks]) for i in range(0, words, breaks)]
    rows[0] = "'" + rows[0]
    rows[-1] += "'"
    TITLES["long"] = rows
    run(["l", destination, "long", split, 0, " ", "nothing", "blank", container, w], r)


CHARACTERS = [chr(i) for i in range(33, 127)] + list("\xad\xdf\u0301\u200b\u4e2d\ufeff\U0001f600")


def run_character(case, r):
    """A character in the label, destination or title; or a part that is long"""
    label, destination, words, split, container, w = case
    TITLES["characters"] = [words] if words else []
    run([label, destination, "characters", split, 0, " ", "nothing", "blank", container, w], r)


def character_cases():
    for c in CHARACTERS:
        parts = []
        if c not in "[]\\":
            parts += [(c, "/u", ""), ("a" + c, "/u", "'t'"), (c + "a b" + c, "/u", "'t u'")]
        if c not in "<\\":
            parts += [("l", "/" + c, ""), ("l", "/u" + c + "v", "'t u'")]
        if c not in "<>\\":
            parts += [("l", "<u" + c + ">", "'t u'"), ("l", "<" + c + ">", "")]
        if c not in "'\\`":
            parts += [("l", "/u", f"'{c}'"), ("l", "/u", f"'t{c} u'"), ("l", "/u", f"'{c}t u'")]
        if c not in '"\\`':
            parts += [("l", "/u", f'"t{c} u{c}"')]
        for (label, destination, words), split, container, w in itertools.product(
            parts, SPLITS, ["top", "quote"], [5, 10, 88]
        ):
            if destination in ("/(", "/)", "/u(v", "/u)v") or split[1] and not words:
                continue
            yield [label, destination, words, split, container, w]


def length_cases():
    for n in [*range(1, 100, 7), 127, 128, 129, 255, 256, 257, 499, 500, 511, 512, 513, 998, 999]:
        for label, destination, words in (
            ("x" * n, "/u", "'t u'"), ("l", "/" + "u" * n, "'t u'"), ("l", "<" + "u" * n + ">", ""),
            ("l", "/u", "'" + "t" * n + " u'"), ("l", "/u", "'" + "t" * n + "'"),
        ):
            for split, container, w in itertools.product(SPLITS, ["top", "quote"], [10, 88, "inf"]):
                if words or not split[1]:
                    yield [label, destination, words, split, container, w]


# --- Not a definition -----------------------------------------------------------------

NOT = [
    ["[l]", ": /u"],
    ["[]: /u"],
    ["\\[l]: /u"],
    ["[l] : /u"],
    ["a [l]: /u"],
    ["    [l]: /u  x"],
    ["[l]: /u 't' x"],
    ["[l]: /u 'unclosed"],
    ["[l]: /u text"],
    ["[" + "x" * 1000 + "]: /u"],
    ["[l]: /u 't", "", "u'"],
    ["[l]:", "/u 't", "", "u'"],
    ["[l]: /u 't", "u", "", "v'"],
]


DIALECT = set()


def run_not(case, r):
    index, after, w = case
    lines = NOT[index] + AFTER[after]
    text = "\n".join(lines) + "\n"
    kind, out = call(text, w, r)
    r.validate()
    r.interesting()
    if kind != "ok":
        r.violation("refused", text=text, outcome=[kind, out])
    elif out.split() != text.split():
        r.violation("text", text=text, output=out)
    elif index not in DIALECT and rendering_differs(text, out):
        r.violation("rendering", text=text, output=out)


# --- Titles and other sections --------------------------------------------------------

INTERRUPTING = ["# x", "#", "> x", ">", "* x", "- x", "1. x", "  + x", "---", "- - -", "***", "```",
                "~~~ k", "===", "--", "   =", "", " "]
CONTINUING = ["*", "1.", "    # x", "\\# x", "x # y", "    * x", "x", "-x", "1.x", "**x**", "[k]: /v"]
TITLED = [["[l]: /u 't"], ["[l]: /u", "'t"], ["[l]:", "/u 't"], ["[l]:", "/u", "'t"],
          ["[l]: /u 't", "v"], ["[l]: /u", '"t', "v"]]


def run_title(case, r):
    first, line, last, prefix, w = case
    lines = TITLED[first] + [line] + last
    text = "".join((prefix + x).rstrip() + "\n" for x in lines)
    kind, out = call(text, w, r)
    r.validate()
    r.interesting()
    if kind != "ok":
        r.violation("refused", text=text, outcome=[kind, out])
    elif rendering_differs(text, out):
        r.violation("rendering", text=text, output=out)


def title_cases(widths):
    for first in range(len(TITLED)):
        for line in INTERRUPTING + CONTINUING:
            quote = '"' if '"t' in TITLED[first] else "'"
            for last in ([f"u{quote}"], [f"u{quote}", "w"], [f"u{quote}", "", "[l]"],
                         [f"u{quote} x", "", "[l]"], ["x y", "", "[l]"]):
                for prefix in ("", "> "):
                    for w in widths:
                        if fenced(line) and "" in last and line:
                            continue
                        yield [first, line, last, prefix, w]


def fenced(line):
    return line[:3] in ("```", "~~~")


def nots(widths):
    for index in range(len(NOT)):
        for after in AFTER:
            if after in ("definition", "heading", "list", "fence", "quote", "underlined"):
                continue
            for w in widths:
                yield [index, after, w]


def spaces(tier):
    thorough = tier == "thorough"
    labels = LABELS
    titles = list(TITLES)
    containers = list(CONTAINERS)
    widths = [1, 6, 12, 20, 34, 88, "inf"]
    core = ["none", "short", "words", "lines"]
    result = [
        FuncSpace(
            "parts",
            lambda: definitions(
                labels, DESTINATIONS, titles, SPLITS, [0], [" "], ["nothing"], ["end"],
                ["top"], widths,
            ),
            run,
            "every label, destination, title and way to break lines",
        ),
        FuncSpace(
            "widths",
            lambda: definitions(
                ["l", "a b"], ["/u", "<u>"], titles, SPLITS, [0, 1, 3], [" ", "   "],
                ["nothing"], ["end", "blank"], ["top"], list(range(1, 60)),
            ),
            run,
            "every title and way to break lines at every line length",
        ),
        FuncSpace(
            "contexts",
            lambda: definitions(
                ["l", "a b"], ["/u"], core, SPLITS, [0], [" "], list(BEFORE), list(AFTER),
                containers, [5, 20, "inf"],
            ),
            run,
            "every definition between every two kinds of text in every container",
        ),
        FuncSpace(
            "spacing-contexts",
            lambda: definitions(
                ["l", "a b"], ["/u", "<u>"], titles, SPLITS, [0, 2], ["  "], ["nothing"],
                ["end", "blank", "definition", "text"], ["top", "quote"], [1, 10, 40],
            ),
            run,
            "every title and way to break lines, indented, with following text",
        ),
        FuncSpace(
            "titles", lambda: title_cases([1, 4, 9, 20, "inf"]), run_title,
            f"titles with one of the lines {INTERRUPTING + CONTINUING} in them",
        ),
        FuncSpace(
            "not-definitions", lambda: nots([1, 20, "inf"]), run_not, "what isn't one"
        ),
    ]
    if thorough:
        result += [
            FuncSpace(
                "parts-contexts",
                lambda: definitions(
                    labels, DESTINATIONS, titles, SPLITS, [0, 2], [" ", "  "], ["nothing"],
                    ["end", "blank", "definition", "text"], ["top", "quote"], [1, 10, 40],
                ),
                run,
                "every label, destination, title and way to break lines, with following text",
            ),
        ]
    result += [
        FuncSpace(
            "characters", character_cases, run_character,
            f"each of {len(CHARACTERS)} characters in 11 places of a definition",
        ),
        FuncSpace(
            "lengths", length_cases, run_character,
            "labels, destinations and titles of up to 999 characters",
        ),
    ]
    result.append(
        FuncSpace(
            "long",
            lambda: (
                [words, breaks, destination, split, container, w]
                for words in range(1, 61) for breaks in (5, 100) for destination in ("/u", "/u" * 50)
                for split in SPLITS for container in ("top", "quote") for w in (10, 40, 88, "inf")
            ),
            run_long,
            "titles of up to 60 words",
        )
    )
    for s in result:
        s.rule += "; nontrivial: reformatting changes the text"
    return result
