"""Containers are transparent"""

import itertools
import re

from .. import blocks as B
from ..engine import FuncSpace
from ..oracle import call, rendering_differs

LEVEL = "model_checking"
ASSUMPTIONS = ["contents are built from the blocks of mc/blocks.py"]

MARKERS = ["> ", ">", "* ", "- ", "+ ", "1. ", "7. ", "10. ", "123. "]

THEMATIC_BREAK = re.compile(r" *(?:(?:- *){3,}|(?:\* *){3,}|(?:_ *){3,})\Z")


def wrap_lines(lines, marker):
    return B.quote(lines, marker) if marker.startswith(">") else B.item(lines, marker)


def fits(name, marker):
    return marker.startswith(">") or B.listable(name)


def run(case, r):
    name, markers, w = case
    source = B.lines_of(name)
    for marker in reversed(markers):
        source = wrap_lines(source, marker)
    text = "\n".join(source) + "\n"
    kind, out = call(text, w, r)
    r.validate()
    if kind != "ok":
        r.violation("refused", text=text, outcome=[kind, out])
        return
    if out != text:
        r.interesting()
    results = []
    # A marker without a space may get one
    for last in {">": [">", "> "]}.get(markers[-1], [markers[-1]]):
        result_markers = markers[:-1] + [last]
        inner_width = w if w == "inf" else w - sum(map(len, result_markers))
        if inner_width != "inf" and inner_width < 1:
            return
        kind, inner = call(B.text_of(name), inner_width, r)
        if kind != "ok":
            r.violation("refused", name=name, outcome=[kind, inner])
            return
        expected = inner[:-1].split("\n")
        if last == ">" and any(line.startswith(" ") for line in expected):
            # It would take a space of the content
            continue
        for marker in reversed(result_markers):
            expected = wrap_lines(expected, marker)
        results.append("\n".join(expected) + "\n")
    if results and out not in results:
        r.violation("congruence", text=text, expected=results, outcome=out)


def content_cases(names, depth, widths):
    for name in names:
        first = B.lines_of(name)[0]
        for markers in itertools.product(MARKERS, repeat=depth):
            if any(
                THEMATIC_BREAK.match("".join(markers[i:]) + first) for i in range(depth)
            ):
                # This isn't a list item at all
                continue
            if not fits(name, markers[-1]):
                continue
            if any(m != "> " and m.startswith(">") for m in markers[:-1]):
                continue
            for w in widths:
                if w == "inf" or w > sum(map(len, markers)):
                    yield [name, list(markers), w]


def nest_cases(names, depths, widths):
    """Containers repeated to a depth"""
    for name in names:
        for depth in depths:
            for pattern in itertools.product(["> ", "* ", "1. ", "- ", "10. "], repeat=2):
                markers = [pattern[i % 2] for i in range(depth)]
                first = B.lines_of(name)[0]
                if any(
                    THEMATIC_BREAK.match("".join(markers[i:]) + first) for i in range(depth)
                ):
                    continue
                if not fits(name, markers[-1]):
                    continue
                for w in widths:
                    if w == "inf" or w > sum(map(len, markers)):
                        yield [name, markers, w]


# --- Lazily continued quotes ------------------------------------------------------------


def lazy_run(case, r):
    """Leaving out quote markers of lines that continue a paragraph changes nothing"""
    words, depth, kept, w = case
    full = [("> " * depth) + line for line in words]
    lazy = full[:1] + ["> " * k + line for k, line in zip(kept, words[1:])]
    kind, inner = call("\n".join(words) + "\n", w if w == "inf" else w - 2 * depth, r)
    expected = "".join("> " * depth + line + "\n" for line in inner.split("\n")[:-1])
    kind, out = call("\n".join(lazy) + "\n", w, r)
    r.validate()
    if lazy != full:
        r.interesting()
    if (kind, out) != ("ok", expected):
        r.violation("lazy", lines=lazy, expected=expected, outcome=[kind, out])


LINE_WORDS = ["aa bb", "c", "`d e` f", "gg, h", "i-j k."]


def lazy_cases(depth, lines, widths):
    for n in range(2, lines + 1):
        for words in itertools.permutations(LINE_WORDS, n):
            for d in range(1, depth + 1):
                for kept in itertools.product(range(d + 1), repeat=n - 1):
                    for w in widths:
                        if w == "inf" or w > 2 * d:
                            yield [list(words), d, list(kept), w]


NESTS = ["> a", ">a", "> > a", "> * a", ">* a", "> * a\n>   * c", "> 1. a\n>    2. b\n>       1. c", "> > 10. a",
         "> - a\n> - b", "> * > a", "> * > * a", "> # h\n> a", "> ```\n> ```\n> a", "> 1. a\n> lazy\n> 2. c"]
INDENTED = ["p", "# f", "* d", "- d", "1. g", "7. g", "> e", "---", "===", "***", "```", "~~~ k", "| a |",
            "[l]: /u", "    x", "#", "*", "\\"]


def indented_run(case, r):
    """Lines without markers that are indented like code continue a paragraph"""
    nest, columns, lines, prefix, w = case
    text = "".join(x + "\n" for x in [nest] + [" " * columns + line for line in lines])
    text = "".join(prefix * bool(i) + x for i, x in enumerate(text.splitlines(True)))
    if prefix:
        text = "* " + text
    kind, out = call(text, w, r)
    r.validate()
    r.interesting()
    if kind != "ok":
        r.violation("refused", text=text, outcome=[kind, out])
    elif rendering_differs(text, out):
        r.violation("indented", text=text, output=out)


def indented_cases(n, columns, widths):
    for nest in NESTS:
        for c in columns:
            for lines in itertools.product(INDENTED, repeat=n):
                for prefix in ("", "  "):
                    for w in widths:
                        yield [nest, c, list(lines), prefix, w]


def spaces(tier):
    widths = [4, 5, 6, 8, 9, 12, 16, 23, 40, 88, "inf"]
    thorough = tier == "thorough"
    leaves = list(B.LEAVES)
    one = B.blocks(1)
    core2 = [f"doc({a},{b})" for a in B.CORE for b in B.CORE]

    def space(name, names, depth, ws):
        return FuncSpace(
            name, lambda: content_cases(names, depth, ws), run,
            f"{len(names)} documents in every combination of {depth} of the containers "
            f"{MARKERS} at the line lengths {ws}; nontrivial: reformatting changes it",
        )

    result = [
        space("leaves", leaves, 1, widths),
        space("narrow", leaves, 1, [1, 2, 3, 7]),
        space("narrow-2", B.CORE, 2, [3, 5, 6, 7]),
        space("leaves-2", leaves, 2, [9, 14, 30, "inf"]),
        space("blocks", one, 1, [9, 21, "inf"]),
        space("documents", core2, 1, [9, 20]),
        FuncSpace(
            "lazy", lambda: lazy_cases(3, 3, [8, 13, "inf"]), lazy_run,
            "quotes of a paragraph of up to 3 lines, up to 3 deep, with every way of "
            "leaving out markers; nontrivial: one is left out",
        ),
    ]
    result += [
        FuncSpace(
            "indented", lambda: indented_cases(1, range(4, 14), [8, 30, "inf"]), indented_run,
            f"{len(NESTS)} nests of quotes and lists followed by each of {INDENTED} without a marker, "
            "indented by 4 to 13 columns",
        ),
        FuncSpace(
            "indented-2", lambda: indented_cases(2, [4, 7, 9], [11]), indented_run,
            "the same with two such lines",
        ),
    ]

    def deep():
        for d, w in itertools.product(range(4, 10), [0, 3, 88, "inf"]):
            for kept in itertools.product(sorted({0, 1, d // 2, d - 1, d}), repeat=2):
                yield [["aa bb", "c", "gg, h"], d, list(kept), w + 2 * d if w in (0, 3) and w + 2 * d else w]

    result.append(
        FuncSpace(
            "lazy-deep", lambda: (c for c in deep() if c[3] == "inf" or c[3] > 2 * c[1]), lazy_run,
            "quotes of three lines up to 9 deep, leaving out markers; nontrivial: one is left out",
        )
    )
    result.append(
        FuncSpace(
            "nests",
            lambda: nest_cases(
                ["para", "code", "link", "hrstars", "fence", "table", "numbers", "atx",
                 "setext2", "bullets", "hard"],
                [3, 4, 5, 6, 9] if not thorough else range(3, 16), [35, 60, "inf"],
            ),
            run,
            "documents in up to 9 containers; nontrivial: reformatting changes it",
        )
    )
    if thorough:
        result += [
            space("leaves-3", leaves, 3, [16, 31]),
            space("blocks-2", one, 2, [12, 33]),
            space("deep", B.blocks(2), 1, [14, 25]),
            FuncSpace(
                "lazy-4", lambda: lazy_cases(4, 4, [10, 20]), lazy_run,
                "as lazy, up to 4 lines and 4 deep",
            ),
        ]
    return result
