"""Lists are numbered, marked, indented and nested correctly

A case is a list as a tree and a spelling; the reference lays the tree out.
"""

import functools
import itertools
import math

from ..engine import FuncSpace
from ..oracle import call, fill

LEVEL = "model_checking"
ASSUMPTIONS = [
    "list items are the paragraphs and blocks listed in mc/props/c11.py",
    "items are tight and markers are followed by one space",
]

LAST = 999999999  # Markers have at most nine digits
WORDS = ["alpha be", "c", "gamma, delta epsilon zet eta theta iota", "kap la my"]


@functools.lru_cache(maxsize=None)
def forests(n):
    """Every ordered forest of n nodes as nested tuples"""
    if n == 0:
        return ((),)
    result = []
    for size in range(1, n + 1):
        for children in forests(size - 1):
            for rest in forests(n - size):
                result.append((children,) + rest)
    return tuple(result)


def depth_of(forest):
    return 1 + max(map(depth_of, forest)) if forest else 0


class Spelling:
    """How the items of each depth are written"""

    def __init__(self, kinds, starts, offset, breaks, numbering):
        self.kinds = kinds
        self.starts = starts
        self.offset = offset
        self.breaks = breaks
        self.numbering = numbering

    def marker(self, depth, i):
        kind = self.kinds[depth]
        if kind == "mixed":
            return "*-+"[i % 3]
        if kind != "1.":
            return kind
        start = self.starts[depth]
        if self.numbering == "padded":
            return f"{min(start + i, LAST):09}."
        number = {
            "same": start,
            "rising": min(start + i, LAST),
            "odd": start if not i else (7 * i) % 10,
            "long": start if not i else 1000 + i,
        }[self.numbering]
        return f"{number}."

    def indent(self, depth, i, previous):
        """Relative to the column of the parent's text"""
        if self.offset == "zigzag":
            # A sibling has to be left of the text of the item in front of it
            return min(1 - i % 2, 1)
        if self.offset == "right":
            return min(i, 3, previous) if i else 0
        if self.offset == "left":
            return max(0, 3 - i)
        return self.offset


def text_of(counter):
    return WORDS[counter % len(WORDS)]


def source(forest, spelling, depth, column, counter):
    lines = []
    previous = 3
    for i, children in enumerate(forest):
        marker = spelling.marker(depth, i)
        indent = column + spelling.indent(depth, i, previous)
        text = indent + len(marker) + 1
        previous = text - column - 1
        words = text_of(counter[0]).split(" ")
        counter[0] += 1
        first, *rest = words if spelling.breaks is not None else [" ".join(words)]
        lines.append(" " * indent + marker + " " + first)
        for word in rest:
            continuation = {"lazy": 0, "text": text, "right": text + 2}[spelling.breaks]
            lines.append(" " * continuation + word)
        lines += source(children, spelling, depth + 1, text, counter)
    return lines


def expected(forest, spelling, depth, w, counter):
    lines = []
    kind = spelling.kinds[depth] if forest else None
    for i, children in enumerate(forest):
        if kind == "1.":
            marker = f"{min(spelling.starts[depth] + i, LAST)}. "
        else:
            marker = ("*" if kind == "mixed" else kind) + " "
        words = text_of(counter[0]).split(" ")
        counter[0] += 1
        content = fill([(word, True, False) for word in words], w - len(marker))
        content += expected(children, spelling, depth + 1, w - len(marker), counter)
        lines += [
            (" " * len(marker) if j else marker) + line for j, line in enumerate(content)
        ]
    return lines


def check(text, wanted, w, r):
    kind, out = call(text, w, r)
    r.validate()
    if wanted != text:
        r.interesting()
    if (kind, out) != ("ok", wanted):
        r.violation("list", text=text, expected=wanted, outcome=[kind, out])


def run_tree(case, r):
    n, index, kinds, starts, offset, breaks, numbering, shift, w = case
    forest = forests(n)[index]
    spelling = Spelling(kinds, starts, offset, breaks, numbering)
    text = "\n".join(source(forest, spelling, 0, 0, [shift])) + "\n"
    size = math.inf if w == "inf" else w
    wanted = "\n".join(expected(forest, spelling, 0, size, [shift])) + "\n"
    check(text, wanted, w, r)


def trees(sizes, kinds, starts, offsets, breaks, numberings, shifts, widths, max_depth=9):
    for n in sizes:
        for index, forest in enumerate(forests(n)):
            depth = depth_of(forest)
            if depth > max_depth:
                continue
            for chosen in itertools.product(kinds, repeat=depth):
                ordered = "1." in chosen
                for start in starts if chosen[0] == "1." else [1]:
                    for offset, broken, numbering, shift, w in itertools.product(
                        offsets, breaks, numberings if ordered else ["same"], shifts, widths
                    ):
                        if numbering == "rising" and start == 1 and False:
                            continue
                        yield [
                            n, index, list(chosen), [start] + [1] * (depth - 1),
                            offset, broken, numbering, shift, w,
                        ]


# --- Long lists -----------------------------------------------------------------------


def run_long(case, r):
    start, n, with_child, numbering, shift, w = case
    forest = tuple(((), ()) if i == with_child else () for i in range(n))
    spelling = Spelling(["1.", "*"], [start, 1], 0, None, numbering)
    text = "\n".join(source(forest, spelling, 0, 0, [shift])) + "\n"
    size = math.inf if w == "inf" else w
    wanted = "\n".join(expected(forest, spelling, 0, size, [shift])) + "\n"
    check(text, wanted, w, r)


def long_lists(starts, sizes, widths, numberings=("same", "rising", "odd", "long")):
    for start, n, numbering, shift, w in itertools.product(
        starts, sizes, numberings, [0, 2], widths
    ):
        for with_child in sorted({0, n // 2, n - 1}) + [None]:
            yield [start, n, with_child, numbering, shift, w]


# --- Deeply nested lists --------------------------------------------------------------


def chain(depth, siblings):
    """Items nested in each other, with siblings at some depths"""
    result = ()
    for i in reversed(range(depth)):
        result = (result,) + ((),) * (i in siblings)
    return result


def run_chain(case, r):
    depth, kinds, siblings, start, breaks, shift, w = case
    kinds = [kinds[i % len(kinds)] for i in range(depth)]
    forest = chain(depth, siblings)
    spelling = Spelling(kinds, [start] * depth, 0, breaks, "odd")
    text = "\n".join(source(forest, spelling, 0, 0, [shift])) + "\n"
    size = math.inf if w == "inf" else w
    wanted = "\n".join(expected(forest, spelling, 0, size, [shift])) + "\n"
    check(text, wanted, w, r)


def chains(depths, starts, widths):
    for depth in depths:
        for n in (1, 2):
            for kinds in itertools.product(["*", "-", "+", "1."], repeat=n):
                for siblings in ([], [0], [depth - 1], [depth // 2], list(range(depth))):
                    for start in starts if "1." in kinds else [1]:
                        for breaks, shift, w in itertools.product(
                            [None, "text"], [0, 1], widths
                        ):
                            yield [
                                depth, list(kinds), siblings, start, breaks, shift, w
                            ]


# --- Items of other kinds -------------------------------------------------------------

# name: (source, result given the line length)
ITEMS = {
    "word": (["w"], lambda w: ["w"]),
    "wrapped": (
        ["li ne", "of te xt"],
        lambda w: fill([(x, True, False) for x in "li ne of te xt".split()], w),
    ),
    "empty": ([""], lambda w: [""]),
    "fence": (
        ["```", "* a  b", "1. c", "", "  - d", "```"],
        lambda w: ["```", "* a  b", "1. c", "", "  - d", "```"],
    ),
    "fencesafter": (
        ["w", "~~~", "- x", "~~~", "```", "1. ~~~", "```"],
        lambda w: ["w", "~~~", "- x", "~~~", "```", "1. ~~~", "```"],
    ),
    "quote": (["> q", "> - r"], lambda w: ["> q", "> - r"] if w < 6 else ["> q", "> - r"]),
    "heading": (["# h"], lambda w: ["# h"]),
    "underlined": (["h", "---"], lambda w: ["h", "-"]),
    "table": (["|a|", "|-|"], lambda w: ["| a |", "|---|"]),
    "break": (["___"], lambda w: ["_" * (3 if w == math.inf else max(3, w))]),
    "code": (["`a", "b * c`"], lambda w: ["`a b * c`"]),
    "markers": (
        ["x 1. y - z"],
        lambda w: fill(
            [("x 1.", True, False), ("y -", True, False), ("z", True, False)], w
        ),
    ),
    "dash": (["-x"], lambda w: ["-x"]),
    "number": (["1.5"], lambda w: ["1.5"]),
    "definition": (["[l]: /u"], lambda w: ["[l]: /u"]),
    "unclosed": (["~~~", "* a", "   b"], lambda w: ["~~~", "* a", "   b", "~~~"]),
    "unclosedafter": (["w", "```", "> a"], lambda w: ["w", "```", "> a", "```"]),
    "far": (
        ["li ne", "    | t |", "      # te xt"],
        lambda w: fill([(x, True, False) for x in ["li", "ne |", "t | #", "te", "xt"]], w),
    ),
    "bullets": (["+ a", "+ b"], lambda w: ["+ a", "+ b"]),
    "numbers": (["w", "1. a", "1. b"], lambda w: ["w", "1. a", "2. b"]),
}
# Their last line goes on with the text of the next line if it isn't a list item
OUTER = ["*", "-", "9.", "1."]


def run_items(case, r):
    names, marker, w = case
    size = math.inf if w == "inf" else w
    lines, wanted = [], []
    for i, name in enumerate(names):
        content, layout = ITEMS[name]
        lines += _item(content, marker + " ")
        new = marker if marker in "*-" else f"{int(marker[:-1]) + i}."
        wanted += _item(layout(size - len(new) - 1), new + " ")
    check("\n".join(lines) + "\n", "\n".join(wanted) + "\n", w, r)


def _item(lines, marker):
    return [
        ((" " * len(marker) if i else marker) + line).rstrip() if line or not i else ""
        for i, line in enumerate(lines)
    ]


def items(sizes, widths, names=tuple(ITEMS)):
    for n in sizes:
        for chosen in itertools.product(names, repeat=n):
            if "empty" in chosen[:-1] and False:
                continue
            for marker, w in itertools.product(OUTER, widths):
                yield [list(chosen), marker, w]


# Indentation of an item and the spaces after its marker
SPELLINGS = [(0, 1), (1, 1), (1, 2), (0, 3), (2, 1), (0, 4), (3, 1), (3, 4)]


def run_spelled(case, r):
    """Items with different indentations and gaps after their markers"""
    names, spellings, marker, w = case
    size = math.inf if w == "inf" else w
    lines, wanted = [], []
    for i, (name, (indent, gap)) in enumerate(zip(names, spellings)):
        content, layout = ITEMS[name]
        lines += _item(content, " " * indent + marker + " " * gap)
        new = marker if marker in "*-" else f"{int(marker[:-1]) + i}."
        wanted += _item(layout(size - len(new) - 1), new + " ")
    check("\n".join(lines) + "\n", "\n".join(wanted) + "\n", w, r)


def spelled(names, markers, widths):
    for chosen in itertools.product(names, repeat=2):
        for spellings in itertools.product(SPELLINGS, repeat=2):
            for marker, w in itertools.product(markers, widths):
                if spellings[1][0] > spellings[0][0] + len(marker):
                    # The second one would be in the first one (see "Deviations" in DESIGN.md)
                    continue
                # The indentation of a fence is part of its code (see "Deviations" in DESIGN.md)
                if any((n == "empty" or "```" in ITEMS[n][0] or "~~~" in ITEMS[n][0]) and gap > 1 for n, (_, gap) in zip(chosen, spellings)):
                    continue
                yield [list(chosen), [list(x) for x in spellings], marker, w]


# --- Where a list ends ----------------------------------------------------------------

FOLLOWING = {
    "break": ["***"], "dashes": ["- - -"], "line": ["_____"], "table": ["| b |", "| - |"],
    "blank-break": ["", "***"], "blank-text": ["", "b c"], "blank-heading": ["", "# b"],
    "blank-fence": ["", "```", "x", "```"], "blank-table": ["", "|b|", "|-|", "|c|"],
}
LISTED = {
    "one": [["a b"]], "lines": [["a", "b c"]], "two": [["a"], ["b c d"]],
    "code": [["a", "```", "", "x", "```"]], "break": [["a", "***"]], "table": [["a", "|b|", "|-|"]],
}


def run_end(case, r):
    """Breaks and tables are in the last item if they are indented enough, and else behind"""
    name, following, indent, marker, gap, column, end, w = case
    size = math.inf if w == "inf" else w
    start = " " * indent + marker + " " * gap
    inside = column == len(start)
    lines, wanted = [], []
    for i, content in enumerate(LISTED[name]):
        new = marker if marker in "*-" else f"{int(marker[:-1]) + i}."
        both = list(content)
        here = inside and content is LISTED[name][-1]
        if here:
            both += FOLLOWING[following]
        lines += _item(content, start)
        kind, out = call("\n".join(both) + "\n", size - len(new) - 1 if w != "inf" else w)
        wanted += _item(out[:-1].split("\n"), new + " ")
    lines += [(" " * column + x) if x else "" for x in FOLLOWING[following]] + end
    rest = end if inside else FOLLOWING[following] + end
    if rest:
        # Blank lines at the start are kept
        kind, out = call("\n".join(rest) + "\n", w)
        wanted += out[:-1].split("\n")
    check("\n".join(lines) + "\n", "\n".join(wanted) + "\n", w, r)


def ends(widths):
    for name, following, indent, marker, gap, column in itertools.product(
        LISTED, FOLLOWING, range(4), ["*", "-", "1.", "10."], range(1, 5), range(8)
    ):
        inside = indent + len(marker) + gap
        fenced = "```" in FOLLOWING[following] or name == "code"
        if column > 3 and column != inside or column > inside or fenced and (gap > 1 or column):
            continue
        blank = not FOLLOWING[following][0]
        if column == inside and (blank or indent or gap > 1) or gap == 4 and column > 3:
            continue
        for end in ([], ["", "z"]):
            for w in widths:
                yield [name, following, indent, marker, gap, column, end, w]


def spaces(tier):
    thorough = tier == "thorough"
    result = [
        FuncSpace(
            "trees",
            lambda: trees(
                [1, 2, 3, 4], ["*", "-", "1.", "mixed"], [1, 9, 0], [0, 1, "zigzag"],
                [None, "lazy"], ["same", "odd"], [0], [14, "inf"], max_depth=3,
            ),
            run_tree,
            "every list of 1-4 items nested up to 3 levels: every marker of every level, "
            "several first numbers, indentations, ways to break lines, numberings",
        ),
        FuncSpace(
            "deep-trees",
            lambda: trees(
                [5, 6], ["*", "1."], [8], [0, 2, "right"], ["text"], ["odd"],
                [1], [12], max_depth=6,
            ),
            run_tree,
            "every list of 5-6 items nested up to 6 levels",
        ),
        FuncSpace(
            "indents",
            lambda: trees(
                [2, 3], ["+", "1."], [1, 99], [0, 1, 2, 3, "zigzag", "right", "left"],
                [None, "lazy", "text", "right"], ["same", "rising", "odd", "long"],
                [0, 1, 2, 3], [1, 8, 20],
            ),
            run_tree,
            "every list of 2-3 items: every indentation, way to break lines and numbering",
        ),
        FuncSpace(
            "long",
            lambda: long_lists(
                [0, 1, 5, 8, 9, 10, 95, 99, 998, 99999], [1, 2, 3, 9, 11], [9, 16, "inf"]
            ),
            run_long,
            "long ordered lists across changes in the number of digits, one item with a "
            "nested list",
        ),
        FuncSpace(
            "items",
            lambda: items([1, 2], [6, 7, 12, "inf"]),
            run_items,
            f"every sequence of up to 2 of {len(ITEMS)} kinds of items",
        ),
        FuncSpace(
            "items-spelled", lambda: spelled(list(ITEMS), ["*", "9."], [11]), run_spelled,
            f"every two of {len(ITEMS)} kinds of items with {len(SPELLINGS)} indentations and "
            "distances to the marker",
        ),
        FuncSpace(
            "ends", lambda: ends([9, 14, "inf"]), run_end,
            f"each of {list(LISTED)} in items indented and spelled in 64 ways followed by each of "
            f"{list(FOLLOWING)} at every column up to that of the item's text",
        ),
        FuncSpace(
            "items-3", lambda: items([3], [10]), run_items,
            f"every sequence of 3 of {len(ITEMS)} kinds of items",
        ),
    ]
    result += [
        FuncSpace(
            "hundreds",
            lambda: long_lists([1, 7, 995], [29, 104], [9, 40]), run_long,
            "lists of up to 104 items",
        ),
        FuncSpace(
            "digits",
            lambda: long_lists(
                [x for n in range(1, 10) for x in (10 ** (n - 1), 10 ** n - 2, 10 ** n - 1)],
                [1, 2, 3], [15, 40], ["same", "rising", "padded"],
            ),
            run_long,
            "lists whose numbers have up to nine digits, or would have more",
        ),
        FuncSpace(
            "chains",
            lambda: chains([5, 8, 11] if not thorough else range(5, 15), [1, 9, 100], [10, 60]), run_chain,
            "lists nested up to 11 levels, with siblings at each of them",
        ),
    ]
    if thorough:
        result += [
            FuncSpace(
                "trees-5",
                lambda: trees(
                    [5], ["*", "-", "1."], [1, 99], [0, "zigzag", "right"],
                    [None, "lazy"], ["same", "odd"], [0], [14], max_depth=4,
                ),
                run_tree,
                "every list of 5 items nested up to 4 levels",
            ),
            FuncSpace(
                "trees-7",
                lambda: trees(
                    [7], ["*", "1."], [1], [0, 1], ["text"], ["odd"], [0], [16], max_depth=5
                ),
                run_tree,
                "every list of 7 items nested up to 5 levels",
            ),
            FuncSpace(
                "long-more",
                lambda: long_lists([0, 1, 90, 95, 990], [12, 25, 101, 120], [11, 20]),
                run_long,
                "longer ordered lists",
            ),
            FuncSpace(
                "items-4",
                lambda: items([4], [8], list(ITEMS)[:12]),
                run_items,
                "every sequence of 4 of 12 kinds of items",
            ),
        ]
    for s in result:
        s.rule += "; nontrivial: reformatting changes the text"
    return result
