"""Tabs that indent mean the columns they stand for"""

import itertools

from ..engine import FuncSpace
from ..oracle import call

LEVEL = "model_checking"
ASSUMPTIONS = [
    "tabs between the markers of containers that are nested in one line are not explored",
]

WHITESPACE = ["", " ", "    ", "\t", " \t", "  \t", "   \t", "\t ", "\t\t", "\t   ", "\t\t "]
FEW = ["", "\t", " \t", "\t\t"]
BODIES = ["a", "b c", "* d", "> e", "# f", "---", "===", "```", "1. g", "[h]: /i", "'j'", "```k` l"]
FEW_BODIES = ["a", "* d", "> e", "# f", "```", "1. g", "---"]
MARKERS = ["", ">", "> ", "* ", "1. "]
CONTEXT = ["", "m", "* n", "10. o", "> p", "```", "~~~ q", "* ```", "> ```", "> * r", "    s", "* t\n  * u"]
# Far to the right
NESTS = ["* a\n  * b\n    * c", "1. a\n   1. b\n      1. c\n         1. d", "10. a\n    * b\n      20. c",
         "> * a\n>   * b", "> 1. a\n>    > * b", "* a\n  > * b\n  >   * c", "100000. a"]
FENCED_NESTS = ["* a\n  ```{}\n  ```", "> * a\n>   ~~~{}\n>   ~~~", "* a\n  * b\n    * c\n      ```{}\n      ```",
                "> * a\n>   * b\n>     ```{}\n>     ```", "10. a\n    ~~~~{}\n    ~~~~"]
FAR = ["\t\t\t", " \t\t \t", "\t  \t\t", "   \t   \t", "     \t", "       \t", "        \t", "         \t",
       "           \t", "\t\t   ", "\t\t\t ", "  \t \t \t", "\t\t", " \t", "    \t"]
FAR_AFTER = ["", "v", "\tw", "\t\t\tx", "        \ty", "      ```", ">\t\tz"]
AFTER = ["", "v", "  w", "    x", "\ty", "\t\tz", "> v", "* v", "\t* v", ">\tv", "```", "\t```"]


def expanded(text):
    return "\n".join(line.expandtabs(4) for line in text.split("\n"))


def same(tabs, spaces):
    """Is it the same apart from the columns at which the tabs of code are?"""
    tabs, spaces = tabs.split("\n"), spaces.split("\n")
    return len(tabs) == len(spaces) and all(
        expanded(t) == expanded(s) or "\t" in t and t.split() == s.split()
        for t, s in zip(tabs, spaces)
    )


def run(case, r):
    text, w = case
    if "\t" not in text:
        return
    tabs, spaces = call(text, w, r), call(expanded(text), w, r)
    r.validate()
    if tabs[0] != spaces[0] or not same(tabs[1], spaces[1]):
        r.violation("differs", tabs=text, spaces=expanded(text), got=tabs, expected=spaces)
    if tabs[0] == "ok":
        r.interesting()


def lines_of(markers, whitespace, bodies):
    for marker, space, body in itertools.product(markers, whitespace, bodies):
        yield marker + space + body


def cases(before, lines, after, widths):
    for b, line, a in itertools.product(before, lines, after):
        text = "".join(x + "\n" for x in (b, line, a) if x)
        for w in widths:
            yield [text, w]


def fenced_cases(lines, widths):
    for nest in FENCED_NESTS:
        for line in lines:
            prefix = ">" if nest.startswith(">") else ""
            for after in ("", "v", "\tw", "   \t \tx"):
                text = nest.replace("{}", f"\n{prefix}{line}") + "\n" + (after and prefix + after + "\n")
                for w in widths:
                    yield [text, w]


def sequences(lines, n, widths):
    for combination in itertools.product(lines, repeat=n):
        for w in widths:
            yield ["\n".join(combination) + "\n", w]


def spaces(tier):
    every = list(lines_of(MARKERS, WHITESPACE, BODIES))
    few = list(lines_of(["", "> "], FEW, FEW_BODIES)) + [""]
    fewer = list(lines_of([""], ["", "\t", " \t"], ["a", "* d", "> e", "```", "1. g"])) + ["", ">\ta"]
    what = "nontrivial: the text has tabs and is not refused"
    result = [
        FuncSpace(
            "lines", lambda: cases(CONTEXT, every, AFTER, [5, 88]), run,
            f"{len(every)} lines indented with blanks and tabs after {len(CONTEXT)} and before "
            f"{len(AFTER)} other lines; {what}",
        ),
        FuncSpace(
            "far", lambda: cases(NESTS, list(lines_of(["", "> ", ">"], FAR, BODIES)), FAR_AFTER,
                                 [9, 88]), run,
            f"{len(FAR)} indentations up to column 16 in {len(NESTS)} nests of lists and quotes; {what}",
        ),
        FuncSpace(
            "far-fenced", lambda: fenced_cases(list(lines_of([""], FAR, BODIES)), [9, 88]), run,
            f"the same in fenced code in {len(FENCED_NESTS)} nests; {what}",
        ),
        FuncSpace(
            "pairs", lambda: sequences(few, 2, [1, 7, 88]), run,
            f"every two of {len(few)} indented lines; {what}",
        ),
        FuncSpace(
            "quadruples", lambda: sequences(fewer, 4, [12]), run,
            f"every four of {len(fewer)} indented lines; {what}",
        ),
    ]
    if tier == "thorough":
        result += [
            FuncSpace(
                "triples", lambda: sequences(few, 3, [4, 30]), run,
                f"every three of {len(few)} indented lines; {what}",
            ),
        ]
    return result
