"""Output whitespace is normalised"""

import itertools
import re

from .. import blocks as B
from .. import gen, raw, tour
from ..engine import FuncSpace
from ..oracle import call

LEVEL = "model_checking"


def judge(text, w, out, r):
    r.validate()
    if "\r" in out:
        r.violation("line-ends", output=out)
    if not out.endswith("\n") or out[:-1].endswith(("\n", " ", "\t")):
        r.violation("end", output=out)
    hard_breaks = len(re.findall(r"\S[^\r\n]*  +(?:\r\n|\r|\n|\Z)", text))
    for line in out.split("\n")[:-1]:
        stripped = line.rstrip(" \t")
        if stripped == line:
            continue
        if stripped and line == stripped + "  " and hard_breaks:
            hard_breaks -= 1
        else:
            r.violation("trailing-whitespace", line=line, output=out)
            break
    # Quotes may get a blank line in front of the heading behind them, and blank lines at the
    # end may be code
    (before, end), (after, _) = blanks_of(text), blanks_of(out)
    most = before + (end if "```" in text or "~~~" in text else 0) + text.count(">")
    if not before <= after <= most:
        r.violation("blank-lines", before=before, after=after, output=out)


def blanks_of(text):
    """The number of blank lines in front of the last line with content, and behind it"""
    lines = re.split("\r\n|\r|\n", text)
    n, count = 0, 0
    for line in lines[:-1] if not lines[-1] else lines:
        if line.strip(" \t>"):
            n = count
        else:
            count += 1
    return n, count - n


def run(case, r):
    text, w = case
    kind, out = call(text, w, r)
    if kind != "ok":
        return
    if out != text:
        r.interesting()
    judge(text, w, out, r)


# --- Whitespace at the ends of lines ----------------------------------------------------

ENDINGS = [" ", "  ", "   ", "\t", " \t", "\t ", "  \t", "\t  "]
AROUND = ["{}{}\n", "> {}{}\n", "* {}{}\n", "{}{}\n\nw\n", "{}{}\nw\n", "w\n{}{}\n", "> {}{}\n\nw\n",
          "* {}{}\n* w\n", "```\n{}{}\n```\nw\n", "> ~~~\n> {}{}\n", "* ```\n  {}{}\n  ```\n",
          "    {}{}\n    w\n", "{}{}\n==\nw\n", "[l]: /u 't\n{}{}\nu'\nw\n", "| a |\n| - |\n{}{}\nw\n"]


def ending_cases(widths):
    for template, ending, around, w in itertools.product(gen.LINES, ENDINGS, AROUND, widths):
        yield [around.format(template.replace("{}", "a"), ending), w]


# --- Blank lines between blocks ---------------------------------------------------------


def blank_run(case, r):
    names, counts, blank, quoted, w = case
    lines, expected = [], []
    for name, n in zip(names + [None], counts):
        lines += [blank] * n
        expected += [""] * n
        if name:
            kind, out = call(B.text_of(name), w if not quoted or w == "inf" else w - 2)
            if kind != "ok":
                r.violation("refused", name=name, outcome=[kind, out])
                return
            lines += B.lines_of(name)
            expected += out[:-1].split("\n")
    if quoted:
        lines = ["> " + line if line else ">" for line in lines]
        expected = ["> " + line if line else ">" for line in expected]
    else:
        while not expected[-1]:
            del expected[-1]
    text = "\n".join(lines) + "\n"
    wanted = "\n".join(expected) + "\n"
    kind, out = call(text, w, r)
    r.validate()
    if sum(counts) or wanted != text:
        r.interesting()
    if (kind, out) != ("ok", wanted):
        r.violation("blank-lines", text=text, expected=wanted, outcome=[kind, out])


def adjacent_cases(alphabets, widths):
    for names in itertools.chain.from_iterable(itertools.product(*a) for a in alphabets):
        lines = [line for name in names for line in B.lines_of(name)]
        for prefix in ("", "> "):
            for w in widths:
                yield ["".join((prefix + line).rstrip(" " if not line else "") + "\n"
                               for line in lines), w]


def blank_cases(alphabets, counts, blanks, quoted, widths):
    for names in itertools.product(*alphabets):
        for numbers in itertools.product(*counts):
            for blank, q, w in itertools.product(blanks, quoted, widths):
                if blank and not any(numbers):
                    continue
                if q and numbers[-1]:
                    continue
                if q and not numbers[0] and B.lines_of(names[0])[0].startswith(" "):
                    # The quote's first marker would be followed by indented code only
                    continue
                yield [list(names), list(numbers), blank, q, w]


def spaces(tier):
    leaves = list(B.LEAVES)
    one = B.blocks(1)
    some = ["para", "atx", "setext2", "hrstars", "fence", "indented", "def", "table",
            "bullets", "numbers", "quote"]
    what = "; nontrivial: there are blank lines or the text changes"
    changed = "the result differs from the input"
    result = raw.spaces(run, tier, changed) + tour.spaces(run, tier, changed) + [
        FuncSpace(
            "endings", lambda: ending_cases([1, 5, 88, "inf"]), run,
            f"{len(gen.LINES)} kinds of lines with {len(ENDINGS)} kinds of trailing whitespace in "
            f"{len(AROUND)} places; nontrivial: {changed}",
        ),
        FuncSpace(
            "adjacent", lambda: adjacent_cases([[leaves, leaves], [B.CORE] * 3], [9, 88]), run,
            f"every two of {len(leaves)} and three of {len(B.CORE)} blocks without blank lines "
            f"between them, also in a quote; nontrivial: {changed}",
        ),
        FuncSpace(
            "blank-single",
            lambda: blank_cases([one], [range(4), range(3)], ["", "   "], [False], [12]),
            blank_run,
            f"up to 3 blank lines before and 2 after each of {len(one)} blocks{what}",
        ),
        FuncSpace(
            "blank-quoted",
            lambda: blank_cases([leaves], [range(4), [0]], ["", " "], [True], [12, "inf"]),
            blank_run,
            f"the same for {len(leaves)} blocks in a quote{what}",
        ),
        FuncSpace(
            "blank-pairs",
            lambda: blank_cases([leaves, leaves], [[0, 2], [1, 2, 4], [0, 1]],
                                ["", " ", "\t"], [False], [14]),
            blank_run,
            f"every two of {len(leaves)} blocks with blank lines around them{what}",
        ),
        FuncSpace(
            "blank-pairs-quoted",
            lambda: blank_cases([some, some], [[0, 1, 2], [1, 2, 3], [0]],
                                ["", "  "], [True], [20]),
            blank_run,
            f"every two of {len(some)} blocks in a quote{what}",
        ),
    ]
    if tier == "thorough":
        result += [
            FuncSpace(
                "blank-triples",
                lambda: blank_cases([some] * 3, [[0, 1], [1, 2, 3], [1, 2, 3], [0, 2]],
                                    ["", "  "], [False], [14]),
                blank_run,
                f"every three of {len(some)} blocks with blank lines around them{what}",
            ),
            FuncSpace(
                "blank-pairs-more",
                lambda: blank_cases([one, leaves], [[0, 3], [1, 3], [0, 1]],
                                    ["", "   "], [False], [9]),
                blank_run,
                f"{len(one)} blocks followed by {len(leaves)} blocks{what}",
            ),
        ]
    return result
