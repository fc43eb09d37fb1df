"""Diagnostics point at the right line

The lines of each top-level section are counted when the text is put together.
"""

import itertools
import logging
import re

from ..engine import FuncSpace
from ..logs import enabled
from ..oracle import call

LEVEL = "model_checking"
ASSUMPTIONS = ["texts are put together from the sections listed in mc/props/c24.py"]

# name: (lines, line a warning is about)
SECTIONS = {
    "line": (["w"], None),
    "paragraph": (["Lorem ipsum dolor sit amet", "consectetur", "adipiscing elit sed do"], None),
    "atx": (["# h"], None),
    "tightatx": (["#h"], 0),
    "setext": (["a heading of", "two lines", "==="], None),
    "quote": (["> a", "> # b", "> | t |", "> |---|"], None),
    "lazy": (["> a", "b"], None),
    "bullets": (["* a", "* b", "  c d e f g h i j", "  * d"], None),
    "numbers": (["9. a", "9. b"], None),
    "fence": (["```", "#a", "", "| b", "```"], None),
    "overfence": (["~~~", "a", "     ~~~"], 2),
    "indentedfence": (["  ~~~ k", "  a", "  ~~~"], None),
    "indentedoverfence": (["  ~~~", "a", "      ~~~"], 2),
    "code": (["    a", "    | b"], None),
    "definition": (["[l]: /u 'a title that is too long'"], None),
    "definitions": (["[l]:", "/u", "'a", "b'"], None),
    "nodestination": (["[l]:"], 0),
    "table": (["|a|b|", "|-|-|", "|c|d|"], None),
    "break": (["* * *"], None),
}
# Always need a blank line in front of them or behind them
BAD_TABLES = {
    "columns": (["| a | b |", "|---|---|", "| c | d |", "| e |"], 3),
    "many": (["| a |", "|---|", "| c | d |", "| e |"], 2),
    "delimiter": (["| a | b |", "| c | d |", "| e | f |"], 1),
    "delimiters": (["| a | b |", "|---|"], 1),
    "short": (["| a |"], 0),
    "far": (["| a |", "|---|"] + ["| c |"] * 9 + ["| e | f |"], 11),
    "farther": (["| a |", "|---|"] + ["| c |"] * 70 + ["| e | f |", "| c |", "| g | h |"], 72),
    "empty-cells": (["| a |", "|---|", "| |", "||", "|||"], 4),
}
TIGHT_BEFORE = {"atx", "tightatx", "fence", "overfence", "indentedfence", "indentedoverfence", "break", "setext", "definition", "table", "code"}
TIGHT_AFTER = {"atx", "tightatx", "fence", "overfence", "indentedfence", "indentedoverfence", "break", "quote", "bullets", "numbers", "table"}


def joins(a, b):
    """In how many ways may the section follow the other?"""
    result = [1, 2]
    if a in TIGHT_BEFORE and b in TIGHT_AFTER:
        if not (a == "table" and b == "table") and a != "definition" and a != "definitions":
            result.append(0)
    return result


def build(names, blanks):
    lines, ranges, warnings = [], [], []
    for name, before in zip(names, (0,) + tuple(blanks)):
        for _ in range(before):
            ranges.append((len(lines) + 1, len(lines) + 1))
            lines.append("")
        content, warning = SECTIONS[name]
        if warning is not None:
            warnings.append(len(lines) + warning + 1)
        ranges.append((len(lines) + 1, len(lines) + len(content)))
        lines += content
    return lines, ranges, warnings


RANGE = re.compile(r"\ALines? (\d+)(?:-(\d+))?:")
NUMBER = re.compile(r"\b[Ll]ines? (\d+)(?:-(\d+))?")


def informational(records):
    result = []
    for level, name, message in records:
        if level == logging.INFO and name.startswith("markflow"):
            match = RANGE.match(message)
            if not match:
                return f"no range in {message}"
            a, b = match.groups()
            result.append((int(a), int(b or a)))
    return result


def warned(records):
    result = []
    for level, name, message in records:
        if level >= logging.WARNING and name.startswith("markflow"):
            numbers = NUMBER.findall(message)
            result += [(int(a), int(b or a)) for a, b in numbers] or [message]
    return result


def run(case, r):
    names, blanks, bad, end, w = case
    lines, ranges, warnings = build(names, blanks)
    line = None
    if bad:
        lines.append("")
        ranges.append((len(lines), len(lines)))
        content, index = BAD_TABLES[bad]
        line = len(lines) + index + 1
        ranges.append((len(lines) + 1, len(lines) + len(content)))
        lines += content + ["", "after"]
        ranges += [(len(lines) - 1, len(lines) - 1), (len(lines), len(lines))]
    text = end.join(lines) + end
    with enabled() as capture:
        kind, out = call(text, w, r)
        records = capture.take()
    r.validate()
    r.interesting()
    if bad:
        found = NUMBER.findall(out)
        if kind != "refused-format" or found != [(str(line), "")]:
            r.violation("error-line", text=text, line=line, outcome=[kind, out])
            return
    elif kind != "ok":
        r.violation("refused", text=text, outcome=[kind, out])
        return
    got = informational(records)
    if got != ranges:
        r.violation("information", text=text, expected=ranges, messages=got)
    by_line = [x for x in warned(records)]
    if bad:
        # The rest of the text may not have been looked at
        by_line = [x for x in by_line if x[0] not in warnings]
        wanted = []
    else:
        wanted = [(n, n) for n in warnings]
    if sorted(by_line) != wanted:
        r.violation("warnings", text=text, expected=wanted, warnings=by_line)


def cases_of(n, names, blanks, bads, ends, widths):
    for chosen in itertools.product(names, repeat=n):
        options = [
            [b for b in joins(x, y) if b in blanks] for x, y in zip(chosen, chosen[1:])
        ]
        # Chunks of indented code are one section
        if any(
            x in ("bullets", "numbers", "code") and y == "code" for x, y in zip(chosen, chosen[1:])
        ):
            continue
        for gaps in itertools.product(*options):
            for bad, end, w in itertools.product(bads, ends, widths):
                yield [list(chosen), list(gaps), bad, end, w]


# --- A heading after a block quote ---------------------------------------------------


def run_quote(case, r):
    names, blanks, content, w = case
    lines, ranges, warnings = build(names, blanks)
    lines.append("")
    ranges.append((len(lines), len(lines)))
    lines.append("> # q")
    ranges.append((len(lines), len(lines)))
    start = len(lines) + 1
    lines += content
    ranges.append((start, len(lines)))
    lines += ["", "w"]
    ranges += [(len(lines) - 1,) * 2, (len(lines),) * 2]
    text = "\n".join(lines) + "\n"
    with enabled() as capture:
        kind, out = call(text, w, r)
        records = capture.take()
    r.validate()
    r.interesting()
    if kind != "ok":
        r.violation("refused", text=text, outcome=[kind, out])
    got = informational(records)
    if got != ranges:
        r.violation("information", text=text, expected=ranges, messages=got)
    wanted = sorted([(n, n) for n in warnings] + [(start, start)])
    if sorted(warned(records)) != wanted:
        r.violation("warnings", text=text, expected=wanted, warnings=warned(records))


def quotes():
    for names in itertools.product(SECTIONS, repeat=2):
        if names == ("code", "code"):
            continue
        for gap in (1, 2):
            for content in (["h", "==="], ["a heading", "of two", "---"]):
                yield [list(names), [gap], content, 9]


def spaces(tier):
    names = list(SECTIONS)
    thorough = tier == "thorough"
    bads = [None] + list(BAD_TABLES)

    def space(name, *args):
        return FuncSpace(
            name, lambda: cases_of(*args), run,
            f"every sequence of {args[0]} of {len(args[1])} sections, {args[2]} blank lines "
            f"between them, followed by {args[3]}, line ends {args[4]}, at {args[5]}",
        )

    few = ["line", "paragraph", "tightatx", "indentedoverfence", "nodestination", "table", "bullets", "fence"]
    result = [
        space("1", 1, names, [0, 1, 2], bads, ["\n", "\r\n", "\r"], [1, 5, 20, "inf"]),
        space("2", 2, names, [0, 1, 2], bads, ["\n", "\r\n"], [6, 88]),
        space("3", 3, names, [0, 1], [None, "columns"], ["\n"], [12]),
        space("4", 4, few, [0, 1, 2] if thorough else [0, 2], [None], ["\n"], [8]),
        FuncSpace("quotes", quotes, run_quote, "a heading directly after a block quote"),
    ]
    def repeated():
        for n, times in ((1, 4), (1, 12), (1, 130), (2, 7), (2, 60)):
            for chosen in itertools.product(names if n == 1 else few, repeat=n):
                if "code" in chosen:
                    continue
                for gap in (1, 2):
                    for bad in bads if times < 100 else [None, "columns"]:
                        yield [list(chosen) * times, [gap] * (n * times - 1), bad, "\n", 11]

    result.append(
        FuncSpace("repeated", repeated, run, "sections again and again, up to 130 times")
    )
    if thorough:
        result += [
            space("3-more", 3, names, [0, 1, 2], bads, ["\n"], [5, "inf"]),
            space("5", 5, few, [0, 1], [None, "delimiter"], ["\n"], [8]),
        ]
    return result
