"""Tables keep every cell and are aligned

A case is a table as cells, alignments and a spelling.  The result is taken apart by its
column borders and compared with the cells.
"""

import itertools
import re

from ..containers import CONTAINERS, expect, put
from ..engine import FuncSpace
from ..oracle import call

LEVEL = "model_checking"
ASSUMPTIONS = ["cells are taken from the texts listed in mc/props/c10.py"]

CELLS = ["", "a", "bc", "long er text", "\\|", "x\\|y", "`c`", "*e*", "é中", "- b", ":-:", "[l](/u)",
         "`a  b`", "c   d e"]
FEW = ["", "a", "b c\\|d"]
ALIGNMENTS = ["none", "left", "right", "center"]
DASHES = {"none": ("", ""), "left": (":", ""), "right": ("", ":"), "center": (":", ":")}
# name: (padding before, padding after, indentation, closing border, dashes)
SPELLINGS = {
    "usual": (" ", " ", "", True, 3),
    "tight": ("", "", "", True, 1),
    "open": (" ", "", "", False, 2),
    "wide": ("   ", "  ", "  ", True, 5),
    "ragged": ("", "    ", "   ", True, 20),
}
# The layout of a border or a cell is not broken by any of these
DELIMITER = {
    "none": r"-+",
    "left": r":-+",
    "right": r"-+:",
    "center": r":-+:",
}


def spell(rows, alignments, spelling):
    before, after, indent, closed, dashes = SPELLINGS[spelling]
    delimiters = [DASHES[a][0] + "-" * dashes + DASHES[a][1] for a in alignments]

    def line(cells):
        result = "|".join([""] + [before + cell + after for cell in cells])
        # Without it an empty last cell would not be one
        if closed or not cells[-1]:
            result += "|"
        return indent + result

    return [line(row) for row in [rows[0], delimiters] + rows[1:]]


def cells_of(line):
    """The raw cells between the unescaped borders"""
    cells, escaped = [""], False
    for c in line:
        if c == "|" and not escaped:
            cells.append("")
        else:
            cells[-1] += c
        escaped = c == "\\" and not escaped
    assert cells[0] == "" and cells[-1] == "", line
    return cells[1:-1]


def problem(lines, rows, alignments):
    """What is wrong with the result, if anything"""
    if len(lines) != len(rows) + 1:
        return "number of lines"
    if len({len(line) for line in lines}) != 1:
        return "lines of different lengths"
    if any(not line.startswith("|") or not line.endswith("|") for line in lines):
        return "borders"
    table = [cells_of(line) for line in lines]
    if any(len(row) != len(alignments) for row in table):
        return "number of columns"
    if len({tuple(map(len, row)) for row in table}) != 1:
        return "columns of different widths"
    for delimiter, alignment in zip(table[1], alignments):
        if not re.fullmatch(DELIMITER[alignment], delimiter):
            return "delimiter"
    for column, alignment in zip(zip(table[0], *table[2:]), alignments):
        if any(cell.strip(" ") for cell in column):
            if all(cell != f" {cell.strip(' ')} " for cell in column) and (
                alignment != "center" or len(column[0]) > 3
            ):
                return "wider than needed"
        elif len(column[0]) > (3 if alignment == "center" else 2):
            return "wider than needed"
    for i, (row, wanted) in enumerate(zip([table[0]] + table[2:], rows)):
        for cell, text, alignment in zip(row, wanted, alignments):
            if cell.strip(" ") != text:
                return "cell text"
            if not cell.startswith(" ") or not cell.endswith(" "):
                return "padding"
            if not text:
                continue
            left = len(cell) - len(cell.lstrip(" "))
            right = len(cell) - len(cell.rstrip(" "))
            if alignment == "none":
                alignment = "left" if i else "center"
            if (
                alignment == "left" and left != 1
                or alignment == "right" and right != 1
                or alignment == "center" and abs(left - right) > 1
            ):
                return "alignment"
    return None


def run(case, r):
    rows, alignments, spelling, container, following, w = case
    after = {"end": [], "paragraph": ["", "pq"], "directly": ["pq"]}[following]
    table = spell(rows, alignments, spelling)
    text = "\n".join(put(table + after, container)) + "\n"
    kind, out = call(text, w, r)
    r.validate()
    if out != text:
        r.interesting()
    if kind != "ok":
        r.violation("refused", text=text, outcome=[kind, out])
        return
    lines = out.split("\n")[:-1]
    _, _, first, rest, _ = CONTAINERS[container]
    stripped = []
    for i, line in enumerate(lines):
        prefix = rest if i else first
        if not line.startswith(prefix.rstrip() if line == prefix.rstrip() else prefix):
            r.violation("container", text=text, output=out)
            return
        stripped.append(line[len(prefix):])
    if after:
        # At this width nothing may be moved between lines
        if stripped[-len(after):] != after:
            r.violation("following", text=text, output=out)
            return
        stripped = stripped[: -len(after)]
    what = problem(stripped, rows, alignments)
    if what:
        r.violation("table", what=what, text=text, output=out)


def tables(cells, columns, rows, spellings, containers, followings, widths, alignments=ALIGNMENTS):
    for n, m in itertools.product(columns, rows):
        for flat in itertools.product(cells, repeat=n * m):
            table = [list(flat[i * n : i * n + n]) for i in range(m)]
            for aligned in itertools.product(alignments, repeat=n):
                for spelling, container, following, w in itertools.product(
                    spellings, containers, followings, widths
                ):
                    if n == 1 and spelling == "tight" and "" in flat:
                        # "||" could be read in several ways
                        continue
                    if SPELLINGS[spelling][2] and container.endswith("quote"):
                        # The space after the quote marker may be dropped there
                        continue
                    yield [table, list(aligned), spelling, container, following, w]


def run_large(case, r):
    columns, rows, a, b, c, spelling, container, w = case
    table = [
        [(LONG if (i + j) % 7 == 3 else CELLS)[(a * i + b * j + c) % len(CELLS)] for j in range(columns)]
        for i in range(rows + 1)
    ]
    alignments = [ALIGNMENTS[(j * b + a) % 4] for j in range(columns)]
    run([table, alignments, spelling, container, "end", w], r)


LONG = [cell * 11 if cell != "a" else "a " * 60 + "b" for cell in CELLS]
LONG[CELLS.index("")] = "x" * 130


def large(columns, rows, spellings, containers, widths):
    for n, m, a, b, c, spelling, container, w in itertools.product(
        columns, rows, range(3), range(1, 4), range(0, 12, 3), spellings, containers, widths
    ):
        yield [n, m, a, b, c, spelling, container, w]


CHARACTERS = [chr(i) for i in range(33, 127)] + list("\xad\xdf\u0301\u200b\u4e2d\ufeff\U0001f600")


def characters():
    texts = [
        text for c in CHARACTERS if c not in "|\\" for text in (c, c + "x", "x" + c, c * 3, c + " x")
    ]
    # Readers differ on whether a border after two backslashes is one
    texts += ["\\" + c + x for c in CHARACTERS for x in ("", "x") if c != "\\" or x]
    for text, alignment, spelling, container in itertools.product(
        texts, ALIGNMENTS, SPELLINGS, ["top", "item", "quote"]
    ):
        if SPELLINGS[spelling][2] and container == "quote":
            continue
        for rows in ([[text], ["y z"]], [["y z"], [text]], [["a", text], [text, ""], ["b", "c"]]):
            yield [rows, [alignment] * len(rows[0]), spelling, container, "end", 5]


# --- Malformed tables -----------------------------------------------------------------

BEFORE = {
    "nothing": [],
    "paragraph": ["a", "b", ""],
    "blank": ["", ""],
    "sections": ["# h", "", "* a", "* b", "", "> q", "", "```", "x", "```", ""],
    "table": ["| a |", "| - |", "| b |", ""],
    "heading": ["h", "==="],
}
BAD_DELIMITERS = [
    "| a | b |", "|  | - |", "| - |  |", "| : | - |", "| :: | - |", "| - - | - |",
    "| -:- | - |", "| = | - |", "| - | -x |", "|", "| --- | \\- |", "| - : | - |",
]


def run_malformed(case, r):
    before, columns, kind_of_fault, detail, rows, following, w = case
    header = "| " + " | ".join("hi"[:2] for _ in range(columns)) + " |"
    delimiter = "| " + " | ".join("---" for _ in range(columns)) + " |"
    row = "| " + " | ".join("x" for _ in range(columns)) + " |"
    table = [header, delimiter] + [row] * rows
    if kind_of_fault == "columns":
        index, difference = detail
        line = table[index]
        cell = "---" if index == 1 else "y"
        if difference > 0:
            line = line + f" {cell} |" * difference
        else:
            line = "| " + " | ".join([cell] * (columns + difference)) + " |"
        table[index] = line
        # A wrong header makes every other row wrong
        offending = index if index else 1
    elif kind_of_fault == "delimiter":
        table[1] = detail
        offending = 1
    elif kind_of_fault == "missing":
        table = [header] + [row] * rows
        offending = min(1, rows)
    lines = BEFORE[before] + table + {"end": [], "paragraph": ["", "p"]}[following]
    text = "\n".join(lines) + "\n"
    kind, out = call(text, w, r)
    r.validate()
    r.interesting()
    number = len(BEFORE[before]) + offending + 1
    found = re.findall(r"\bLine (\d+)\b", out, re.IGNORECASE)
    if kind != "refused-format" or found != [str(number)]:
        r.violation("malformed", text=text, line=number, outcome=[kind, out])


def malformed(columns, rows, widths):
    for before, n, m, following, w in itertools.product(
        BEFORE, columns, rows, ["end", "paragraph"], widths
    ):
        for index in range(m + 2):
            for difference in (-2, -1, 1, 2):
                if n + difference > 0 and (index or m or True):
                    yield [before, n, "columns", [index, difference], m, following, w]
        yield [before, n, "missing", None, m, following, w]
        if n == 2:
            for delimiter in BAD_DELIMITERS:
                yield [before, n, "delimiter", delimiter, m, following, w]


def spaces(tier):
    thorough = tier == "thorough"
    spellings = list(SPELLINGS)
    containers = [c for c in CONTAINERS]
    followings = ["end", "paragraph"]

    def space(name, *args, **kwargs):
        return FuncSpace(
            name, lambda: tables(*args, **kwargs), run,
            f"every table: cells, columns, rows, spellings, containers, following, line "
            f"lengths from {args}; nontrivial: reformatting changes the text",
        )

    result = [
        space("1-column", CELLS, [1], [1, 2, 3], spellings, ["top"], followings, [1, 40]),
        space("2-columns", CELLS, [2], [1], spellings, ["top", "quote"], ["end", "directly"], [1, "inf"]),
        space("2-columns-2-rows", CELLS[:6], [2], [2], spellings, ["top"], ["end"], [30]),
        space("2-columns-3-rows", FEW, [2], [3], ["usual", "open"], ["top"], ["end"], [5]),
        space("3-columns", FEW, [3], [2], ["tight", "open"], ["top"], ["end"], [88], ["left", "none", "center"]),
        space("4-columns", CELLS[1:3] + [""], [4], [1], ["tight"], ["top"], ["end"], [88]),
        space("containers", CELLS[:5], [1, 2], [1], ["usual", "wide"],
              [c for c in containers if c != "top"], ["end"], [1, 40]),
        FuncSpace(
            "malformed", lambda: malformed([1, 2, 3, 4], [0, 1, 2, 3], [1, 88]), run_malformed,
            "every position of a row with a wrong number of cells, every malformed or "
            "missing delimiter row, after every kind of text",
        ),
    ]
    result.append(
        FuncSpace(
            "large",
            lambda: large(
                [1, 2, 5, 9, 12, 27], [1, 4, 11, 30], ["usual", "open", "wide"],
                ["top", "item"], [40],
            ),
            run_large,
            "tables of up to 27 columns and 30 rows, with long cells",
        )
    )
    result.append(
        FuncSpace(
            "larger",
            lambda: (
                case for columns, rows in ((1, 1030), (2, 260), (130, 1), (260, 2))
                for case in large([columns], [rows], ["usual", "open"], ["top"], [40])
            ),
            run_large,
            "tables of up to 260 columns, or 1030 rows",
        )
    )
    result.append(
        FuncSpace(
            "characters", characters, run,
            f"each of {len(CHARACTERS)} characters at the ends of cells, and behind a backslash",
        )
    )
    if thorough:
        result += [
            space("2-columns-2-rows-more", CELLS, [2], [2], ["usual", "open"], ["top"], ["end"], [30]),
            space("3-columns-more", CELLS[:7], [3], [1], spellings, ["top"], ["end"], [1]),
            space("3-columns-3-rows", FEW, [3], [3], ["open"], ["top"], ["end"], [88], ["none", "center"]),
            space("5-columns", FEW, [5], [1], ["usual"], ["top"], ["end"], [88], ["left", "none", "center"]),
        ]
    return result
