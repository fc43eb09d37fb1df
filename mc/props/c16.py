"""Blocks separated by a blank line are formatted independently"""

from .. import blocks as B
from .. import blockspaces as S
from ..engine import FuncSpace
from ..oracle import call

LEVEL = "model_checking"
ASSUMPTIONS = ["documents are built from the blocks of mc/blocks.py"]


def run(case, r):
    names, blanks, w = case
    parts = []
    for name in names:
        kind, out = call(B.text_of(name), w, r)
        if kind != "ok":
            r.violation("refused", name=name, outcome=[kind, out])
            return
        parts.append(out)
    text = ("\n" * blanks).join(B.text_of(name) for name in names)
    expected = ("\n" * blanks).join(parts)
    kind, out = call(text, w, r)
    r.validate()
    if expected != text:
        r.interesting()
    if (kind, out) != ("ok", expected):
        r.violation("dependent", text=text, expected=expected, outcome=[kind, out])


def space(name, alphabets, blanks, widths):
    s = S.sequences(name, run, alphabets, widths, blanks, what="reformatting changes it")
    import itertools

    def cases():
        for names in itertools.product(*alphabets):
            for b in blanks:
                for w in widths:
                    yield [list(names), b, w]

    return FuncSpace(name, cases, run, s.rule)


def repeated(name, alphabet, size, times, widths):
    import itertools

    def cases():
        for names in itertools.product(alphabet, repeat=size):
            for n in times:
                for w in widths:
                    yield [list(names) * n, 1, w]

    return FuncSpace(
        name, cases, run,
        f"every sequence of {size} of {len(alphabet)} blocks {times} times in a row at the "
        f"line lengths {widths}; nontrivial: reformatting changes it",
    )


def spaces(tier):
    leaves = list(B.LEAVES)
    one = B.blocks(1)
    two = B.blocks(2)
    result = [
        space("pairs", [leaves, leaves], [1, 2, 3], [1, 5, 14, 30, "inf"]),
        space("block-leaf", [one, leaves], [1], [11]),
        space("leaf-block", [leaves, one], [1], [11]),
        space("triples", [B.CORE] * 3, [1], [7, "inf"]),
        space("dashes", [["para", "hrdashes", "hrstars", "def", "setext2", "indented"]] * 4, [1], [9]),
        space("dashes-5", [["para", "hrdashes", "def"]] * 5, [1], [20]),
        space("deep-core", [two, ["para", "table", "indented", "def", "quote"]], [1], [15]),
        repeated("repeated", leaves, 1, [5, 11, 40], [6, 18, "inf"]),
        repeated("repeated-2", leaves, 2, [6], [16]),
    ]
    if tier == "thorough":
        result += [
            space("blocks-pairs", [one, one], [1], [13]),
            space("quadruples", [B.CORE] * 4, [1], [9]),
            space("leaves-triples", [leaves] * 3, [1, 2], [12]),
            repeated("repeated-3", B.CORE, 3, [5], [9]),
            repeated("repeated-blocks", one, 1, [12], [13]),
        ]
    return result
