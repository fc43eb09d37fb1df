"""Spaces of documents of the supported dialect"""

import itertools

from . import blocks as B
from .engine import FuncSpace


def singles(name, run, depth, widths, keep=None, what="all"):
    names = [n for n in B.blocks(depth) if keep is None or keep(n)]

    def cases():
        for n in names:
            for w in widths:
                yield [n, w]

    return FuncSpace(
        name, cases, run,
        f"{len(names)} blocks nested up to {depth} deep, each at the line lengths {widths}; "
        f"nontrivial: {what}",
    )


def repeated(name, run, alphabet, size, times, widths, what="all"):
    """Documents of a few blocks again and again"""

    def cases():
        for names in itertools.product(alphabet, repeat=size):
            for n in times:
                for w in widths:
                    yield [f"doc({','.join(names * n)})", w]

    return FuncSpace(
        name, cases, run,
        f"every sequence of {size} of {len(alphabet)} blocks {list(times)} times in a row, "
        f"at the line lengths {widths}; nontrivial: {what}",
    )


def sequences(name, run, alphabets, widths, blanks=(1,), keep=None, what="all"):
    """Sequences of blocks separated by blank lines"""
    alphabets = [[n for n in a if keep is None or keep(n)] for a in alphabets]

    def cases():
        for names in itertools.product(*alphabets):
            for b in blanks:
                for w in widths:
                    function = "doc" if b == 1 else "doc2"
                    yield [f"{function}({','.join(names)})", w]

    return FuncSpace(
        name, cases, run,
        f"every sequence of {len(alphabets)} blocks of alphabets of "
        f"{[len(a) for a in alphabets]} blocks, separated by {list(blanks)} blank lines, at "
        f"the line lengths {widths}; nontrivial: {what}",
    )
