"""Parsing partitions the document, unambiguously"""

import markflow.parser

from .. import gen, tour
from ..engine import FuncSpace
from ..oracle import reformat_markdown_text  # noqa: F401

LEVEL = "model_checking"
ASSUMPTIONS = [
    "the detectors are those listed in markflow.parser.SPLITTERS; positions are decided "
    "by calling every one of them on every suffix of every document",
]


def _detectors():
    """The detectors as functions of lines and an index; None if they can't be called"""
    splitters = getattr(markflow.parser, "SPLITTERS", None)
    if splitters is None:
        return None
    try:
        pairs = list(splitters.items() if hasattr(splitters, "items") else splitters)
        result = []
        for kind, splitter in pairs:
            try:
                splitter(["a"], 0)
                result.append((kind, splitter))
            except TypeError:
                splitter(["a"])
                result.append((kind, lambda lines, i, splitter=splitter: splitter(lines)))
        return result
    except (TypeError, ValueError):
        return None


def _name(kind):
    return getattr(kind, "name", str(kind))


def run(case, r):
    lines = case
    r.state(tuple(lines))
    splitters = _detectors()

    # What every detector claims at every position
    claims = {}
    if splitters is not None:
        for i in range(len(lines)):
            suffix = lines[i:]
            claimed = []
            for kind, splitter in splitters:
                r.transition()
                section, rest = splitter(list(suffix), i)
                if not section:
                    if list(rest) != suffix:
                        r.violation("consumed", kind=_name(kind), lines=suffix)
                    continue
                claimed.append((_name(kind), len(section)))
                if list(section) + list(rest) != suffix:
                    r.violation(
                        "split", kind=_name(kind), section=section, rest=rest
                    )
            r.validate()
            if len(claimed) > 1:
                r.violation("ambiguous", lines=suffix, claimed=claimed)
            if not claimed:
                r.violation("unclaimed", lines=suffix)
            claims[i] = claimed[:1]

    sections = markflow.parser.parse_markdown(list(lines))
    r.transition()
    joined = [line for _, content in sections for line in content]
    r.validate()
    if joined != lines:
        r.violation("partition", sections=[[_name(k), c] for k, c in sections])
    if any(not content for _, content in sections):
        r.violation("empty", sections=[[_name(k), c] for k, c in sections])
    if len(sections) > 1 or len(lines) > 1:
        r.interesting()
    r.outcome(tuple((_name(k), len(c)) for k, c in sections))

    # The parse is the one any order of the detectors leads to
    if splitters is not None:
        position = 0
        for kind, content in sections:
            if claims.get(position) and claims[position] != [(_name(kind), len(content))]:
                r.violation(
                    "order", position=position, claimed=claims[position],
                    parsed=[_name(kind), len(content)],
                )
                break
            position += len(content)


MORE_LINES = gen.LINES + [
    "*", "-", "1.", "+ {}", "> # {}", "> ```", "> * {}", "* ```", "* > {}", "  ---", "**",
    " # {}", "```{}`", "``", "  {}", "      {}", "[{}]:", "[{}]", "\"{}\"", "'{}", "{}'",
    "(\"{}\")", "|", "||", "   | {} |", "* * {}", "_ _ _", "=", "\t{}", "<br>{}", "2. {}",
    "1) {}", ">>", "> ", " > {}", "     > {}", "     * {}",
    "     | {} |", "    |", "     # {}", "     ```", "     1. {}", "     ---", "     ===", "     [{}]: /u",
]


def run_text(case, r):
    lines = case[0].split("\n")
    run(lines if lines[-1] else lines[:-1], r)


def spaces(tier):
    def cases(alphabet, depth, min_depth=1):
        for document in gen.line_documents(alphabet, depth, min_depth):
            yield document[:-1].split("\n")

    def inline(depth):
        for document in gen.inline_documents(depth):
            yield document[:-1].split("\n")

    def repeated(alphabet, depth, times):
        for document in gen.repeated_documents(alphabet, depth, times):
            yield document[:-1].split("\n")

    what = "; nontrivial: more than one line"
    result = [
        FuncSpace(
            "lines-2", lambda: cases(MORE_LINES, 2), run,
            f"all documents of 1 or 2 of {len(MORE_LINES)} kinds of lines{what}",
        ),
        FuncSpace(
            "lines-3", lambda: cases(gen.LINES, 3, 3), run,
            f"all documents of 3 of {len(gen.LINES)} kinds of lines{what}",
        ),
        FuncSpace(
            "core-4", lambda: cases(gen.CORE_LINES, 4, 4), run,
            f"all documents of 4 of {len(gen.CORE_LINES)} kinds of lines{what}",
        ),
        FuncSpace(
            "inline", lambda: inline(3), run,
            f"all texts of up to 3 of {len(gen.INLINE)} pieces of inline markup{what}",
        ),
        FuncSpace(
            "repeated", lambda: repeated(MORE_LINES, 2, 5), run,
            f"1 or 2 of {len(MORE_LINES)} kinds of lines 5 times in a row{what}",
        ),
    ]
    # The outcome does not depend on the line length
    result += tour.spaces(run_text, tier, "more than one line")
    if tier == "thorough":
        result += [
            FuncSpace(
                "more-3", lambda: cases(MORE_LINES, 3, 3), run,
                f"all documents of 3 of {len(MORE_LINES)} kinds of lines{what}",
            ),
            FuncSpace(
                "lines-4", lambda: cases(gen.LINES, 4, 4), run,
                f"all documents of 4 of {len(gen.LINES)} kinds of lines{what}",
            ),
            FuncSpace(
                "core-5", lambda: cases(gen.CORE_LINES, 5, 5), run,
                f"all documents of 5 of {len(gen.CORE_LINES)} kinds of lines{what}",
            ),
        ]
    return result
