"""Spaces of arbitrary documents shared by the properties that hold for every text"""

from . import gen
from .engine import FuncSpace

RULE = (
    "every document of 1 to {n} lines over {k} kinds of lines, each at the line "
    "lengths {w}; nontrivial: {what}"
)


def spaces(run, tier, what, cost=1):
    """`cost`: roughly how many times as expensive as one reformatting a case is"""
    thorough = tier == "thorough"

    def lines(name, alphabet, depth, widths, min_depth=1):
        return FuncSpace(
            name,
            lambda: gen.with_widths(
                gen.line_documents(alphabet, depth, min_depth), widths
            ),
            run,
            f"every document of {min_depth} to {depth} lines over {len(alphabet)} kinds "
            f"of lines at the line lengths {widths}; nontrivial: {what}",
        )

    def inline(name, depth, widths, min_depth=1):
        return FuncSpace(
            name,
            lambda: gen.with_widths(
                gen.inline_documents(depth, min_depth=min_depth), widths
            ),
            run,
            f"every text of {min_depth} to {depth} of {len(gen.INLINE)} pieces of inline "
            f"markup at the line lengths {widths}; nontrivial: {what}",
        )

    def repeated(name, alphabet, depth, times, widths):
        return FuncSpace(
            name,
            lambda: gen.with_widths(
                gen.repeated_documents(alphabet, depth, times), widths
            ),
            run,
            f"every sequence of up to {depth} of {len(alphabet)} kinds of lines, {times} "
            f"times in a row, at the line lengths {widths}; nontrivial: {what}",
        )

    result = [
        lines("lines", gen.LINES, 2, [-1, 0, 1, 2, 3, 5, 8, 13, 20, 88, "inf"]),
        lines("lines-3", gen.LINES, 3, [7, 88], 3),
        inline("inline", 3, [1, 3, 6, "inf"]),
        inline("inline-4", 4, [4], 4),
        lines("core-4", gen.CORE_LINES, 4, [12], 4),
        lines("rows", gen.ROWS, 3, [9], 1),
        repeated("repeated", gen.LINES, 2, 12, [15]),
        repeated("repeated-3", gen.CORE_LINES, 3, 5, [10]),
    ]
    if thorough:
        result += [
            lines("lines-3-more", gen.LINES, 3, [1, 3, 5, 20, "inf"], 3),
            lines("lines-4", gen.LINES, 4, [9], 4),
            lines("core-5", gen.CORE_LINES, 5, [10], 5),
            inline("inline-4-more", 4, [1, 7, "inf"], 4),
            inline("inline-5", 5, [5], 5),
            repeated("repeated-more", gen.LINES, 3, 7, [4, 30]),
            repeated("repeated-long", gen.LINES, 2, 60, [8, "inf"]),
        ]
    return result
