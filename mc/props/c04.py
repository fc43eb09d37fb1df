"""Every text gets an answer: a result or a documented error"""

import sys

from .. import gen, raw, tour
from ..engine import FuncSpace
from ..oracle import call, reformat_markdown_text, width

LEVEL = "model_checking"
ASSUMPTIONS = [
    "work is measured as the number of Python level calls and C calls made",
    "polynomial growth is decided from the growth between 4, 8, 16, 32 and 64 repetitions",
]


def run(case, r):
    text, w = case
    kind, out = call(text, w, r)
    r.validate()
    r.count(kind)
    if kind == "exception":
        r.violation("exception", error=out)
    elif kind == "refused-format" and "deep" in out.lower() and shallow(text):
        r.violation("not nested deeply", text=text, error=out)
    elif kind != "ok":
        r.interesting()


SHALLOW = 15


def shallow(text):
    """Is there a line that could be nested deeply?"""
    return all(
        sum(line.count(c) for c in ">*+-.") < SHALLOW for line in text.splitlines()
    )


def one_off(case, r):
    run(case, r)
    r.interesting()


def odd_documents():
    """Unusual characters and the corners of each kind of section"""
    odd = [
        "\x00", "\x0b", "\x0c", "\x1c", "\x85", "\u2028", "\u00a0", "\ufeff", "\ud800",
        "1" * 10, "0" * 12, "#" * 300, "`" * 300, "-" * 300, "[" * 200, "]" * 200,
        "(" * 200, "a " * 200, "\\" * 201, "|" * 300, ":" * 300, "_" * 300, "~" * 300,
        "\U0001f600", "\t", "\r", "e\u0301", "\u0660", "\u00b2", "\\", "`", "|", ":",
    ]
    frames = [
        "{}", "{}{}", "a{}b", "a {} b", "# {}", "#{}", "* {}", "*{}", "{}. a", "1{}. a",
        "> {}", ">{}", "```{}\na\n```", "```\n{}\n```", "    {}", "a\n{}\n---", "[{}]: /u",
        "[a]: {}", "[a]: /u '{}'", "[a]: /u\n{}", "|{}|\n|-|", "|a|\n|{}|", "|a|\n|-|\n|{}|",
        "{}> a", ">{}> a", "* {}> a", "*{}* a", "{}* a", "{}1. a", "{}# a", "{}```\na\n```",
        "{}---", "a\n{}===", "{}|a|\n|-|", "{}[a]: /u", "> a\n{}b", "> a\n{}> b", "* a\n{}* b",
        "`{}`", "[a](/{})", "[{}](/u)", "{}\n\n{}", "* a\n{}", "> a\n{}", "{}\n===",
    ]
    for frame in frames:
        for o in odd:
            yield frame.replace("{}", o)
            yield frame.replace("{}", o) + "\n"
            yield frame.replace("{}", o * 3) + "\n"
    # Python doesn't convert numbers of more than 4300 digits
    for frame in ["{}. a", "{}.", "> {}. a", "* {}. a", "1. {}. a", "a\n{}. b"]:
        yield frame.replace("{}", "7" * 4400)
    yield from ["", "\n", " ", "\n\n", " \n", "\t\n", "\r", "\r\n"]


# --- Growth -----------------------------------------------------------------------------


def repeat(unit, sep="\n"):
    return lambda k: sep.join([unit] * k) + "\n"


# Every way to repeat or to nest that the detectors loop over or recurse into
NEST = [">", "> ", "* ", "1. ", "- "]
LEAVES = ["a", "a\nb", "# h", "```\na\n```", "---", "|a|\n|-|", "[a]: /b 'c'", "    c", "*"]
UNITS = [
    "a", "a b", "a  ", "a\\", "# h", "* a", "1. a", "> a", "> a\nb", ">", "```", "~~~",
    "    a", "---", "===", "a\n===", "[a]: /b", "[a]: /b 'c", "[a]:", "[a]: b 'c\nd", "'c",
    "|a|", "|a|\n|-|", "", "* a\n  * b", "> a\n> > b", "* ```", "> ```", "* > a\nb",
    "`a", "[a](b)", "[a][b]", "<br>", "a\n---", "*", "[a", "> * a\nb", "> ---", "> > a\n> b",
]
INLINE_UNITS = [
    "a", "`", "`a`", "``a`", "[", "]", "[a](", "[a][", "](", "][", "(", ")", "\\", "<br>",
    "!", ".", "[a](b)", "[a][b]", "[[", "a`", "- ", "1. ", "*", "<", "' ", "\\`",
]


def family(spec, k):
    kind, *rest = spec
    if kind == "nested":
        first, second, leaf = rest
        prefix = ""
        body = leaf.split("\n")
        for i in range(k):
            marker = first if i % 2 else second
            rest_marker = marker if marker.startswith(">") else " " * len(marker)
            body = [
                (marker if not j else rest_marker) + line for j, line in enumerate(body)
            ]
        return "\n".join(body) + "\n"
    if kind == "stairs":
        first, order = rest
        depths = range(1, k + 1) if order == "up" else range(k, 0, -1)
        return "".join(
            (first * d if first.startswith(">") else "  " * (d - 1) + first) + "a\n"
            for d in depths
        )
    if kind == "lines":
        return "\n".join([rest[0]] * k) + "\n"
    if kind == "blank":
        return "\n\n".join([rest[0]] * k) + "\n"
    if kind == "pair":
        return "\n".join([rest[0], rest[1]] * (k // 2)) + "\n"
    if kind == "inline":
        return rest[0] * k + "\n"
    if kind == "words":
        return " ".join([rest[0]] * k) + "\n"
    if kind == "mix":
        return (rest[0] + rest[1]) * (k // 2) + "\n"
    if kind == "longline":
        return rest[0] + "a" * (8 * k) + "\n"
    raise AssertionError(kind)


def families(tier):
    for leaf in LEAVES:
        for first in NEST:
            for second in NEST:
                yield ["nested", first, second, leaf]
    for first in NEST:
        yield ["stairs", first, "up"]
        yield ["stairs", first, "down"]
    for unit in UNITS:
        yield ["lines", unit]
        yield ["blank", unit]
    for a in UNITS:
        for b in UNITS:
            if a != b and (tier == "thorough" or a in CORE_UNITS and b in CORE_UNITS):
                yield ["pair", a, b]
    for unit in INLINE_UNITS:
        yield ["inline", unit]
        yield ["words", unit]
    for a in INLINE_UNITS:
        for b in INLINE_UNITS:
            if a != b:
                yield ["mix", a, b]
    for unit in UNITS:
        yield ["longline", unit]


CORE_UNITS = ["a", "* a", "> a", "```", "---", "[a]: /b 'c", "'c", "|a|", "    a", "", "1. a"]


class Budget(BaseException):
    pass


def steps(text, w, budget):
    n = 0

    def trace(frame, event, arg):
        nonlocal n
        n += 1
        if n > budget:
            sys.setprofile(None)
            raise Budget()

    sys.setprofile(trace)
    try:
        reformat_markdown_text(text, width(w))
    except Budget:
        return n, "budget"
    except Exception as e:
        return n, type(e).__name__
    finally:
        sys.setprofile(None)
    return n, "ok"


DOCUMENTED = ("ok", "MarkdownFormatException", "ReformatInconsistentException")
# Every doubling may multiply the work by 2 ** DEGREE
DEGREE = 4
BUDGET = 30_000_000


def grow(case, r):
    spec, w, sizes = case
    old_limit = sys.getrecursionlimit()
    last = None
    try:
        for k in sizes:
            text = family(spec, k)
            r.state(text)
            r.transition()
            n, outcome = steps(text, w, BUDGET)
            r.validate()
            if outcome == "budget" or (
                last is not None and n > last * 2 ** DEGREE and n > 20000
            ):
                r.violation("growth", size=k, steps=n, before=last, spec=spec)
                return
            if outcome not in DOCUMENTED:
                r.violation("exception", size=k, error=outcome)
                return
            r.outcome((spec, n))
            last = n
    finally:
        sys.setrecursionlimit(old_limit)
    r.interesting()


def spaces(tier):
    what = "the text is refused with a documented error"
    result = raw.spaces(run, tier, what) + tour.spaces(run, tier, what)
    widths = [1, "inf"] if tier == "thorough" else [20]
    result.append(
        FuncSpace(
            "odd",
            lambda: gen.with_widths(odd_documents(), [-5, 1, 88, "inf"]),
            one_off,
            "odd characters in every kind of section; nontrivial: all",
        )
    )
    sizes = [4, 8, 16, 32] if tier == "quick" else [4, 8, 16, 32, 64]

    def deep_cases():
        for first in NEST:
            for second in NEST:
                for leaf in ["a", "```", "|a|", "# h", "[a]: /b"]:
                    for depth in (60, 120, 250, 500, 1000):
                        yield [first, second, leaf, depth]

    def deep(case, r):
        first, second, leaf, depth = case
        one_off([(first + second) * (depth // 2) + leaf + "\n", 88], r)

    result.append(
        FuncSpace(
            "deep", deep_cases, deep, "nesting up to 1000 levels deep; nontrivial: all"
        )
    )

    def growth_cases():
        for spec in families(tier):
            for w in widths:
                yield [spec, w, sizes]

    space = FuncSpace(
        "growth",
        growth_cases,
        grow,
        f"ways to repeat and nest constructs, {sizes} times; nontrivial: all",
    )
    space.cpu_seconds = 60
    result.append(space)
    return result
