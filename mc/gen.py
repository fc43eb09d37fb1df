"""Bounded input spaces: alphabets and generators shared by the checks.

All generators are deterministic and complete for their bounds.
"""

import itertools

# --- Lines ----------------------------------------------------------------------------

# One template for every kind of line the detectors distinguish. `{}` are replaced by a
# word of the position of the line, so that lost, repeated and moved text is noticed.
LINES = [
    "",
    "{}",
    "{} {}  ",
    "{}\\",
    "# {}",
    "#{}",
    "##",
    "* {}",
    "- {} {}",
    "  * {}",
    "1. {}",
    "10. {}",
    "   {}",
    "> {}",
    ">",
    ">{}",
    "> > {}",
    "```",
    "~~~~ {}",
    "    {}",
    "---",
    "===",
    "* * *",
    "[{}]: /{}",
    "[{}]: /{} '{} {}'",
    "'{}'",
    "| {} | {} |",
    "|--|:-:|",
    "{} `{}",
    "{}` [{}](/{})",
    "{} <br> {}",
]

# The lines on which the code has to remember most
CORE_LINES = [
    "",
    "{} {}",
    "{}  ",
    "# {}",
    "* {}",
    "  1. {}",
    "> {}",
    ">",
    "```",
    "    {}",
    "---",
    "[{}]: /{}",
    "'{}'",
    "| {} |",
    "|-|",
]

# Lines of tables and what could be one
ROWS = [
    "| {} | {} |",
    "| {} |",
    "|{}",
    "| {} | {}",
    "| {} \\|",
    "| {} | {} \\|",
    "| {} | {} | {} \\|",
    "| {} \\| {} |",
    "| {} \\\\| {}",
    "| `{}|{}` |",
    "|",
    "||",
    "|  | {} |",
    "|-|",
    "|-|-|",
    "|:-:|--:",
    "|-|-|-|",
    "{} | {}",
    "  | {} | {} |  ",
    "* | {} |",
    "> | {} |",
]

_WORDS = [
    ["ab", "cde", "f", "ghij"],
    ["KLM", "N", "OP", "QRS"],
    ["tu", "vwx", "yz", "éü"],
    ["ΑΒΓ", "ΔΕ", "Ζ", "ΗΘ"],
    ["бгд", "ж", "зи", "йкл"],
]


def fill_line(template, position):
    words = _WORDS[position % len(_WORDS)]
    for word in words:
        template = template.replace("{}", word, 1)
    return template


def line_documents(alphabet, depth, min_depth=1):
    for n in range(min_depth, depth + 1):
        for templates in itertools.product(alphabet, repeat=n):
            yield "\n".join(fill_line(t, i) for i, t in enumerate(templates)) + "\n"


# --- Characters -----------------------------------------------------------------------

# What the splitting of text into words looks at
INLINE = [
    "a",
    "bc ",
    " ",
    "`",
    "``",
    "[",
    "]",
    "(d)",
    "[e](f)",
    "[g][h]",
    "\\",
    "!",
    ".",
    "<br>",
    "\n",
    "  \n",
    "*",
    "- ",
    "#",
    "1. ",
    "'",
]


def inline_documents(depth, alphabet=INLINE, min_depth=1):
    for n in range(min_depth, depth + 1):
        for pieces in itertools.product(alphabet, repeat=n):
            yield "".join(pieces) + "\n"


def repeated_documents(alphabet, depth, times):
    for n in range(1, depth + 1):
        for lines in itertools.product(alphabet, repeat=n):
            yield "\n".join(fill_line(t, i) for i, t in enumerate(lines * times)) + "\n"


def with_widths(documents, widths):
    for document in documents:
        for w in widths:
            yield [document, w]


# --- Sizes ----------------------------------------------------------------------------

SIZES = [4096, 8192, 65536, 131072]


def sized(size, char, end, pad, tail):
    """Fenced code across that many bytes, and a bit more, and then some text"""
    line = char * 24 + end
    lines = ["```" + end, "x" * pad + end]
    length = sum(len(each) for each in lines)
    number = (size - length) // len(line.encode()) + 2
    return "".join(lines + [line] * number + ["```" + end, end, tail])


def sizes():
    for size in SIZES:
        for char, end, pads in (("y", "\n", 1), ("y", "\r\n", 26), ("\u20ac", "\n", 4)):
            for pad in range(1, pads + 1):
                for tail in ("c d" + end, "c  d" + end, "c d"):
                    yield [size, char, end, pad, tail]
