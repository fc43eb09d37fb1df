"""Containers a block is put into: source spelling, result spelling and width"""

# name: (first line, following lines, their spelling in the result, indentation)
CONTAINERS = {
    "top": ("", "", "", "", 0),
    "quote": ("> ", "> ", "> ", "> ", 2),
    "item": ("* ", "  ", "* ", "  ", 2),
    "number": ("7. ", "   ", "7. ", "   ", 3),
    "hundreds": ("100. ", "     ", "100. ", "     ", 5),
    "quotequote": ("> > ", "> > ", "> > ", "> > ", 4),
    "itemitem": ("* - ", "    ", "* - ", "    ", 4),
    "quoteitem": ("> + ", ">   ", "> + ", ">   ", 4),
    "itemquote": ("- > ", "  > ", "- > ", "  > ", 4),
    "numberquotenumber": ("1. > 20. ", "   >     ", "1. > 20. ", "   >     ", 9),
}


def put(lines, container):
    first, rest, _, _, _ = CONTAINERS[container]
    return _put(lines, first, rest)


def expect(lines, container):
    _, _, first, rest, _ = CONTAINERS[container]
    return _put(lines, first, rest)


def _put(lines, first, rest):
    return [
        (first if not i else rest) + line if line else (first if not i else rest).rstrip()
        for i, line in enumerate(lines)
    ]


def inner(w, container):
    """The line length available inside of the container"""
    return w if w == "inf" else w - CONTAINERS[container][4]
