"""Documents of the supported dialect, as lists of lines, and ways to combine them

Every function returns lists of lines.  Documents are described by short names, so a case
is readable and can be rebuilt: `lines_of("quote(para)")`.
"""

import functools
import itertools

LEAVES = {
    "word": ["w"],
    "para": ["Lorem ip dolor", "sit am et, con", "sec te tur."],
    "long": ["an extraordinarily-long-word and it goes on until everything is said"],
    "marks": ["a - b * c + d 1. e # f > g = h --- i 12. j ``` k | l === m"],
    "code": ["x `co de  ` y``a ` b``z (`p`) `q`. `r`, s"],
    "link": ["see [te xt](/url 'ti tle'), [label] or ![im age](/i.png) [a](b)"],
    "ref": ["see [some text][label]", "", "[label]: /url"],
    "hard": ["ab cd  ", "ef gh"],
    "backslash": ["ab cd\\", "ef gh"],
    "br": ["ab<br>cd <br/> ef<br />gh"],
    "emph": ["*em ph* and __st rong__ <b>ht ml</b> &amp; \\* esc"],
    "atx": ["# Head ing one"],
    "atxtight": ["##Head ing two"],
    "atxclosed": ["### Head ###"],
    "atxempty": ["#"],
    "setext1": ["He ad", "==="],
    "setext2": ["He ad of mo re", "wo rds", "---"],
    "hr": ["---"],
    "hrstars": ["* * *"],
    "hrdashes": ["- - -"],
    "hrlong": ["_______________"],
    "fence": ["```py", "# co  de", "", "  * more", "> q", "```"],
    "tilde": ["~~~~", "```", "~~~", "a | b", "~~~~"],
    "fenceempty": ["```", "```"],
    "indented": ["    co  de", "", "      1. more", "    # x"],
    "codeline": ["    co  de", "    # x"],
    "def": ["[label]: /url 'ti tle of it'"],
    "deftwo": ["[label]: </u>", "[other]:", "/url"],
    "table": ["| a | b c | d |", "|---|:-:|--:|", "| `x` | y | z |", "| \\| |  | long er |"],
    "tablesmall": ["|a|", "|-|"],
    "bullets": ["* a b", "* c"],
    "dashes": ["- a b c d e f g h", "- i j", "  k"],
    "numbers": ["1. a b", "2. c d e f g h i", "3. j"],
    "nested": ["* a", "  * b", "    1. c", "  * d", "* e"],
    "quote": ["> a b", "> c d e f g"],
    "lazy": ["> a b", "c d e f g"],
    "tightquote": [">a b", ">c"],
    "letters": ["a b c", "d *e f*"],
}

# Blocks that may directly follow the first paragraph of a list item
TIGHT = ["fence", "tilde", "bullets", "dashes", "nested", "quote"]
CORE = [
    "para", "code", "hard", "atx", "setext2", "hrstars", "fence", "indented", "def",
    "table", "bullets", "numbers", "quote", "link",
]
INDENTED_FIRST = {"indented"}


def has_blank(lines):
    return any(not line.strip() for line in lines)


def blank_only_in_fence(lines):
    fence = None
    for line in lines:
        stripped = line.strip()
        if fence:
            if stripped.startswith(fence) and not stripped.strip(fence[0]):
                fence = None
        elif stripped[:3] in ("```", "~~~"):
            fence = stripped[: len(stripped) - len(stripped.lstrip(stripped[0]))]
        elif not stripped:
            return False
    return True


def quote(lines, marker="> "):
    """The lines in a quote. Without its space, the marker would take one of a line's"""
    return [
        marker.rstrip() if not line
        else "> " + line if line.startswith(" ")
        else marker + line
        for line in lines
    ]


def item(lines, marker="* "):
    return [
        (marker if not i else " " * len(marker)) + line if line else ""
        for i, line in enumerate(lines)
    ]


def join(*documents, blanks=1):
    result = []
    for i, lines in enumerate(documents):
        if i:
            result += [""] * blanks
        result += lines
    return result


def _arguments(text):
    depth, start = 0, 0
    for i, c in enumerate(text):
        if c == "(":
            depth += 1
        elif c == ")":
            depth -= 1
        elif c == "," and not depth:
            yield text[start:i]
            start = i + 1
    yield text[start:]


@functools.lru_cache(maxsize=None)
def _lines_of(name):
    if "(" not in name:
        return tuple(LEAVES[name])
    function, rest = name.split("(", 1)
    assert rest.endswith(")")
    parts = [list(_lines_of(part)) for part in _arguments(rest[:-1])]
    if function == "doc":
        return tuple(join(*parts))
    if function == "doc2":
        return tuple(join(*parts, blanks=2))
    if function == "quote":
        return tuple(quote(join(*parts)))
    if function == "tquote":
        return tuple(quote(join(*parts), ">"))
    if function in ("star", "dash", "plus", "one", "nine", "ten"):
        markers = {
            "star": ["* "] * 9, "dash": ["- "] * 9, "plus": ["+ "] * 9,
            "one": [f"{i}. " for i in range(1, 9)],
            "nine": [f"{i}. " for i in range(9, 19)],
            "ten": [f"{i}. " for i in range(10, 19)],
        }[function]
        result = []
        for marker, part in zip(markers, parts):
            result += item(part, marker)
        return tuple(result)
    if function == "tight":
        return tuple(line for part in parts for line in part)
    raise AssertionError(name)


def lines_of(name):
    return list(_lines_of(name))


def rendered_source(text):
    """The text as CommonMark is meant to read it

    Headings without a space aren't headings for CommonMark, but are for MarkFlow.
    """
    return text.replace("##Head", "## Head")


def text_of(name):
    return "\n".join(_lines_of(name)) + "\n"


def listable(name):
    lines = _lines_of(name)
    return (
        (not lines[0].startswith(" ") or name == "codeline")
        and blank_only_in_fence(lines)
        # Definitions need a blank line before what uses their label
        and lines[0].strip("#")
    )


LISTS = ["star", "one", "nine", "dash", "plus", "ten"]


def containers_of(names, lists=("star", "one"), quotes=("quote", "tquote")):
    for name in names:
        for q in quotes:
            yield f"{q}({name})"
        if listable(name):
            for kind in lists:
                yield f"{kind}({name})"


def blocks(depth, leaves=tuple(LEAVES), core=tuple(CORE)):
    """All blocks nested up to `depth` deep

    Depth 1 has each leaf in each container, pairs of core leaves in quotes and lists, and
    list items of a paragraph with a nested block.
    """
    result = list(leaves)
    if depth == 0:
        return result
    level = list(containers_of(leaves, LISTS))
    for a, b in itertools.product(core, repeat=2):
        level.append(f"quote(doc({a},{b}))")
        if listable(a) and listable(b):
            level.append(f"star({a},{b})")
            level.append(f"nine({a},{b})")
    for a in ("word", "para", "code"):
        for b in TIGHT:
            level.append(f"star(tight({a},{b}))")
            level.append(f"one(tight({a},{b}),word)")
    for _ in range(depth - 1):
        result += level
        level = list(containers_of(level))
    return result + level
