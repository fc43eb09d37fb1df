"""Code blocks keep their content

The reference puts the expected result together from the parts of the case.
"""

import itertools

from ..containers import CONTAINERS, expect, put
from ..engine import FuncSpace
from ..oracle import call

LEVEL = "model_checking"
ASSUMPTIONS = ["contents are put together from the lines listed in mc/props/c09.py"]

# Lines that would be something else outside of code
CONTENT = [
    "",
    "x",
    "  x  y",
    "      x",
    "* a",
    "- - -",
    "10. a",
    "# h",
    "##h",
    "> q",
    "| a |",
    "===",
    "[l]: /u",
    "trailing   ",
    "a long line of words, which would be wrapped",
    "`a  b` [c]( d)",
    "a<br>b\\",
    "```",
    "~~~",
    "`````",
    "``` py",
    "~~~~ x",
    "  ```",
    "````x",
    "```~~",
    "~~~~```",
    "```*",
    "`` ` ``",
    "é\u2028x\x0cy",
    "   ",
    "    ",
    "x\t",
    "x\ty",
]
CORE = ["", "x", "    x", "* a", "2. b", "> q", "```", "~~~~", "``` py", "a  b c d e f"]
INFOS = ["", "py", " py ", "a  b=1", "{.x}", "c++"]
# Only after tildes
TILDE_INFOS = ["a~", "a`b", "``` c", " ~ d", " ~~~~", "`"]
# What ends the block
CLOSINGS = ["same", "longer", "trailing", "indented", "none"]
FOLLOWING = ["end", "paragraph", "directly", "code", "heading", "interrupts"]


def closes(line, char, count):
    stripped = line.strip(" ")
    indent = len(line) - len(line.lstrip(" "))
    return (
        indent < 4 and len(stripped) >= count and stripped == char * len(stripped)
    )


def run_fenced(case, r):
    char, count, info, content, closing, following, container, w = case
    fence = char * count
    lines = [fence + info] + content
    space = " " if info.strip().startswith(char) else ""
    wanted = [fence + space + info.strip()] + [line.rstrip() for line in content] + [fence]
    lines += {
        "same": [fence],
        "longer": [fence + char * 2],
        "trailing": [fence + "   "],
        "indented": ["  " + fence],
        "none": [],
    }[closing]
    _compare(lines, wanted, following, container, w, r)


def _compare(lines, wanted, following, container, w, r):
    after = {
        "end": [],
        "paragraph": ["", "p"],
        "directly": ["p"],
        "code": ["", "```", "* y", "```"],
        "heading": ["# h"],
        "interrupts": [],
    }[following]
    if following == "interrupts":
        lines, wanted = ["p"] + lines, ["p"] + wanted
    if following in ("directly", "heading"):
        lines, wanted = put(lines + after, container), expect(wanted + after, container)
    else:
        lines = put(lines, container) + after
        wanted = expect(wanted, container) + after
    text, expected = "\n".join(lines) + "\n", "\n".join(wanted) + "\n"
    kind, out = call(text, w, r)
    r.validate()
    if expected != text:
        r.interesting()
    if (kind, out) != ("ok", expected):
        r.violation("code", text=text, expected=expected, outcome=[kind, out])


def fenced(chars, counts, infos, contents, sizes, closings, followings, containers, widths):
    for char, count, info, size, closing, following, container, w in itertools.product(
        chars, counts, infos, sizes, closings, followings, containers, widths
    ):
        if closing == "none":
            # Everything that follows in the container would be content
            if following in ("directly", "heading"):
                continue
            if container == "top" and following not in ("end", "interrupts"):
                continue
        if following != "end" and not container.endswith("quote") and container != "top":
            # A blank line would make the list loose
            if following in ("paragraph", "code"):
                continue
        if following == "heading" and container not in ("top", "quote", "quotequote"):
            continue
        if following == "directly" and container not in ("top", "quote", "quotequote"):
            continue
        for content in itertools.product(contents, repeat=size):
            if any(closes(line, char, count) for line in content):
                continue
            if closing == "none" and (
                not content
                or not content[-1].strip()
                or container != "top" and not all(line.strip() for line in content)
            ):
                continue
            yield [char, count, info, list(content), closing, following, container, w]


def run_long(case, r):
    """Long contents, fences and info strings"""
    char, count, info, pattern, times, closing, following, container, w = case
    run_fenced(
        [char, count, info * 9, pattern * times, closing, following, container, w], r
    )


def lengths():
    """Fences of every length up to 130 and around powers of two"""
    for char, count, container in itertools.product(
        "`~", [*range(9, 131), 255, 256, 257, 511, 512, 513, 1023, 1024, 1025],
        ["top", "item", "quote"],
    ):
        for content in (["x"], [char * (count - 1)], ["* a", char * (count // 2 + 2)]):
            for info, closing in (("", "same"), ("py", "longer"), ("", "none")):
                yield [char, count, info, content, closing, "end", container, 20]


CHARACTERS = [chr(i) for i in range(32, 127)] + list("\xa0\xad\u00df\u0301\u200b\u4e2d\ufeff\U0001f600\x01\x0b\x0c\x1c\x85\u2028\u2029")


def characters():
    """Every printable character at the ends and inside of the content and the info string"""
    for char, c, container in itertools.product("`~", CHARACTERS, ["top", "item", "quote"]):
        for line in (c, c + "x", c + " x", "x" + c, "x " + c + " y", c * 4, "  " + c * 2):
            if not line.strip() or line.rstrip() != line.rstrip(" "):
                # Other white space is trimmed as well
                continue
            if not closes(line, char, 3):
                yield [char, 3, "", [line], "same", "end", container, 5]
            if char == "~" or "`" not in line:
                if not line.startswith(char) and line.strip() == line.strip(" "):
                    yield [char, 3, line, ["x"], "same", "end", container, 5]


def run_indented(case, r):
    before, content, following, container, w = case
    lines = ["    " + line if line else "" for line in content]
    wanted = [line.rstrip() for line in lines]
    start = {
        "start": [],
        "paragraph": ["p", ""],
        "heading": ["# h"],
        "underlined": ["h", "="],
        "fence": ["```", "```"],
        "break": ["***", ""],
    }[before]
    wanted_start = list(start)
    if before == "break":
        wanted_start[0] = "***"
        if w != "inf":
            wanted_start[0] = "*" * max(3, w - CONTAINERS[container][4])
    end = {
        "end": [],
        "paragraph": ["", "p"],
        "directly": ["p"],
        "heading": ["# h"],
        "list": ["", "* l"],
    }[following]
    lines, wanted = start + lines + end, wanted_start + wanted + end
    text = "\n".join(put(lines, container)) + "\n"
    expected = "\n".join(expect(wanted, container)) + "\n"
    kind, out = call(text, w, r)
    r.validate()
    if expected != text:
        r.interesting()
    if (kind, out) != ("ok", expected):
        r.violation("code", text=text, expected=expected, outcome=[kind, out])


def indented(befores, contents, sizes, followings, containers, widths):
    for before, size, following, container, w in itertools.product(
        befores, sizes, followings, containers, widths
    ):
        for content in itertools.product(contents, repeat=size):
            if not content[0].strip() or not content[-1].strip():
                continue
            yield [before, list(content), following, container, w]


def spaces(tier):
    thorough = tier == "thorough"
    containers = list(CONTAINERS)
    befores = ["start", "paragraph", "heading", "underlined", "fence", "break"]
    followings = ["end", "paragraph", "directly", "heading", "list"]
    result = [
        FuncSpace(
            "fences",
            lambda: fenced(
                "`~", range(3, 9), INFOS, ["", "* a  b"], [0, 1, 2],
                CLOSINGS, FOLLOWING, containers, [1, 20],
            ),
            run_fenced,
            "every fence character, length 3-8, info string, end, following block and "
            "container",
        ),
        FuncSpace(
            "content",
            lambda: fenced(
                "`~", [3, 4, 6], ["", "py"], CONTENT, [1, 2], ["same", "none"],
                ["end", "directly", "interrupts"], ["top", "item", "quote"], [6],
            ),
            run_fenced,
            f"every sequence of up to 2 of {len(CONTENT)} lines of content",
        ),
        FuncSpace(
            "content-nested",
            lambda: fenced(
                "`~", [3, 4], [""], CORE, [3] if not thorough else [3, 4],
                ["same", "none"], ["end"], ["item", "hundreds", "itemquote", "quoteitem"],
                [10],
            ),
            run_fenced,
            f"every sequence of 3 of {len(CORE)} lines of content inside of containers",
        ),
        FuncSpace(
            "indented",
            lambda: indented(
                befores, CONTENT, [1, 2], followings, ["top", "quote"], [1, 30],
            ),
            run_indented,
            f"every sequence of up to 2 of {len(CONTENT)} lines as indented code",
        ),
        FuncSpace(
            "indented-chunks",
            lambda: indented(
                ["start", "paragraph"], CORE, [3, 4] if thorough else [3], ["end", "paragraph"],
                ["top", "quote", "quotequote"], [10],
            ),
            run_indented,
            f"every sequence of 3 of {len(CORE)} lines as indented code",
        ),
    ]
    result += [
        FuncSpace(
            "tildes",
            lambda: fenced(
                "~", [3, 4], TILDE_INFOS, ["", "* a  b", "```", "    x", "   "], [1, 2, 3],
                ["same", "longer", "none"], FOLLOWING, containers, [20],
            ),
            run_fenced,
            "info strings that only fences of tildes can have",
        ),
        FuncSpace(
            "long",
            lambda: (
                case[:4] + [times] + case[4:]
                for times in (7, 30)
                for case in fenced(
                    "`~", [3, 20], ["", "py "], CONTENT, [1, 2], ["same"], ["end"],
                    ["top", "item", "quoteitem"], [20],
                )
                # Blank lines at an end of a list item
                if len(case[3]) == 1 or case[7] == "top"
            ),
            run_long,
            "every one or two lines of content 7 and 30 times in a row, long fences and "
            "info strings",
        ),
    ]
    result += [
        FuncSpace(
            "lengths", lengths, run_fenced,
            "fences of up to 1025 characters around lines of one character less",
        ),
        FuncSpace(
            "characters", characters, run_fenced,
            f"each of {len(CHARACTERS)} characters in 7 places of a line or info string",
        ),
    ]
    if thorough:
        result.append(
            FuncSpace(
                "content-3",
                lambda: fenced(
                    "`~", [3, 5], ["py"], CONTENT, [3], ["same", "none"], ["end"],
                    ["top", "item", "quote"], [6],
                ),
                run_fenced,
                f"every sequence of 3 of {len(CONTENT)} lines of content",
            )
        )
    for s in result:
        s.rule += "; nontrivial: reformatting changes the text"
    return result
