"""Inline code and link targets survive reflow intact"""

import itertools
import re

from ..engine import FuncSpace
from ..oracle import call, rendering_differs

LEVEL = "model_checking"
ASSUMPTIONS = [
    "texts are put together from the atoms listed in mc/props/c06.py",
    "reference links have a definition",
]

# name: (text, what has to be on one line of the result)
ATOMS = {
    "word": ("w", None),
    "words": ("Lorem ipsum", None),
    "dot": (".", None),
    "comma": (",", None),
    "open": ("(", None),
    "close": (")", None),
    "bang": ("!", None),
    "star": ("*", None),
    "code": ("`a  b`", "`a  b`"),
    "ticks": ("`` c`d ``", "`` c`d ``"),
    "codelink": ("`[e](f g)`", "`[e](f g)`"),
    "codebr": ("`<br>.`", "`<br>.`"),
    "codeslash": ("`h\\`", "`h\\`"),
    "codelines": ("`i\nj`", "`i j`"),
    "codemark": ("`1. | # `", "`1. | # `"),
    "link": ("[k](/l)", "/l)"),
    "linktitle": ("[k m](/l 'n  o')", "/l 'n  o')"),
    "linkdest": ("[k](<l m>)", "<l m>)"),
    "linkcode": ("[k `p  q`](/l)", "`p  q`"),
    "image": ("![k m](/l)", "/l)"),
    "ref": ("[k m][l]", "l]"),
    "refspace": ("[k][l  o]", "l  o]"),
    "shortcut": ("[l]", None),
    "badge": ("[![k](/l)](/m)", "/m)"),
    "auto": ("<http://x.y/z>", "<http://x.y/z>"),
    "tick": ("\\`", None),
    "backslash": ("\\\\", None),
    "thirdtick": ("\\\\\\`", None),
    "linkparens": ("[k](/l_(m) 'n  o')", "/l_(m) 'n  o')"),
    "linkclose": ("[k](/l ')  n) o')", "/l ')  n) o')"),
    "linkinner": ("[k](<l](m n>)", "(m n>)"),
    "bracket": ("\\[", None),
    "br": ("<br>", None),
    "emph": ("**s t**", None),
}
DEFINITIONS = "\n\n[l]: /u\n\n[l o]: /v"
LINKS = {"link", "linktitle", "linkdest", "linkcode", "linkparens", "linkclose", "image", "badge", "ref", "refspace"}
BRACKETS = LINKS | {"shortcut", "bracket"}


def known(names, gaps):
    """A link, a space and then a word that a link is glued to (see known-findings.txt)"""
    text = source(names, gaps)
    return re.search(r"[\])][^\s\[(]* [^\s\])]*?\w[^\s\])\[]*!?\[", text) is not None


def atom(name):
    """Text and the piece of it that must be kept verbatim"""
    if isinstance(name, str):
        return ATOMS[name]
    kind, n, m = name
    if kind == "code":
        text = "`" * n + " a  b " + "`" * m + "  c " + "`" * n
        return text, text
    if kind == "destination":
        return "[k](/" + "l" * n + " 'n  o')", "/" + "l" * n + " 'n  o')"
    if kind == "title":
        title = "'" + "n  " * n + "o')"
        return "[k](/l " + title, title
    if kind == "text":
        return "[" + "k " * n + "m](/l 'n  o')", "/l 'n  o')"
    if kind == "label":
        return "[k][l" + "  o" * n + "]", "l" + "  o" * n + "]"
    if kind == "ticks":
        return "`" * n, None
    if kind in FORMS:
        text, piece = FORMS[kind]
        return text.replace("C", n), piece.replace("C", n)
    raise ValueError(kind)


# Where a character can be; what has to stay on one line
FORMS = {
    "plain": ("[k](/C)", "/C)"),
    "inside": ("[k](/lCm 'n  o')", "/lCm 'n  o')"),
    "bracketed": ("[k m](<l C  m>)", "<l C  m>)"),
    "quoted": ("[k](/l 'C  nC')", "/l 'C  nC')"),
    "double": ('[k](/l "n  C o")', '/l "n  C o")'),
    "inline": ("`C  x C`", "`C  x C`"),
    "inline2": ("`` xC  C ``", "`` xC  C ``"),
    "referenced": ("[k][lC  m]", "lC  m]"),
    "shown": ("[kC m](/l 'n  o')", "/l 'n  o')"),
    "described": ("![C k](/l 'n  o')", "/l 'n  o')"),
}
# They would end it, or start something else in it
EXCEPTIONS = {
    "plain": "()<\\", "inside": "()<\\", "bracketed": "<>\\", "quoted": "'\\`", "double": '"\\`',
    "inline": "`", "inline2": "`", "referenced": "[]\\`", "shown": "[]\\`<", "described": "[]\\`<",
}
CHARACTERS = [chr(i) for i in range(33, 127)] + list("\xad\xdf\u0301\u200b\u4e2d\ufeff\U0001f600")


def character_cases():
    for kind, c in itertools.product(FORMS, CHARACTERS):
        if c in EXCEPTIONS[kind]:
            continue
        for gaps in ([" ", " "], [" ", ""]):
            for w in (1, 6, 9, 12, 20, "inf"):
                for container in ("paragraph", "quote", "atx"):
                    yield [["word", [kind, c, 0], "word"], gaps, w, container]


def source(names, gaps):
    text = atom(names[0])[0]
    for gap, name in zip(gaps, names[1:]):
        text += gap + atom(name)[0]
    return text


def valid(names, gaps):
    text = source(names, gaps)
    if re.match(r"[*.+-] |\[[^\]]*\]:", text) or names[0] in ("br",):
        return False
    for a, gap, b in zip(names, gaps, names[1:]):
        if "\t" in gap and "br" in (a, b):
            # Makes no difference
            return False
        if not gap and a == "br" and b == "star":
            # The break put between them may keep it from closing emphasis (see C02)
            return False
        if not gap and (atom(a)[0][-1] == "`" and atom(b)[0][0] == "`"):
            return False
        if not gap and atom(a)[0][-1] == "]" and atom(b)[0][0] in "[(":
            return False
        if not gap and a == "shortcut" and b == "open":
            return False
    if not text.strip("* \n"):
        return False
    if re.search(r"(^|[ \n])[*+-]([ \t\n]|$)", text):
        return False
    return True


_JOINT = re.compile(r"(\]\(|\]\[|<br>) ")


def flat(text):
    """The text on one line, without the breaks allowed inside of links"""
    return _JOINT.sub(r"\1", re.sub(r"[ \t\n]+", " ", text))


CONTAINERS = {
    "paragraph": ("", "", ""),
    "item": ("+ ", "  ", ""),
    "quote": ("> ", "> ", ""),
    "setext": ("", "", "\n==="),
    "atx": ("# ", None, ""),
}


def run(case, r):
    names, gaps, w, container = case
    text = source(names, gaps)
    first, rest, end = CONTAINERS[container]
    if rest is None:
        whole = first + text.replace("\n", " ")
    else:
        whole = first + text.replace("\n", "\n" + rest) + end
    whole += DEFINITIONS
    for name in names:
        if name[0] in ("label", "referenced"):
            whole += f"\n\n[{' '.join(atom(name)[1][:-1].split())}]: /w"
    whole += "\n"
    kind, out = call(whole, w, r)
    r.validate()
    if kind != "ok":
        r.violation("refused", text=whole, outcome=[kind, out])
        return
    if out != whole:
        r.interesting()
    body = out.split("\n\n")[0].split("\n")
    if container == "setext":
        body.pop()
    lines = [
        line[len(first if not i else rest or ""):].strip(" \t") for i, line in enumerate(body)
    ]
    if flat("\n".join(lines)) != flat(text):
        r.violation("text", text=whole, output=out)
        return
    for name in names:
        piece = atom(name)[1]
        if piece and not any(piece in line for line in lines):
            r.violation("split", text=whole, piece=piece, output=out)
            return
    if rendering_differs(whole, out):
        r.violation("rendering", text=whole, output=out)


def cases_of(alphabet, n, widths, containers, gap_kinds=("", " ")):
    for names in itertools.product(alphabet, repeat=n):
        for gaps in itertools.product(gap_kinds, repeat=n - 1):
            if not valid(names, gaps) or known(names, gaps):
                continue
            for w in widths:
                for container in containers:
                    yield [list(names), list(gaps), w, container]


def long_run(case, r):
    pattern, times, gaps, w, container = case
    gaps = (list(gaps) * times)[:len(pattern) * times - 1]
    run([pattern * times, gaps, w, container], r)


def long_cases(alphabet, n, times, widths, containers):
    for pattern in itertools.product(alphabet, repeat=n):
        # The last gap is the one between repetitions
        for gaps in itertools.product(("", " "), repeat=n):
            twice = (list(gaps) * 3)[: n * 3 - 1]
            if not valid(pattern * 3, twice) or known(pattern * 3, twice):
                continue
            for w, container in itertools.product(widths, containers):
                yield [list(pattern), times, list(gaps), w, container]


LENGTHS = [*range(1, 15), 20, 30, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257]


def length_cases():
    atoms = [["code", n, m] for n in range(1, 13) for m in range(1, 15) if n != m]
    atoms += [["code", n, 1] for n in LENGTHS if n > 12]
    atoms += [
        [kind, n, 0] for kind in ("destination", "title", "text", "label") for n in LENGTHS
    ]
    for name in atoms:
        for w in (1, 9, 30, 88, "inf"):
            for container in ("paragraph", "quote", "atx"):
                yield [["word", name, "word"], [" ", " "], w, container]


def lone_cases():
    """Backticks that are never closed"""
    for a, n, b in itertools.product(ATOMS, (3, 4), ATOMS):
        for gaps in itertools.product(("", " "), repeat=2):
            names = ["word", a, ["ticks", n, 0], b, "word"]
            gaps = [" ", *gaps, " "]
            if a == "tick" and not gaps[1] or not valid(names, gaps) or known(names, gaps):
                continue
            for w in (1, 7, 12, 20, "inf"):
                for container in ("paragraph", "item", "atx"):
                    yield [names, gaps, w, container]


def known_cases():
    yield [["link", "word", "link"], [" ", ""], "inf", "paragraph"]


def spaces(tier):
    everything = list(ATOMS)
    core = ["word", "dot", "open", "code", "codelines", "link", "ref", "image", "tick", "br"]

    def space(name, alphabet, ns, widths, containers, gaps=("", " ")):
        def cases():
            for n in ns:
                yield from cases_of(alphabet, n, widths, containers, gaps)

        return FuncSpace(
            name, cases, run,
            f"every sequence of {list(ns)} of {len(alphabet)} atoms, each pair with each "
            f"of the gaps {gaps}, in {list(containers)} at the line lengths {widths}; "
            "nontrivial: reformatting changes the text",
        )

    containers = list(CONTAINERS)
    result = [
        space(
            "atoms-2", everything, [1, 2],
            [1, 3, 5, 8, 13, 19, "inf"], containers, ("", " ", "\n"),
        ),
        space(
            "atoms-2-widths", everything, [1, 2],
            [w for w in range(2, 24) if w not in (3, 5, 8, 13, 19)] + [0, 40],
            ["paragraph"],
        ),
        space(
            "gaps", everything, [2], [1, 4, 7, 12, "inf"], ["paragraph", "item", "setext"],
            ("  ", "\t", " \t", "\t\t", "\u00a0", "\u3000", " \u00a0", "\u00a0 ", "\x0b", " \n", "\\\n"),
        ),
        space("atoms-3", everything, [3], [6], ["paragraph"]),
        space("core-3", core, [3], [1, 3, 8, 13, "inf"], ["paragraph", "quote", "atx"]),
        FuncSpace(
            "long", lambda: long_cases(everything, 1, 12, list(range(1, 60)), containers),
            long_run, "every atom 12 times in a row; nontrivial: reformatting changes the text",
        ),
        FuncSpace(
            "long-2", lambda: long_cases(everything, 2, 6, [9, 31], ["paragraph"]),
            long_run, "every two atoms 6 times in a row; nontrivial: reformatting changes the text",
        ),
        FuncSpace(
            "lengths", length_cases, run,
            "inline code with markers of up to 12 backticks around others, destinations, titles, "
            "texts and labels of links of up to 257 characters or words",
        ),
        FuncSpace(
            "characters", character_cases, run,
            f"each of {len(CHARACTERS)} characters in {len(FORMS)} places of links and code",
        ),
        FuncSpace(
            "lone", lone_cases, run,
            "every two atoms around backticks that are never closed",
        ),
        FuncSpace("known", known_cases, run, "known findings"),
    ]
    if tier == "thorough":
        result += [
            space("atoms-3-more", everything, [3], [1, 9, 15, "inf"], containers),
            space("core-4", core, [4], [4, 10, "inf"], ["paragraph", "item"]),
        ]
    return result
