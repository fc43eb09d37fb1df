"""Paragraph text is filled exactly to the line length

The reference is `layout`: it knows the atoms a text was put together from, so it does not
parse anything.
"""

import itertools

from ..engine import FuncSpace
from ..oracle import call, fill, letters

LEVEL = "model_checking"
ASSUMPTIONS = ["texts are put together from the atoms listed in mc/props/c05.py"]

# name: pieces a line may be broken between without there being a space
ATOMS = {
    "a": ["a"],
    "bb": ["bb"],
    "ccc": ["ccc,"],
    "dots": ["ee..."],
    "stop": ["g."],
    "mark": ["hh!?"],
    "paren": ["(ii)"],
    "colon": ["\"j\":"],
    "hyphen": ["k-ll"],
    "slash": ["/m/n"],
    "dddddd": ["dddddd"],
    "long": ["antidisestablishment"],
    "code": ["`x y`"],
    "codes": ["``x ` y``"],
    "gluedcode": ["p`q r`s`t`."],
    "link": ["[t](", "/u)"],
    "image": ["![i](", "/i.png)."],
    "title": ["[t](", "/u 'q r')"],
    "gluedlink": ["(v[t](", "/u),"],
    "emph": ["*e*"],
    "number": ["1.5"],
    "dash": ["-x"],
    "plus": ["a+b"],
    "nbsp": ["r\u00a0s"],
    "formfeed": ["t\x0cu"],
    "unicode": ["é\u4e2de\u0301\U0001f600\u200d\u200b\u00ad"],
    "br": ["<br>"],
    "brslash": ["<br />"],
    "brspace": ["<br >"],
    "gluedbr": ["x<br>", "y"],
    "gluedbrspace": ["x<br >", "y"],
    "linkbr": ["[t](", "/u)<br />"],
    "brlink": ["(z<br/>", "[t](", "/u)"],
    "hyphencode": ["l-`m n`"],
    "dotcode": ["`x`.`y z`"],
    "slashlink": ["/[t](", "/u)/p"],
    "emphlink": ["**[t](", "/u)**-q"],
    "two": ["2)"],
    "dotted": ["1.2."],
    # Words that would start something else at the beginning of a line
    "bullet": ["-"],
    "star": ["*"],
    "plusbullet": ["+"],
    "one": ["1."],
    "twelve": ["12."],
    "hash": ["#"],
    "hashword": ["#x"],
    "quote": [">"],
    "quoteword": [">x"],
    "parenthesis": ["1)"],
    "fence": ["~~~"],
    "equals": ["==="],
    "rule": ["---"],
    "bar": ["|x"],
    # A line ending in it would be a hard line break
    "backslash": ["f\\"],
    "backslashes": ["f\\\\"],
    "backslashes3": ["f\\\\\\"],
}
HAZARDS = {
    "bullet", "star", "plusbullet", "one", "twelve", "hash", "hashword", "quote",
    "quoteword", "fence", "equals", "rule", "bar", "parenthesis",
}
HARD = {"backslash", "backslashes3"}
BREAKS = {"br", "brslash", "brspace"}


def _ends(piece):
    return piece.endswith(("<br>", "<br />", "<br/>", "<br >"))


def layout(names, w):
    chunks = []
    for i, name in enumerate(names):
        for j, piece in enumerate(ATOMS[name]):
            space = i > 0 and not j
            previous = names[i - 1] if i else None
            if i and not j and (name in HAZARDS or previous in HARD):
                text, before, _ = chunks.pop()
                chunks.append((text + " " + piece, before, _ends(piece)))
            else:
                chunks.append((piece, space, _ends(piece)))
    return fill(chunks, w)


def valid(names):
    if names[0] in HAZARDS or names[0] in BREAKS or names[-1] in HARD:
        return False
    for a, b in zip(names, names[1:]):
        # What comes first there is not part of the property
        if a in BREAKS | {"linkbr"} and (b in HAZARDS or b in BREAKS):
            return False
        if a in ("rule", "equals") and b in HAZARDS:
            # Stay on one line, which then isn't a rule or an underline
            return False
        if a in HARD and b in BREAKS:
            return False
    return True


def source(names, breaks):
    text = "".join(ATOMS[names[0]])
    for i, name in enumerate(names[1:]):
        text += ("\n" if breaks >> i & 1 else " ") + "".join(ATOMS[name])
    return text


def breakable(names, breaks):
    for i, name in enumerate(names[1:]):
        if breaks >> i & 1 and (
            name in HAZARDS or name in BREAKS or names[i] in HARD
        ):
            return False
    return True


def run(case, r):
    names, breaks, w, form = case
    text = source(names, breaks)
    lines = layout(names, w if w != "inf" else float("inf"))
    if form in ("===", "---"):
        text += "\n" + form
        lines.append(form[0] * max(map(len, lines)))
    expected = "\n".join(lines) + "\n"
    kind, out = call(text + "\n", w, r)
    r.validate()
    if expected != text + "\n":
        r.interesting()
    if (kind, out) != ("ok", expected):
        r.violation("layout", text=text, expected=expected, outcome=[kind, out])


def cases_of(alphabet, n, widths, all_breaks, forms):
    for names in itertools.product(alphabet, repeat=n):
        if not valid(names):
            continue
        for breaks in range(2 ** (n - 1)) if all_breaks else (0,):
            if not breakable(names, breaks):
                continue
            for w in widths:
                for form in forms:
                    yield [list(names), breaks, w, form]


# --- Long texts -----------------------------------------------------------------------


def long_run(case, r):
    pattern, times, every, w, form = case
    names = pattern * times
    breaks = 0
    if every:
        breaks = sum(
            1 << i for i in range(every - 1, len(names) - 1, every)
            if breakable(names, 1 << i)
        )
    run([names, breaks, w, form], r)


def long_cases(alphabet, size, times, widths, everies, forms):
    for n in range(1, size + 1):
        for pattern in itertools.product(alphabet, repeat=n):
            if not valid(pattern * 2):
                continue
            for t, every, w, form in itertools.product(times, everies, widths, forms):
                yield [list(pattern), t, every, w, form]


# --- Beginnings -----------------------------------------------------------------------

# What can't be the first line of a paragraph, as pieces that may be on different lines
BEGINNINGS = {
    "dashes": ["--{}"],
    "dashes-2": ["-- --{}"],
    "dashes-dash": ["-- -{}"],
    "stars": ["**{}"],
    "bars": ["_{}"],
    "bars-2": ["_ _{}"],
    "equals": ["={}"],
    "equals-3": ["==={}"],
    "not-quite": ["--x", "{}"],
    "not-quite-equals": ["=x", "{}"],
    "definition": ["[l]:", "/d{}"],
    "definition-glued": ["[l]:/d{}"],
    "definition-words": ["[l", "m]:", "/d{}"],
    "definition-escape": ["[l\\]m]:", "/d{}"],
    "definition-angles": ["[l]:", "<d>{}"],
    "definition-angles-words": ["[l]:", "<d e>{}"],
    "definition-title": ["[l]:", "/d 't'{}"],
    "definition-title-words": ["[l]:", "/d \"t", "u\"{}"],
    "definition-parentheses": ["[l]:", "/d (t", "u){}"],
    "definition-no-title": ["[l]:", "/d \"t", "u", "{}"],
    "definition-glued-title": ["[l]:", "/d 't'u", "{}"],
    "definition-bracket": ["[l]: [d]{}"],
    "definition-code": ["[l]:", "`d e`", "{}"],
    "no-definition": ["[l]", "/d", "{}"],
    "no-definition-colon": ["[l]", ":", "/d", "{}"],
    "no-definition-later": ["a", "[l]:", "/d", "{}"],
    "no-definition-escape": ["\\[l]:", "/d", "{}"],
}
CONTAINERS = {"": ("", ""), "quote": ("> ", "> "), "entry": ("* ", "  ")}


def beginning_run(case, r):
    name, names, w, container = case
    chunks = []
    for piece in BEGINNINGS[name]:
        if piece == "{}":
            glue = False
        else:
            chunks.append((piece.replace("{}", ""), bool(chunks), False))
            glue = piece.endswith("{}")
    for i, atom in enumerate(names):
        for j, piece in enumerate(ATOMS[atom]):
            if glue and not i and not j:
                text, before, _ = chunks.pop()
                chunks.append((text + " " + piece, before, _ends(piece)))
            else:
                chunks.append((piece, not j, _ends(piece)))
    first, rest = CONTAINERS[container]
    text = first + " ".join(BEGINNINGS[name]).replace(" {}", "").replace("{}", "")
    text += "".join(" " + "".join(ATOMS[atom]) for atom in names) + "\n"
    lines = fill(chunks, w - len(first) if w != "inf" else float("inf"))
    expected = first + ("\n" + rest).join(lines) + "\n"
    kind, out = call(text, w, r)
    r.validate()
    if expected != text:
        r.interesting()
    if (kind, out) != ("ok", expected):
        r.violation("beginning", text=text, expected=expected, outcome=[kind, out])


def beginning_cases(alphabet, ns, widths):
    for name in BEGINNINGS:
        for n in ns:
            for names in itertools.product(alphabet, repeat=n):
                for container, w in itertools.product(CONTAINERS, widths):
                    if w == "inf" or w > len(CONTAINERS[container][0]):
                        yield [name, list(names), w, container]


def spaces(tier):
    everything = list(ATOMS)
    core = ["a", "bb", "dddddd", "code", "link", "br", "bullet", "one", "backslash",
            "gluedcode"]
    words = ["a", "bb", "ccc", "dddddd", "link"]

    def space(name, alphabet, ns, widths, all_breaks=False, forms=("",)):
        def cases():
            for n in ns:
                yield from cases_of(alphabet, n, widths, all_breaks, forms)

        return FuncSpace(
            name, cases, run,
            f"every sequence of {list(ns)} of {len(alphabet)} atoms at the line lengths "
            f"{widths}{', with every way to break lines' if all_breaks else ''}; "
            "nontrivial: the layout changes",
        )

    span = list(range(1, 25)) + [30, 88, 0, -3, "inf"]
    result = [
        space("atoms-2", everything, [1, 2], span, True, ("", "===", "---")),
        space("atoms-3", everything, [3], [1, 4, 6, 9, 13, 21], False),
        space("core-3", core, [3], span, True, ("", "===")),
        space("core-4", core, [4], [2, 5, 7, 8, 11, 16, "inf"]),
        space("words-5", words, [5], list(range(1, 24))),
        space("words-4-broken", words, [4], [3, 5, 7, 9, 12, 17, "inf"], True, ("", "---")),
        FuncSpace(
            "long",
            lambda: long_cases(
                everything, 2, [20], [11, 37, 80, 88, "inf"], [0, 7], ["", "==="]
            ),
            long_run, "every one or two atoms 20 times in a row; nontrivial: the layout changes",
        ),
        FuncSpace(
            "long-words",
            lambda: long_cases(words + ["code"], 3, [15], [*range(10, 91, 5), 120, 200], [5], [""]),
            long_run, "every one to three words 15 times in a row; nontrivial: the layout changes",
        ),
    ]
    result.append(
        FuncSpace(
            "beginnings",
            lambda: beginning_cases(
                ["a", "bb", "dddddd", "link", "code"], [1, 2, 3], [*range(1, 22), 88, "inf"]
            ),
            beginning_run,
            f"{len(BEGINNINGS)} beginnings of paragraphs that can't be a line of their own, "
            "or almost, in front of every one to three of five atoms in a paragraph, a block "
            "quote, and a list; nontrivial: the layout changes",
        )
    )
    if tier == "thorough":
        result += [
            space("atoms-3-more", everything, [3], span, True),
            space("core-4-more", core, [4], span),
            space("core-5", core, [5], [3, 6, 9, 12, 17]),
            space("words-6", words, [6], list(range(1, 28))),
            space("words-7", words, [7], [4, 8, 12, 19]),
        ]
    return result
