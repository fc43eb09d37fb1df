"""The rendered document does not change"""

import itertools
import re

from .. import blocks as B
from .. import blockspaces as S
from .. import tour
from ..engine import FuncSpace
from ..oracle import call, rendering_differs

LEVEL = "model_checking"
ASSUMPTIONS = [
    "what a document means is what markdown-it-py and commonmark.py agree on; only the "
    "former knows tables",
    "documents are built from the blocks of mc/blocks.py",
]


def judge(text, w, r, source=None):
    kind, out = call(text, w, r)
    r.validate()
    if kind != "ok":
        r.violation("refused", text=text, outcome=[kind, out])
        return
    if out != text:
        r.interesting()
    source = B.rendered_source(text if source is None else source)
    if rendering_differs(source, out, table="|" in text):
        r.violation("rendering", text=text, output=out)


def run(case, r):
    name, w = case
    judge(B.text_of(name), w, r)


KNOWN = ["*a<br>*.\n"]


MARKED = [
    "{} a b\n", "{} a\n   b\n", "{}\n", "{} {} a\n", "> {} a\n> b\n", "* {} a\n", "{} a\n{} b\n",
    "{} a\n\n{} b\n", "p\n\n{} a\n", "1. {} a\n", "{}  a\n", "# {} a\n",
    "p {} a\n", "* a {} b\n", "> p {} a\n",
]


def markers():
    for n in range(1, 13):
        for number in ("1" * n, "9" * n, "0" * n, "0" * (n - 1) + "7", "1" + "0" * (n - 1)):
            for end in (".", ")"):
                yield number + end
    yield from ["*", "-", "+", "**", "--", "++", "#", "##", "######", "#######", ">", "1", "a."]
    yield from ["1.1.", "-1.", "+1.", "1:", "\u0661.", "\u2022", "\u2013", "*.", "-.", "_", "~", "="]


def marked_cases(widths):
    for marker in markers():
        for template in MARKED:
            # Lists with a parenthesis aren't supported, and the dialect of what else
            # markers may mean is the README's
            if marker.endswith(")") and template != "p {} a\n":
                continue
            yield from ([template.replace("{}", marker), w] for w in widths)


# Paragraphs that aren't definitions as there is more on the line
ALMOST_DEFINITIONS = [
    "[a]: b c d", "[a]: /u 'x' y", "[a]: b \"c d", "[a]:b c", "[a]: <b c> d e", "[a]: <b c d",
    "[a]: [b](c) d e", "[a\\]b]: c d e", "[a b c]: d e f", "[a\\]: b c d",
    "[a]: /u 'x y' y z", "[a]: /u (x y) y z", "[a]: /u \"x \\\" y\" y z", "[a]: `b c` d",
    "[a]: b<br>c d", "[a]: b\\ c d", "[a]: b 'c'd e", "[a]: [c] d e", "[a]: [c][d] e f",
    "[a]: b 1. c d", "[a]: b (c (d) e) f", "\\[a]: b c d", "[a] : b c d", "[]: b c d",
    "[a]: /u 'x' 'y' z", "[a]: <> b c", "[ ]: b c d", "*[a]: b c d*", "x [a]: b c d",
    "-- -- a", "-- a", "** ** a", "_ _ a", "__ __ a", "-- b -- a", "= = a", "== a", "x  \n== a",
    "x<br>\n-- a", "-- --<br>a", "[a]: /u 'x' y\nz'", "[a]: /u 'x' y\nz 'q'", "[a]: /u 'x\ny' z\nq'",
    "[a]: /u\n'x' y z", "[a]: /u\n'x\ny' z", "[a]:\nb c d", "[a]: <b\nc> d e", "[a]: b 'c\n\nd' e",
    "a 1) b c", "a (1) b 1) c", "a 2) b 10) c", "a 1) 1. b", "a 1) - 1. c", "a 1) # c", "a b\\\\\\\nc", "a b\\\\\nc", "a `b\\` c\\\nd",
    "[a]: b c d.", "[a]: b c d:", "[a]: b c d \\\\x.",
    *(
        f"[{label * n}]: b c d"
        for label in ("a", "a b ") for n in (2, 5, 10, 11, 30, 50, 64, 100, 128, 249)
    ),
    *("[a]: " + "b" * n + " c d" for n in (10, 30, 64, 100, 256)),
    *("[a]: /u '" + "b " * n + "' y" for n in (10, 30, 128)),
    "a 0. b 00. c 1. d", "a 1.) b +1 c -1. d", "a 1. 2. b 3.\\\nc",
]
AROUND = ["{}\n", "{}\n===\n", "* {}\n", "1. {}\n", "> {}\n", "> * {}\n", "p\n\n{}\n\np\n",
          "[a]\n\n{}\n"]


def almost_cases(widths):
    for text in ALMOST_DEFINITIONS:
        for around in AROUND:
            # Where a text is a list entry the new line of a hard line break has to be indented
            indent = around.partition("{}")[0].rpartition("\n")[2]
            indent = "".join(" " if c in "*1. " else c for c in indent)
            if "\n\n" in text and indent:
                continue
            lines = text.replace("\n", "\n" + indent)
            yield from ([around.replace("{}", lines), w] for w in widths)


# --- Lines ----------------------------------------------------------------------------

LINES = [
    "", "\t", "a", "b c", "   d", "e  ", "f\\", "g<br>h", "`d", "`` r", "*e*", "'w'", "`i` j  ",
    "v&lt;", "!", "1.x", "-y", "    s", "      t", "\tu", "\t* f", "    ---", "    * f", "    > h",
    "    # g", "# n", "## p ##", "#", "  # g", "---", "- - -", "  * * *", "-- -", "===", " ==", "=",
    "--", "***", "___ _", "```", "~~~", "~~~~ q", "```` x`", "> k", ">l", ">", "> > m", "  > h",
    "> ---", "> # o", ">     s", ">    v", ">\tt", "> ```", "> n  ", "> * m", "* i", "*", "- x", "+ y", "1. u",
    "  * w", "  j", "    * i", "* > o", "* ```", "* # p", "1. * q", "[z]: /u", "[z]: /v 'w'", "[y]",
    "[z]: /u w x", "|a|b|\n|-|-|", "|a|\n|:-:|\n|c|",
]
CORE_LINES = [
    "", "a", "e  ", "    s", "# n", "---", "- - -", "===", "```", "> k", ">l", "> > m", "* i", "1. u",
    "  j", "[z]: /u", "    * f",
]
MARKER = re.compile(r" {0,3}([*+-]|1\.)( +|$)")
BREAK = re.compile(r" {0,3}([*_-])([ \t]*\1){2,}[ \t]*$")
FENCE = re.compile(r" {0,3}(```+(?=[^`]*$)|~~~+)")
QUOTE = re.compile(r"( {0,3}> ?)+")


def only(line, characters):
    return bool(line.strip()) and not line.strip(characters)


class Reader:
    """Reads lines as long as MarkFlow's dialect means what CommonMark does by them

    What the dialect differs in is listed under "Deviations" in DESIGN.md.
    """

    def __init__(self):
        self.fence = ""  # The open fence, outside of containers
        self.blank()

    def blank(self):
        self.entry = ""  # The marker of the list we are in
        self.text = False  # Does its last entry consist of plain text?
        self.depth = 0  # How many quotes we are in
        self.table = False
        self.paragraph = False  # Is there text directly before?
        self.hard = False  # Did that end with a hard line break?
        self.dashes = False  # Is it one or two dashes?

    def read(self, line):
        """Does the line continue a document both understand?"""
        if self.fence:
            if only(line, " " + self.fence[0]) and self.fence in line:
                # Documented: closing fences may be indented by more
                if line.startswith(" "):
                    return False
                self.fence = ""
                self.blank()
            return True
        if not line.strip():
            # Documented: lists end at blank lines
            after_list = self.entry and (self.text or self.entry == "ended")
            if self.entry and not after_list:
                return False
            self.blank()
            self.entry = "ended" if after_list else ""
            return True
        if self.entry == "ended":
            if line.startswith(("  ", "\t")):
                return False
            self.entry = ""
        marker = not BREAK.match(line) and MARKER.match(line)
        if self.entry and not self.in_list(line, marker):
            return False
        if self.depth and not self.in_quote(line):
            return False
        # Text after a hard line break is a section of its own
        if self.hard and (only(line, " =") or marker and marker.end() == len(line)):
            return False
        # Documented: tables end at blank lines
        if self.table or line.startswith("|") and (self.paragraph or self.depth):
            return False
        # Documented: text of dashes isn't underlined by dashes. Parsers disagree about
        # definitions that are.
        if self.dashes and only(line, " -"):
            return False

        quote = QUOTE.match(line)
        if marker:
            self.blank()
            self.entry = line[: marker.end(1)]
            self.text = line[marker.end() :].isalpha()
        elif quote:
            self.depth = max(self.depth, quote.group().count(">"))
            marker = MARKER.match(line, quote.end())
            if marker and not BREAK.match(line[quote.end() :]):
                self.entry = line[: marker.end(1)]
                self.text = line[marker.end() :].isalpha()
        elif FENCE.match(line):
            self.fence = FENCE.match(line).group(1)
        self.table = line.startswith("|")
        self.dashes = only(line, " -") and len(line.strip()) < 3 or line.startswith("[z]")
        self.hard = line.endswith(("  ", "\\")) or self.hard
        self.paragraph = True
        return True

    def in_list(self, line, marker):
        if marker:
            return self.text and line[: marker.end(1)] == self.entry
        return self.text and (line[:1].isalpha() or line == "  j" and len(self.entry) == 1)

    def in_quote(self, line):
        # Documented: text that goes on without marker and is underlined is a heading
        quote = QUOTE.match(line)
        if only(line[quote.end() if quote else 0 :], " =-"):
            return bool(quote) and quote.group().count(">") >= self.depth
        return True


def supported(lines):
    reader = Reader()
    return all(reader.read(line) for line in lines)


def line_cases(alphabet, depth, widths, min_depth=1):
    for n in range(min_depth, depth + 1):
        for lines in itertools.product(alphabet, repeat=n):
            if supported(lines):
                yield from (["\n".join(lines) + "\n", w] for w in widths)


# Other checks' spaces that are within the dialect
TOUR = {
    "c05": ["core-3", "long"],
    "c06": ["atoms-2-widths", "core-3"],
    "c09": ["content-nested", "indented-chunks", "long"],
    "c10": ["2-columns-3-rows", "containers", "large"],
    "c11": ["deep-trees", "items", "items-3", "hundreds", "digits"],
    "c12": ["atx-lengths", "setext-lengths"],
    "c13": ["lengths", "underlines", "not-breaks"],
    "c14": ["parts", "spacing-contexts", "not-definitions", "long"],
    "c15": ["leaves-2", "lazy", "nests"],
    "c16": ["deep-core", "repeated-2"],
}


def run_known(case, r):
    text, w = case
    judge(text, w, r)


def run_tour(case, r):
    # Lists with parentheses aren't part of the dialect
    if not PARENTHESES.match(case[0]):
        run_known(case, r)


PARENTHESES = re.compile(r"\d{1,9}\)(?: |\n)")


def spaces(tier):
    what = "reformatting changes the text"
    leaves = list(B.LEAVES)
    widths = [1, 2, 3, 4, 5, 6, 7, 8, 10, 13, 16, 20, 25, 30, 40, 60, 88, "inf"]
    one = B.blocks(1)
    result = [
        S.singles("blocks", run, 2, widths, what=what),
        S.sequences("pairs", run, [leaves, leaves], [3, 9, 20, "inf"], (1, 2), what=what),
        S.sequences("block-core", run, [one, B.CORE], [12], what=what),
        S.sequences("core-block", run, [B.CORE, one], [12], what=what),
        S.sequences("triples", run, [B.CORE] * 3, [12], what=what),
        S.repeated("repeated", run, leaves, 1, [4, 12], [6, 21, "inf"], what=what),
        S.repeated("repeated-2", run, B.CORE, 2, [5], [10, 88], what=what),
    ]
    result.append(
        FuncSpace("known", lambda: ([t, 88] for t in KNOWN), run_known, "known findings")
    )
    result.append(
        FuncSpace(
            "markers", lambda: marked_cases([1, 4, 12, 20, 88, "inf"]), run_known,
            f"everything like a list marker in {len(MARKED)} places; nontrivial: {what}",
        )
    )
    result.append(
        FuncSpace(
            "almost", lambda: almost_cases([*range(1, 21), 40, "inf"]), run_known,
            f"{len(ALMOST_DEFINITIONS)} paragraphs with a beginning that would be a definition, a "
            f"break, or an underline by itself in {len(AROUND)} places; nontrivial: {what}",
        )
    )

    def lines(name, *args):
        return FuncSpace(
            name, lambda: line_cases(*args), run_known,
            f"every up to {args[1]} of {len(args[0])} lines that mean the same in MarkFlow's "
            f"dialect at the line lengths {args[2]}; nontrivial: {what}",
        )

    result += [
        lines("lines", LINES, 2, [1, 4, 9, 88, "inf"]),
        lines("lines-3", LINES, 3, [5], 3),
        lines("core-lines", CORE_LINES, 4, [3]),
    ]
    result += tour.spaces(run_tour, "quick", what, wanted=TOUR)
    if tier == "thorough":
        result += [
            lines("lines-3-more", LINES, 3, [1, 2, 3, 8, 14, 88], 3),
            lines("core-lines-5", CORE_LINES, 5, [4], 5),
            lines("core-lines-4", CORE_LINES, 4, [1, 6, 88], 4),
            S.singles("blocks-3", run, 3, [5, 14, 88], what=what),
            S.sequences("blocks-pairs", run, [one, one], [14], what=what),
            S.sequences("quadruples", run, [B.CORE] * 4, [14], what=what),
        ]
    return result
