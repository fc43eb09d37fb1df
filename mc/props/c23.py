"""Library, file and standard-input modes agree on every line-end style"""

import itertools
import re

from .. import blocks as B
from .. import cli, gen
from ..engine import FuncSpace
from ..oracle import call

LEVEL = "model_checking"
ASSUMPTIONS = [
    "text is encoded as UTF-8",
    "runs take place in copies of a process that has loaded the code; a sample of them is "
    "repeated with `python -m markflow`",
]
ENDS = ["\n", "\r\n", "\r"]
OTHERS = ["\x0b", "\x0c", "\x1c", "\x1d", "\x1e", "\x1f", "\x85", "\u2028", "\u2029", "\0",
          "\ufeff", "\xa0"]


def normalised(text):
    return text.replace("\r\n", "\n").replace("\r", "\n")


def with_ends(lines, ends):
    return "".join(line + end for line, end in zip(lines, ends))


# --- Library --------------------------------------------------------------------------


def library_run(case, r):
    """Every assignment of line ends gives the same"""
    lines, w = case
    reference = {}
    for ends in itertools.product(ENDS, repeat=len(lines)):
        text = with_ends(lines, ends)
        plain = normalised(text)
        if plain not in reference:
            reference[plain] = call(plain, w, r)
        outcome = call(text, w, r)
        r.validate()
        if outcome != reference[plain]:
            r.violation("differs", text=text, expected=reference[plain], outcome=outcome)
        if "\r" in outcome[1] and outcome[0] == "ok":
            r.violation("carriage-return", text=text, outcome=outcome)
    r.interesting()


def library_cases(kinds, n, widths):
    for lines in itertools.product(kinds, repeat=n):
        for w in widths:
            yield [list(lines), w]


def styles(lines):
    yield "\r\n".join(lines) + "\r\n"
    yield "\r".join(lines) + "\r"
    yield "\r\n".join(lines)
    yield "\r".join(lines)
    for first in range(3):
        yield with_ends(lines, [ENDS[(i + first) % 3] for i in range(len(lines))])
    for odd in range(len(lines)):
        for usual, other in itertools.permutations(ENDS, 2):
            yield with_ends(
                lines, [other if i == odd else usual for i in range(len(lines))]
            )


def block_run(case, r):
    name, w = case
    reference = {}
    for text in styles(B.lines_of(name)):
        plain = normalised(text)
        if plain not in reference:
            reference[plain] = call(plain, w, r)
        outcome = call(text, w, r)
        r.validate()
        if outcome != reference[plain]:
            r.violation("differs", text=text, expected=reference[plain], outcome=outcome)
    r.interesting()


# --- Modes ----------------------------------------------------------------------------

MODES = ["file", "file-check", "stdin", "stdin-check", "file-to"]


def mode_run(case, r):
    text, w, mode, real = case
    run = cli.run_process if real else cli.run
    data = text.encode("utf-8")
    library = call(normalised(text), w if w is None or w > 0 else "inf") if w is not None \
        else call(normalised(text), 88)
    r.state(case)
    options = [] if w is None else ["--line-length", str(w)]
    if mode.endswith("-check"):
        options.append("--check")
    tree = {"f.md": data}
    if mode == "file-to":
        options += ["--output-file", "to.md"]
    if mode.startswith("file"):
        root = cli.make(tree)
        outcome = run(options + ["f.md"], root)
    else:
        root = cli.make({})
        outcome = run(options, root, data)
        tree = {}
    after = cli.tree_of(root)
    r.transition()
    r.validate()
    r.outcome((outcome.status, outcome.out, sorted(after.items())))

    def report(kind, **detail):
        r.violation(kind, mode=mode, text=text, width=w, outcome=repr(outcome)[:600], **detail)

    if library[0] != "ok":
        r.interesting()
        if outcome.signal is not None or outcome.status == 0:
            report("status", library=library)
        if after != tree:
            report("files", after=repr(after))
        return
    result = library[1].encode("utf-8")
    changes = result != data
    if changes:
        r.interesting()
    status = int(changes) if mode.endswith("-check") else 0
    if outcome.signal is not None or outcome.status != status:
        report("status", expected=status)
    if mode == "file":
        tree["f.md"] = result
    elif mode == "file-to":
        tree["to.md"] = result
    if after != tree:
        report("files", expected=repr(tree), after=repr(after))
    if mode == "stdin" and outcome.out != result:
        report("output", expected=repr(result))
    if mode == "stdin-check":
        message = "STDIN would be " + ("reformatted." if changes else "unchanged.")
        if cli.messages_of(outcome.out) != [message]:
            report("message", expected=message)
    if outcome.err:
        report("stderr")


def mode_cases(texts, widths, modes=MODES, real=False):
    for text in texts:
        for w in widths:
            for mode in modes:
                yield [text, w, mode, real]


def sized_run(case, r):
    size, mode = case
    mode_run([gen.sized(*size), None, mode, False], r)


def styled(names):
    for name in names:
        lines = B.lines_of(name)
        for end in ENDS:
            yield end.join(lines) + end
        yield "\r\n".join(lines)
        yield with_ends(lines, [ENDS[(i + 1) % 3] for i in range(len(lines))])


def tidy(names, w):
    """Texts that need nothing but their line ends changed"""
    for name in names:
        kind, out = call(B.text_of(name), w)
        if kind == "ok":
            lines = out[:-1].split("\n")
            for end in ENDS:
                yield end.join(lines) + end
            yield "\n".join(lines)
            yield out + "\n"
            yield out + "\r\n"
            yield with_ends(lines, ["\n"] * (len(lines) - 1) + ["\r\n"])
            yield with_ends(lines, ["\r\n"] + ["\n"] * (len(lines) - 1))


def assigned(lines):
    for ends in itertools.product(ENDS, repeat=len(lines)):
        yield with_ends(lines, ends)


SPECIAL = ["", "\n", "\r", "\r\n", " ", "\n\n\n", "\r\r", "a", "a\r", "\ufeff# a\n", "a\0b\n",
           "\u2028", "ü\r\n\u20ac", "\ud7ff\U0001f600\n", "%s %d {0} \\n\n", "a\x1b[1mb\n",
           "> a\n===\nb\n", "|a|\r\n|-|-|\r\n", "> " * 50 + "x\r\n", "[bold]x[/bold]\n"]


# --- Characters that don't end lines ---------------------------------------------------

# What follows the character would be something else at the start of a line
STARTS = ["# h", "- i", "* i", "1. n", "> q", "```", "~~~", "| t |", "---", "===", "[l]: /u", "",
          "    code", "text", "***"]


def other_run(case, r):
    c, start, construct, w = case
    before, after = CONSTRUCTS[construct]
    text = before + "ab" + c + start + after
    kind, out = call(text, w, r)
    r.validate()
    r.interesting()
    if kind != "ok":
        r.violation("refused", text=text, outcome=[kind, out])
        return

    def flat(s):
        return re.sub(f"[{re.escape(c)} ]+", " ", s)

    if construct in ("fence", "indented", "atx"):
        expected = text if construct != "atx" else None
        if expected is not None and out.rstrip("\n") != re.sub(r"\s*\n", "\n", expected).rstrip():
            r.violation("changed", text=text, output=out)
            return
    lines = out[:-1].split("\n")
    wanted = [line for line in text.split("\n") if line]
    if [flat(x).strip() for x in lines] != [flat(x).strip() for x in wanted]:
        r.violation("line-end", text=text, output=out)


CONSTRUCTS = {
    "paragraph": ("", "\n"),
    "atx": ("# ", "\n"),
    "item": ("* ", "\n"),
    "quote": ("> ", "\n"),
    "fence": ("```\n", "\n```\n"),
    "indented": ("    ", "\n"),
}


def other_cases():
    for c in OTHERS:
        for start in STARTS:
            for construct in CONSTRUCTS:
                if construct == "atx" and (not start.strip("#") or start.endswith("#")):
                    continue
                yield [c, start, construct, "inf"]


def spaces(tier):
    thorough = tier == "thorough"
    leaves = list(B.LEAVES)
    one = B.blocks(1)
    kinds = ["a", "", "# b ", "* c", "  d  ", "> e", "```", "    f", "---", "|g|", "[h]: /i", "1. j"]
    real = ["# a\r\n", "a  \rb\r", "a b\n", "\u2028\r\n"]
    changes = "nontrivial: the run changes something"
    every = "nontrivial: all"
    result = [
        FuncSpace(
            "lines-2", lambda: library_cases(gen.LINES, 2, [20]), library_run,
            "every two of the lines of mc/gen.py with every assignment of line ends; "
            + every,
        ),
        FuncSpace(
            "lines-3", lambda: library_cases(kinds, 3, [6, "inf"]), library_run,
            f"every three of the lines {kinds} with every assignment of line ends; {every}",
        ),
        FuncSpace(
            "blocks", lambda: ([n, w] for n in one for w in (9, "inf")), block_run,
            f"{len(one)} documents, with mixes of line ends; {every}",
        ),
        FuncSpace("other", other_cases, other_run,
                  f"each of {OTHERS} before each of {STARTS}; {every}"),
        FuncSpace("modes", lambda: mode_cases(styled(leaves), [None, 9]), mode_run,
                  f"each kind of block in each style of line ends in each mode; {changes}"),
        FuncSpace("modes-tidy", lambda: mode_cases(
                      tidy(B.CORE, 88), [None],
                      ["file", "file-check", "stdin", "stdin-check"]), mode_run,
                  f"tidy documents in each style of line ends in each mode; {changes}"),
        FuncSpace("modes-assigned",
                  lambda: mode_cases(assigned(["# a", "", "b"]), [None]), mode_run,
                  f"every assignment of line ends to a tidy document; {changes}"),
        FuncSpace("modes-special", lambda: mode_cases(SPECIAL, [None, 1, 0]), mode_run,
                  f"each of {SPECIAL}; {changes}"),
        FuncSpace("sizes", lambda: ([s, m] for s in gen.sizes() for m in MODES), sized_run,
                  "texts of more than 4, 8, 64 and 128 KB with the border at every character of "
                  f"a line; {changes}"),
        FuncSpace("real", lambda: mode_cases(real, [None], real=True), mode_run,
                  f"runs of `python -m markflow`; {changes}"),
    ]
    if thorough:
        result += [
            FuncSpace(
                "lines-3-more", lambda: library_cases(gen.LINES, 3, [14]), library_run,
                f"every three of the lines of mc/gen.py; {every}",
            ),
            FuncSpace(
                "lines-4", lambda: library_cases(kinds, 4, [8]), library_run,
                f"every four of the lines {kinds}; {every}",
            ),
            FuncSpace("blocks-2", lambda: ([n, 14] for n in B.blocks(2)), block_run,
                      f"documents nested twice, with mixes of line ends; {every}"),
            FuncSpace("modes-one", lambda: mode_cases(styled(one), [9]), mode_run,
                      f"each block in each style of line ends; {changes}"),
            FuncSpace("modes-assigned-more", lambda: mode_cases(
                          assigned(["> a", "", "b  ", "```", ""]), [None, 1]), mode_run,
                      f"every assignment of line ends to a document; {changes}"),
            FuncSpace("real-more", lambda: mode_cases(
                          list(styled(["atx", "fence", "para"])) + SPECIAL, [None],
                          real=True), mode_run,
                      f"runs of `python -m markflow`; {changes}"),
        ]
    return result
