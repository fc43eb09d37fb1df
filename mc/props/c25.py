"""Messages go to standard error, according to the verbosity

Every combination of verbosity options is run and compared with the run without them and
with what the library logs for the same texts.
"""

import itertools
import logging
import re

from .. import cli
from ..engine import FuncSpace
from ..logs import enabled
from ..oracle import call

LEVEL = "model_checking"
ASSUMPTIONS = [
    "messages are told apart by the names of levels in front of them",
    "messages of other libraries (markdown-it logs the rules it enters) don't count",
]
LEVELS = [logging.DEBUG, logging.INFO, logging.WARNING, logging.ERROR, logging.CRITICAL]

CONTENTS = {
    "tidy": "# a\n",
    "tightatx": "#a  \n\nw [bold]x[/bold]\n",
    "nested": "> #a\n\n* b\n  #c\n",
    "overfence": "p\n\n~~~\na\n     ~~~\n",
    "definition": "[l]:\n\n[m]: /u\n",
    "inserted": "> q\nh\n===\n",
    "empty": "",
    "mix": "#a\n\n> #b\nh\n===\n\n|a|\n|-|\n\n    c\n\n1. x\n",
    "windows": "#a\r\n",
}
BAD = {
    "table": "#a\n\n|a|\n|-|\n|b|c|\n\n#d\n",
    "delimiter": "|a|\n",
    "nested-table": "#a\n\n* #b\n* |\n",
    "inconsistent": "#a\n\n> a\n===\nb\n",
}
EVERYTHING = {**CONTENTS, **BAD}

LINE = re.compile(
    r"^(?:\[[^\]]*\])?\s+(DEBUG|INFO|WARNING|ERROR|CRITICAL)\s+(.*?)(?:\s+(\S+\.py):\d+)?\s*$"
)
# What the command line tells developers about itself isn't specified
COMMAND_LINE = ["__main__.py", "_argparse.py"]


def plain(message):
    return " ".join(message.split())


def shown(err):
    """Messages and what else there is"""
    messages, rest = [], []
    for line in err.decode("utf-8", "replace").split("\n"):
        match = LINE.match(line)
        if match:
            own = match.group(3) in COMMAND_LINE and match.group(1) in ("DEBUG", "INFO")
            if not own and not match.group(2).startswith("entering "):
                messages.append([match.group(1), plain(match.group(2))])
        elif line.strip():
            rest.append(line)
    return messages, rest


def logged(text, w, level):
    """The messages of the library, and what it says"""
    with enabled(logging.DEBUG) as capture:
        kind, out = call(text, 88 if w is None else w)
        records = capture.take()
    return kind, out, [
        [logging.getLevelName(no), plain(message)]
        for no, name, message in records
        if no >= level and name.split(".")[0] == "markflow"
    ]


def run(case, r):
    kinds, flags, mode, w = case
    tree, paths = {"out": None}, []
    options = [] if w is None else ["--line-length", str(w)]
    if mode.startswith("check"):
        options.append("--check")
    if mode in ("dir", "stdin-dir"):
        options += ["--output-dir", "out"]
    stdin = b""
    if mode.startswith("stdin"):
        (kind,) = kinds
        stdin = EVERYTHING[kind].encode()
    else:
        for i, kind in enumerate(kinds):
            # Not only in the directory a run starts in
            path = f"{i}.md" if mode != "file" or w else f"d {i}/e/{i}.md"
            paths.append(path)
            tree[path] = EVERYTHING[kind].encode()
    verbose, quiet = (sum(map(count, flags)) for count in COUNTS)
    level = LEVELS[max(0, min(4, 3 - verbose + quiet))]
    r.state(case)
    r.transition(2)
    outcomes = []
    for extra in ([], flags):
        root = cli.make(tree)
        # Options may stand before and after paths
        outcome = cli.run(extra[:1] + options + paths + extra[1:], root, stdin)
        outcomes.append((outcome.status, outcome.signal, outcome.out, cli.tree_of(root)))
        error = outcome.err
    r.outcome((outcomes[1], level))
    r.validate(2)

    def report(what, **detail):
        r.violation(what, options=flags + options, texts=[EVERYTHING[k] for k in kinds], **detail)

    if outcomes[0] != outcomes[1]:
        report("different", without=repr(outcomes[0]), outcome=repr(outcomes[1]))
    expected, reason = [], None
    if mode == "stdin-dir" and level <= logging.WARNING:
        expected.append(["WARNING", None])
    for i, kind in enumerate(kinds):
        outcome, out, messages = logged(EVERYTHING[kind], w, level)
        expected += messages
        if outcome != "ok":
            reason = out if not paths else f"{out} (file: {paths[i]})"
            if outcome == "refused-format" and level <= logging.ERROR:
                expected.append(["ERROR", plain(reason)])
            break
    if expected:
        r.interesting()
    messages, rest = shown(error)
    if mode == "stdin-dir" and expected and messages and expected[0][1] is None:
        expected[0][1] = messages[0][1]
    if messages != expected:
        report("messages", level=level, expected=expected, shown=messages)
    if reason and kind == "inconsistent":
        if reason not in "\n".join(rest):
            report("reason", reason=reason, rest=rest[-3:])
    elif rest:
        report("standard-error", rest=rest)


FLAGS = [
    [v * ["-v"] + q * ["-q"] for v in range(6) for q in range(5)],
    [["-vv"], ["-vvv"], ["-qq"], ["-q", "-v"], ["-v", "-q", "-v"], ["--verbose"],
     ["--quiet"], ["--verbose", "-v"], ["-vvq"], ["-qqqv"], ["-vvvvvvq"]],
]


COUNTS = [
    lambda flag: int(flag == "--verbose") or (flag.count("v") if flag[1] != "-" else 0),
    lambda flag: int(flag == "--quiet") or (flag.count("q") if flag[1] != "-" else 0),
]


def cases_of(kinds, flags, modes, widths):
    for k in kinds:
        for f in flags:
            for mode in modes:
                for w in widths:
                    yield [list(k), list(f), mode, w]


def spaces(tier):
    thorough = tier == "thorough"
    one = [[k] for k in EVERYTHING]
    some = [[], ["-v"], ["-v", "-v"], ["-v", "-v", "-v"], ["-q"], ["-q", "-q"]]
    pairs = list(itertools.product(
        EVERYTHING if thorough else ["tightatx", "nested", "mix", "table", "inconsistent"],
        repeat=2,
    ))
    nontrivial = "nontrivial: messages are expected"
    result = [
        FuncSpace(
            "options", lambda: cases_of([["mix"], ["table"]], FLAGS[0],
                                        ["file", "stdin"], [None]), run,
            f"every number of -v up to 5 and -q up to 4; {nontrivial}",
        ),
        FuncSpace(
            "spellings", lambda: cases_of([["mix"], ["table"]], FLAGS[1],
                                          ["file", "stdin"], [None]), run,
            f"spellings of options {FLAGS[1]}; {nontrivial}",
        ),
        FuncSpace(
            "texts", lambda: cases_of(one, some, ["file", "stdin", "check", "dir", "stdin-dir"],
                                      [None, 4]), run,
            f"each of {list(EVERYTHING)} in each mode at each level; {nontrivial}",
        ),
        FuncSpace(
            "pairs", lambda: cases_of(pairs, some[:4], ["file", "check", "dir"], [None]), run,
            f"every two texts; {nontrivial}",
        ),
    ]
    for s in result:
        s.cpu_seconds = 60
    return result
