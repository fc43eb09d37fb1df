"""The command line rewrites exactly what it says it does

A state is a tree of files, a transition a run of the command line.  A model predicts the
successor, the exit status and the messages; each transition is taken for real and compared.
"""

import itertools
import os

from .. import cli, gen
from ..engine import FuncSpace

LEVEL = "model_checking"
ASSUMPTIONS = [
    "runs take place in copies of a process that has loaded the code; a sample of them is "
    "repeated with `python -m markflow`",
    "standard output is wide enough for each message",
    "output directories don't get two files of one name",
]

KINDS = {
    "tidy": b"# a\n",
    "heading": b"#a  \n",
    "wrapping": b"Lorem ip\ndolor sit\n\n* a b c d\n",
    "wrapped": b"Lorem ip dolor sit\n",
    "narrow": b"ab\nc d\n",
    "windows": b"# a\r\n",
    "old-mac": b"a b\r\r- c\r",
    "empty": b"",
    "newline": b"\n",
    "no-end": b"a b",
    "more-ends": b"a b\n\n\n",
    "unicode": "ü b  \n\u2028 c\n".encode(),
    "code": b"```\na  b\n```\n",
    "definition": b"[l]: /u 't t'\n* [l]\n",
    "mark": "\ufeff#a\n".encode(),
    "lead": b"\n\n    code\n",
}


def edge(tree, command, r, real=False):
    """Take one transition; returns the state it leads to, or None if it was wrong"""
    root = cli.make(tree)
    outcome = (cli.run_process if real else cli.run)(cli.options(command), root)
    after = cli.tree_of(root)
    expected = cli.model(tree, command)
    wrong = cli.compare(expected, outcome, after)
    r.transition()
    r.validate()
    r.outcome((outcome.status, cli.messages_of(outcome.out), sorted(after.items())))
    if expected.tree != tree or expected.ok != 0:
        r.interesting()
    for kind, detail in wrong:
        r.violation(kind, command=command, argv=cli.options(command), detail=detail)
    return None if wrong else after


def tree_with(a, b):
    tree = {"a.md": KINDS[a], "d": None, "d/b.md": KINDS[b], "out": None, "keep.md": b"*k\n"}
    # Nothing else is touched, whatever it's called
    for near in ("a.md~", "a.md.bak", "a.md.tmp", "a.tmp", ".a.md", ".a.md.swp", "a", "d/b.md.tmp",
                 "d/.b.md.tmp", "d/b.tmp", "out/a.md.tmp", "y.tmp", "out/x.md.tmp"):
        tree[near] = b"*n\n"
    return tree


PATHS = [["a.md"], ["d/b.md"], ["a.md", "d/b.md"], ["d/b.md", "a.md"], ["d"], ["d", "a.md"],
         ["a.md", "a.md"], ["./a.md", "d//b.md"]]


def commands(widths, paths, checks=(False, True), targets=("place", "dir", "files")):
    for check, w, ps, target in itertools.product(checks, widths, paths, targets):
        command = {"check": check, "width": w, "paths": ps}
        if target == "dir":
            if ps == ["a.md", "a.md"]:
                continue
            command["outdir"] = "out"
        elif target == "files":
            if ps == ["a.md", "a.md"]:
                command["outfiles"] = ["x.md", "y"]
            else:
                command["outfiles"] = ["out/x.md", "y"][: len(ps)]
        yield command


# --- One run --------------------------------------------------------------------------


def single_run(case, r):
    tree, command, real = case
    start = tree_with(*tree)
    r.state(sorted(cli.with_directories(start).items()))
    edge(start, command, r, real)


def single_cases(pairs, widths, paths, real=False):
    for pair in pairs:
        for command in commands(widths, paths):
            yield [list(pair), command, real]


# --- Three files ----------------------------------------------------------------------


def many_run(case, r):
    kinds, command = case
    tree = {f"{i}.md": KINDS[kind] for i, kind in enumerate(kinds)}
    tree["keep.md"] = b"*k\n"
    r.state(sorted(tree.items()))
    edge(tree, dict(command, paths=[f"{i}.md" for i in range(len(kinds))]), r)


def many_cases(kinds, n):
    for chosen in itertools.product(kinds, repeat=n):
        for check in (False, True):
            for w in (None, 4):
                yield [list(chosen), {"check": check, "width": w}]


def number_run(case, r):
    """Many files"""
    kinds, n, by_directory, check, w = case
    tree = {f"d/{i:03}.md": KINDS[kinds[i % len(kinds)]] for i in range(n)}
    tree["d/keep.txt"] = b"*k\n"
    paths = ["d"] if by_directory else [f"d/{i:03}.md" for i in range(n)]
    r.state(sorted(tree.items()))
    edge(tree, {"check": check, "width": w, "paths": paths}, r)


def number_cases(numbers):
    for n in numbers:
        for kinds in (["tidy"], ["heading"], ["windows", "tidy"], ["tidy", "tidy", "wrapping"]):
            for by_directory, check, w in itertools.product(
                (False, True), (False, True), (None, 4)
            ):
                yield [kinds, n, by_directory, check, w]


def sized_run(case, r):
    """Large files"""
    sizes, command = case
    tree = {f"{i}.md": gen.sized(*size).encode() for i, size in enumerate(sizes)}
    tree["out"] = None
    r.state(case)
    edge(tree, dict(command, paths=list(f"{i}.md" for i in range(len(sizes)))), r)


def sized_cases():
    for size in gen.sizes():
        if size[3] < 5:
            for check in (False, True):
                yield [[size], {"check": check, "width": None}]
            yield [[size, [100, "y", "\n", 1, "c  d"]], {"check": False, "width": 2}]
            yield [[size], {"check": False, "width": None, "outdir": "out"}]


# --- Histories ------------------------------------------------------------------------


def history_run(case, r):
    """All states reachable in some number of runs, and all runs from each of them"""
    kinds, alphabet, depth = case
    start = cli.with_directories(tree_with(*kinds))
    seen = {repr(sorted(start.items()))}
    frontier = [start]
    for _ in range(depth):
        following = []
        for tree in frontier:
            r.state(sorted(tree.items()))
            for command in HISTORIES[alphabet]():
                after = edge(tree, command, r)
                if after is None:
                    return
                key = repr(sorted(after.items()))
                if key not in seen:
                    seen.add(key)
                    following.append(after)
        frontier = following
        if not frontier:
            r.count("closed")
            break
    for tree in frontier:
        r.state(sorted(tree.items()))


HISTORIES = {
    "place": lambda: commands([None, 4, 0], [["a.md"], ["a.md", "d/b.md"], ["."]],
                              targets=("place",)),
    "all": lambda: commands([None, 5], [["a.md"], ["d", "a.md"]]),
}


# --- Names ----------------------------------------------------------------------------

NAMES = [
    "_a_.md", "*b*.md", "**c**.md", "<d>.md", "&amp;.md", "[l](u).md", "`x`.md", "\\*.md",
    "a\\", "~~s~~", "x!", "=", "1. x.md", "é.md", "#", "h #", "a_b_c.md", ":smile:.md",
    "[bold]x[_bold].md", "a b.md", "README", "x.txt", ".hidden", "-- x",
]


def name_run(case, r):
    names, check = case
    tree = {f"n/{name}": KINDS["heading"] for name in names}
    r.state(sorted(tree.items()))
    edge(tree, {"check": check, "paths": [f"n/{name}" for name in names]}, r)


def name_target_run(case, r):
    """Output directories and files for every name"""
    name, content, target, check = case
    tree = {f"n/{name}": KINDS[content], f"n/o/{name}": KINDS["narrow"], "m": None,
            f"o/{name}": KINDS["narrow"]}
    command = {"check": check, "paths": [f"n/{name}"]}
    if target.startswith("file:"):
        command["outfiles"] = [target[5:] + name]
    else:
        command["outdir"] = target
    r.state((sorted(tree), command))
    edge(tree, command, r)


def name_target_cases():
    for name in NAMES:
        for content in ("heading", "tidy", "windows"):
            for target in ("m", "o", "n", "./n/", "n/o", ".", "file:m/", "file:m/x", "file:n/",
                           "file:o/"):
                for check in (False, True):
                    yield [name, content, target, check]


def name_cases(n):
    for names in itertools.permutations(NAMES, n):
        for check in (False, True):
            yield [list(names), check]


def spaces(tier):
    thorough = tier == "thorough"
    names = list(KINDS)
    pairs = list(itertools.product(names, repeat=2))
    same = [(k, "tidy") for k in names]
    result = [
        FuncSpace(
            "single", lambda: single_cases(same, [None, 1, 4, 0, -3, 88, 7], PATHS),
            single_run,
            f"each of the contents {names} next to a tidy file with every combination of "
            "line length, check, paths and target; nontrivial: something is rewritten or "
            "the status isn't 0",
        ),
        FuncSpace(
            "pairs", lambda: single_cases(
                pairs, [None, 4], [["a.md", "d/b.md"], ["d", "a.md"]]
            ), single_run,
            "every two contents; nontrivial: as single",
        ),
        FuncSpace(
            "triples", lambda: many_cases(["tidy", "heading", "wrapping", "windows"], 3),
            many_run, "every three of four contents; nontrivial: as single",
        ),
        FuncSpace(
            "histories",
            lambda: ([[a, b], "place", 3] for a in ("wrapping", "heading", "windows")
                     for b in ("narrow", "empty")),
            history_run,
            "every history of up to 3 runs in place; nontrivial: as single",
        ),
        FuncSpace(
            "histories-targets",
            lambda: ([[a, b], "all", 2] for a in ("wrapping", "windows")
                     for b in ("tidy",)),
            history_run,
            "every history of up to 2 runs with targets; nontrivial: as single",
        ),
        FuncSpace("names", lambda: name_cases(1), name_run,
                  f"the names {NAMES}; nontrivial: as single"),
        FuncSpace("name-targets", name_target_cases, name_target_run,
                  "each of the names with targets next to, above, below and at the same "
                  "place; nontrivial: as single"),
        FuncSpace("name-pairs", lambda: name_cases(2), name_run,
                  "every two of the names; nontrivial: as single"),
        FuncSpace(
            "real", lambda: single_cases(
                [("heading", "windows"), ("tidy", "wrapping")], [None, 4],
                [["a.md"], ["d", "a.md"]], True,
            ), single_run,
            "runs of `python -m markflow`; nontrivial: as single",
        ),
    ]
    result.append(
        FuncSpace(
            "numbers", lambda: number_cases([*range(1, 13), 40, 101, 255, 256, 257, 512]),
            number_run, "up to 512 files; nontrivial: as single",
        )
    )
    result.append(
        FuncSpace(
            "sizes", sized_cases, sized_run,
            "files of more than 4, 8, 64 and 128 KB; nontrivial: as single",
        )
    )
    if thorough:
        result += [
            FuncSpace(
                "pairs-more", lambda: single_cases(pairs, [None, 1, 4, 0, 7], PATHS),
                single_run, "every two contents; nontrivial: as single",
            ),
            FuncSpace(
                "quadruples",
                lambda: many_cases(
                    ["tidy", "heading", "wrapping", "windows", "empty", "unicode"], 4
                ),
                many_run, "every four of six contents; nontrivial: as single",
            ),
            FuncSpace(
                "histories-more",
                lambda: ([[a, b], k, 4] for a in names
                         for b in ("narrow", "empty", "old-mac") for k in HISTORIES),
                history_run,
                "every history of up to 4 runs; nontrivial: as single",
            ),
            FuncSpace(
                "real-more", lambda: single_cases(same, [None, 4], PATHS[:3], True),
                single_run, "runs of `python -m markflow`; nontrivial: as single",
            ),
        ]
    for space in result:
        space.cpu_seconds = 600
    return result
