"""Failures and crashes never damage other files or go unnoticed

Crashes and failures are put at every system call a run makes for the files of its tree.
"""

import errno
import functools
import itertools

from .. import cli
from ..engine import FuncSpace
from ..faults import Faults, open_for_writing

LEVEL = "model_checking"
ASSUMPTIONS = [
    "a crash ends the process at a system call and loses no data that was written before "
    "(machines don't lose power)",
    "calls of C's library for files are those mc/faults.c knows",
]

GOOD = {
    "tidy": b"# a\n",
    "heading": b"#a  \n",
    "wrapping": b"Lorem ip\ndolor sit\n\n* a b c d\n",
    "windows": b"# a\r\n",
    "empty": b"",
    "large": b"Lorem ipsum dolor  \n" * 450,
}
BAD = {
    "table": b"# x \n|a|b|\n|-|-|\n|c|\n",
    "nested-table": b"* x\n* |\n",
    "inconsistent": b"> a\n===\nb\n",
    "binary": b"# x \n\xff\xfe\n",
    "deep": b"> " * 3000 + b"x\n",
}

# --- Files that are refused -----------------------------------------------------------


def refused_run(case, r):
    kinds, command = case
    tree = {"out": None, "keep.md": b"*k\n"}
    paths = []
    for i, kind in enumerate(kinds):
        path = f"{number(i, command, len(kinds))}.md"
        tree[path] = (GOOD if kind in GOOD else BAD)[kind]
        paths.append(path)
    command = dict(command, paths=paths)
    if command.get("outfiles"):
        command["outfiles"] = [f"out/{i}" for i in range(len(kinds))]
    r.state((tree, command))
    root = cli.make(tree)
    outcome = cli.run(cli.options(command), root)
    after = cli.tree_of(root)
    expected = cli.model(tree, command)
    r.transition()
    r.validate()
    r.outcome((outcome.status, sorted(after.items())))
    if expected.ok is None:
        r.interesting()
    if "--write-renders" in command.get("extra", []):
        for path in list(after):
            if path.endswith((".1.md", ".2.md", ".1", ".2")):
                del after[path]
    for kind, detail in cli.compare(expected, outcome, after):
        if kind in ("status", "files"):
            r.violation(kind, command=cli.options(command), detail=detail)


def number(i, command, n):
    """Files are in no particular order"""
    return n - 1 - i if command.get("backwards") else i


COMMANDS = [
    {}, {"check": True}, {"outdir": "out"}, {"outfiles": True}, {"width": 4},
    {"width": 0, "check": True}, {"extra": ["--write-renders"]},
    {"extra": ["--write-renders"], "outdir": "out"}, {"extra": ["-q", "-q"]},
    {"extra": ["-v", "-v"]}, {"backwards": True}, {"backwards": True, "outdir": "out"},
    {"backwards": True, "check": True},
]


def refused_cases(n, good):
    for size in range(1, n + 1):
        for kinds in itertools.product(good + list(BAD), repeat=size):
            if any(kind in BAD for kind in kinds):
                for command in COMMANDS:
                    yield [list(kinds), command]


def refused_directory_run(case, r):
    """Without knowing the order"""
    kinds, command = case
    tree = {"keep.md": b"*k\n", "d": None}
    for i, kind in enumerate(kinds):
        tree[f"d/{i}.md"] = (GOOD if kind in GOOD else BAD)[kind]
    command = dict(command, paths=["d"])
    r.state((tree, command))
    root = cli.make(tree)
    outcome = cli.run(cli.options(command), root)
    after = cli.tree_of(root)
    r.transition()
    r.validate()
    r.outcome((outcome.status, sorted(after.items())))
    r.interesting()
    if outcome.status == 0 or outcome.signal is not None:
        r.violation("status", command=cli.options(command), outcome=repr(outcome))
    for path in tree:
        allowed = [tree[path]]
        if path.startswith("d/") and not command.get("check"):
            allowed.append(cli.reformat(tree[path], command.get("width")))
        if after.get(path, 0) not in allowed or (tree[path] and after[path] is None):
            r.violation("files", path=path, content=repr(after.get(path, "absent")))


def refused_directory_cases(n):
    for kinds in itertools.product(["heading", "wrapping"] + list(BAD), repeat=n):
        if any(kind in BAD for kind in kinds):
            for command in ({}, {"check": True}):
                yield [list(kinds), command]


# --- Faults ---------------------------------------------------------------------------


@functools.lru_cache(maxsize=None)
def faults():
    return Faults()


def setting(kinds, target):
    tree = {"keep.md": b"*k\n"}
    paths = []
    for i, kind in enumerate(kinds):
        tree[f"{i}.md"] = GOOD[kind]
        paths.append(f"{i}.md")
    command = {"paths": paths, "width": 30}
    if target == "dir":
        tree["out"] = None
        tree["out/0.md"] = b"before\n"
        command["outdir"] = "out"
    elif target == "files":
        tree["0.new"] = b"before\n"
        command["outfiles"] = [f"{i}.new" for i in range(len(kinds))]
    elif target == "same":
        command["paths"] = paths + paths[:1]
    elif target == "check":
        command["check"] = True
    return tree, command


def faulty_run(case, r):
    """All faults of a kind at all calls of a run"""
    kinds, target, what = case
    tree, command = setting(kinds, target)
    argv = cli.options(command)
    expected = cli.model(tree, command)
    root = cli.make(tree)
    outcome = cli.run(argv, root, prepare=faults().plan())
    log = faults().log()
    r.transition()
    r.validate()
    for kind, detail in cli.compare(expected, outcome, cli.tree_of(root)):
        r.violation("without-fault-" + kind, argv=argv, detail=detail)
        return
    if target != "check" and not any(entry[1].startswith("open") for entry in log):
        raise AssertionError("the library for faults isn't effective")
    n = 0
    for number, call, detail, path in log:
        for mode, param, error in faults_of(what, call, detail):
            n += 1
            r.state((case, number, mode, param, error))
            root = cli.make(tree)
            prepare = faults().plan(mode, number, param, error)
            outcome = cli.run(argv, root, prepare=prepare)
            after = cli.tree_of(root)
            r.transition()
            r.validate()
            r.outcome((outcome.status, outcome.signal, sorted(after.items())))
            r.count(f"{mode} at {call}")
            fault = {"number": number, "call": call, "path": path, "mode": mode,
                     "param": param, "errno": error}

            def report(kind, **details):
                r.violation(kind, argv=argv, fault=fault, **details)

            if mode == "short" or error == errno.EINTR:
                for kind, wrong in cli.compare(expected, outcome, after):
                    report(kind, detail=wrong)
                continue
            exempt = open_for_writing(faults().log())
            if mode in ("kill", "kill-partial"):
                judge_crash(tree, command, expected, outcome, after, exempt, root, report)
            else:
                if call in ("write", "close", "open-write", "ftruncate", "rename", "link"):
                    exempt.add(path)
                judge_failure(
                    tree, command, expected, outcome, after, exempt, path, report
                )
    r.count("faults", n)
    if n:
        r.interesting()


def faults_of(what, call, detail):
    if what == "kill":
        yield "kill", 0, 0
    elif what == "torn" and call == "write":
        for n in sorted({0, 1, detail // 2, detail - 1}):
            if 0 <= n < detail:
                yield "kill-partial", n, 0
    elif what == "fail":
        errors = {
            "open-read": [errno.EACCES, errno.ENOENT, errno.EMFILE],
            "open-write": [errno.EACCES, errno.ENOSPC, errno.EROFS],
            "read": [errno.EIO],
            "write": [errno.ENOSPC, errno.EIO],
            "close": [errno.EIO],
        }.get(call, [errno.EIO])
        for error in errors:
            yield "fail", 0, error
        if call == "write":
            for n in sorted({0, 1, detail // 2, detail - 1}):
                if 0 < n < detail:
                    yield "fail-partial", n, errno.ENOSPC
    elif what == "transparent":
        if call in ("write", "read"):
            for n in sorted({1, detail // 2, detail - 1}):
                if 0 < n < detail:
                    yield "short", n, 0
        if call in ("write", "read", "open-read", "open-write"):
            yield "fail", 0, errno.EINTR


def old_or_new(tree, expected, after, exempt, report):
    """Each file has its complete old or its complete new content"""
    for path in sorted(set(tree) | set(expected.tree)):
        if path in exempt:
            continue
        allowed = [tree.get(path, "absent"), expected.tree.get(path, "absent")]
        if after.get(path, "absent") not in allowed:
            report("damaged", path=path, content=repr(after.get(path, "absent"))[:200])


def judge_crash(tree, command, expected, outcome, after, exempt, root, report):
    if outcome.signal is None:
        report("not-killed", outcome=repr(outcome))
    old_or_new(tree, expected, after, exempt, report)
    # Repeat the run. New temporary files may have been left behind.
    again = cli.run(cli.options(command), root)
    finished = cli.tree_of(root)
    known = {
        path: content
        for path, content in after.items()
        if path in tree or path in expected.tree
    }
    repeated = cli.model(known, command)
    if again.status != repeated.ok:
        report("repeated-status", expected=repeated.ok, outcome=repr(again))
    torn_inputs = exempt & set(command["paths"])
    for path, content in expected.tree.items():
        if path in torn_inputs:
            content = repeated.tree[path]
        elif any(path.rsplit("/", 1)[-1].split(".")[0] == t.split(".")[0]
                 for t in torn_inputs):
            continue
        if finished.get(path, "absent") != content:
            report("unfinished", path=path, content=repr(finished.get(path, "absent"))[:200])


def judge_failure(tree, command, expected, outcome, after, exempt, path, report):
    old_or_new(tree, expected, after, exempt, report)
    if path == "<stdout>":
        return
    if outcome.signal is not None or outcome.status == 0:
        report("unnoticed", outcome=repr(outcome))
    # Files are worked on in order
    targets = [
        (command.get("outfiles") or [])[i] if command.get("outfiles")
        else "out/" + source if command.get("outdir")
        else source
        for i, source in enumerate(command["paths"])
    ]
    at = [
        i for i, (source, t) in enumerate(zip(command["paths"], targets))
        if path in (source, t)
    ]
    if command.get("check") or not at or len(set(command["paths"])) < len(command["paths"]):
        return
    for i, t in enumerate(targets):
        if i < at[0] and after.get(t, "absent") != expected.tree.get(t):
            report("before-incomplete", path=t, content=repr(after.get(t, "absent"))[:200])
        if i > at[0] and after.get(t, "absent") != tree.get(t, "absent"):
            report("after-touched", path=t, content=repr(after.get(t, "absent"))[:200])


WHATS = ["kill", "torn", "fail", "transparent"]
TARGETS = ["place", "dir", "files", "same", "check"]


def faulty_cases(kinds, sizes, targets=TARGETS):
    for n in sizes:
        for chosen in itertools.product(kinds, repeat=n):
            for target in targets:
                for what in WHATS:
                    yield [list(chosen), target, what]


def spaces(tier):
    thorough = tier == "thorough"
    nontrivial = "nontrivial: there is a failure"
    result = [
        FuncSpace(
            "refused", lambda: refused_cases(2, ["tidy", "heading"]), refused_run,
            f"every list of up to 2 files, one of {list(BAD)} or more among good ones, with "
            f"each of the options {COMMANDS}; {nontrivial}",
        ),
        FuncSpace(
            "refused-3", lambda: (
                [list(k), c] for k in itertools.product(
                    ["heading", "wrapping", "table", "binary"], repeat=3)
                if set(k) & set(BAD) for c in COMMANDS[:4] + COMMANDS[-3:]
            ), refused_run, f"every list of 3 files; {nontrivial}",
        ),
        FuncSpace(
            "refused-directory", lambda: refused_directory_cases(2), refused_directory_run,
            f"directories with 2 files; {nontrivial}",
        ),
        FuncSpace(
            "faults", lambda: faulty_cases(["heading", "wrapping"], [1, 2]), faulty_run,
            "kills, torn writes, failures and interruptions at every system call of runs "
            f"for 1 or 2 files, for the targets {TARGETS}; {nontrivial}",
        ),
        FuncSpace(
            "faults-more", lambda: (
                [k, t, w] for k in (["large"], ["tidy", "large"], ["heading", "windows",
                                    "wrapping"], ["empty", "heading"])
                for t in TARGETS[:3] for w in WHATS
            ), faulty_run, f"as faults, for other files; {nontrivial}",
        ),
    ]
    if thorough:
        result += [
            FuncSpace(
                "refused-more", lambda: refused_cases(3, ["tidy", "heading", "windows"]),
                refused_run, f"every list of up to 3 files; {nontrivial}",
            ),
            FuncSpace(
                "refused-directory-3", lambda: refused_directory_cases(3),
                refused_directory_run, f"directories with 3 files; {nontrivial}",
            ),
            FuncSpace(
                "faults-all", lambda: faulty_cases(list(GOOD), [2]), faulty_run,
                f"as faults, for every two of {list(GOOD)}; {nontrivial}",
            ),
            FuncSpace(
                "faults-3",
                lambda: faulty_cases(["heading", "wrapping", "windows"], [3],
                                     ["place", "dir", "files"]),
                faulty_run, f"as faults, for 3 files; {nontrivial}",
            ),
        ]
    for space in result:
        space.cpu_seconds = 600
    return result
