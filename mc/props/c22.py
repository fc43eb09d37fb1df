"""Paths are selected and validated before anything is written

Trees with files, directories, links and permissions are enumerated with the arguments of a
run; a model decides what is selected and whether a run is allowed.
"""

import itertools
import os
import socket

from .. import cli
from ..engine import FuncSpace

LEVEL = "model_checking"
ASSUMPTIONS = [
    "runs take place as an unprivileged user that owns the tree",
    "the order of files below a directory is not specified",
]

UGLY = b"#a  \n"
TIDY = b"# a\n"

# --- Selection ------------------------------------------------------------------------

# Names of one level of a tree: what a directory or file may be called
FILE_NAMES = [
    "a.md", "b.MD", "c.txt", ".h.md", "d.md.bak", ".md", "md", "é.md", "[x].md", "*.md",
    "?.md", "a b.md", "-.md", "README", "x.1.md", "~.md", "{a,b}.md", "!.md", "[!a].md", "#",
]
DIRECTORY_NAMES = ["d", "d.md", "[d]", "*", "?", "[!d]", ".d", "d e", "**", "é", "[", "]", "~"]


def select(tree, paths):
    return [f for path in paths for f in cli.selected(tree, path)]


def selection_run(case, r):
    tree = {path: (None if kind is None else UGLY) for path, kind in case["tree"]}
    tree["keep.md"] = UGLY
    paths, check = case["paths"], case["check"]
    command = {"paths": paths, "check": check}
    r.state(sorted(tree.items()))
    root = cli.make(tree)
    outcome = cli.run(cli.options(command), root)
    after = cli.tree_of(root)
    tree = cli.with_directories(tree)
    expected = cli.model(tree, command)
    r.transition()
    r.validate()
    r.outcome((outcome.status, sorted(after.items()), cli.messages_of(outcome.out)))
    if expected.tree != tree or expected.ok != 0:
        r.interesting()
    for kind, detail in cli.compare(expected, outcome, after):
        r.violation(kind, argv=cli.options(command), detail=detail)


def usable(path):
    return not path.startswith("-")


def file_cases():
    """Every file is taken whatever its name; its neighbours aren't"""
    for name in FILE_NAMES:
        for other in FILE_NAMES:
            if name != other:
                tree = [[f"n/{name}", 1], [f"n/{other}", 1]]
                yield {"tree": tree, "paths": [f"n/{name}"], "check": False}
                yield {"tree": tree, "paths": [f"n/{name}", f"./n/{other}"], "check": True}
                yield {"tree": tree, "paths": ["n"], "check": False}


def directory_cases(inner):
    """Every directory, next to one of another name, nested or not"""
    for name, other in itertools.permutations(DIRECTORY_NAMES, 2):
        for a in inner:
            tree = [[f"{name}/{a}", 1], [f"{name}/x/{a}", 1], [f"{other}/{a}", 1],
                    [f"{name}/{other}/{a}", 1], [f"{name}/{other}/q.md", 1]]
            for argument in (name, f"./{name}/", f"{name}/{other}"):
                yield {"tree": tree, "paths": [argument], "check": False}
            yield {"tree": tree, "paths": ["."], "check": True}
            yield {"tree": tree, "paths": [other, f"{name}/x"], "check": False}


def shape_cases(n):
    """Every subset of a tree's places"""
    places = [
        ["a.md", 1], ["t/b.md", 1], ["t/u/c.md", 1], ["t/u/v/w/d.md", 1], ["t/.i/e.md", 1],
        ["t/.f.md", 1], ["t/g.txt", 1], ["t/h.md", None], ["t/h.md/j.md", 1], ["t/k.Md", 1],
        ["t", None],
    ]
    for size in range(n + 1):
        for chosen in itertools.combinations(places, size):
            tree = [list(p) for p in chosen]
            arguments = [["."], ["t"], ["t", "t"], ["t/u", "a.md"], ["t/.i", "t/h.md"],
                         ["a.md", "t"], ["t/b.md", "t/u", "a.md"]]
            for paths in arguments:
                whole = cli.with_directories({p: k for p, k in tree} | {".": None})
                if all(os.path.normpath(p) in whole for p in paths):
                    yield {"tree": tree, "paths": paths, "check": False}


def order_cases(n):
    """Files and directories are processed in the order they are given in"""
    tree = [["z.md", 1], ["m.txt", 1], ["a.md", 1], ["y/b.md", 1], ["c/d.md", 1], ["c/e/f.md", 1]]
    arguments = ["z.md", "m.txt", "a.md", "y", "c", "c/e", "./z.md", "y/b.md"]
    for size in range(1, n + 1):
        for paths in itertools.product(arguments, repeat=size):
            for check in (False, True):
                yield {"tree": tree, "paths": list(paths), "check": check}


# --- Validation -----------------------------------------------------------------------

PATH_KINDS = [
    "file", "tidy", "missing", "directory", "empty-directory", "unreadable", "read-only",
    "link", "broken-link", "below-file", "executable", "locked-directory",
]
TARGET_KINDS = [
    "place", "dir", "missing-dir", "file-as-dir", "locked-dir", "new", "existing",
    "directory-as-file", "locked-file", "below-missing", "in-locked-dir", "too-few",
    "too-many", "both", "below-file", "below-directory-link", "link-to-nowhere",
]


def prepare_path(root, i, kind, tree):
    """Makes an argument; returns (argument, files, whether it's fine, extra check)"""
    name = f"{i}.md"
    full = os.path.join(root, name)

    def write(path, content, mode=0o644):
        with open(os.path.join(root, path), "wb") as f:
            f.write(content)
        os.chmod(os.path.join(root, path), mode)
        tree[path] = content

    if kind == "file":
        write(name, UGLY)
        return name, [name], True, True
    if kind == "executable":
        write(name, UGLY, 0o755)
        return name, [name], True, True
    if kind == "tidy":
        write(name, TIDY)
        return name, [name], True, True
    if kind == "missing":
        return name, [], False, False
    if kind == "directory":
        os.mkdir(full)
        tree[name] = None
        write(f"{name}/x.md", UGLY)
        return name, [f"{name}/x.md"], True, True
    if kind == "empty-directory":
        os.mkdir(full)
        tree[name] = None
        return name, [], True, True
    if kind == "unreadable":
        write(name, UGLY, 0o200)
        return name, [name], False, False
    if kind == "read-only":
        write(name, UGLY, 0o444)
        return name, [name], True, False
    if kind == "link":
        write(f"{i}.target", UGLY)
        os.symlink(f"{i}.target", full)
        return name, [name], True, True
    if kind == "broken-link":
        os.symlink("nowhere", full)
        return name, [], False, False
    if kind == "below-file":
        write(name, UGLY)
        return f"{name}/x.md", [], False, False
    if kind == "locked-directory":
        os.mkdir(full)
        write(f"{name}/x.md", UGLY)
        tree[name] = None
        os.chmod(full, 0o000)
        return name, [], False, False
    raise AssertionError(kind)


def prepare_target(root, kind, n, tree):
    """Returns (arguments, whether they're fine, whether files are written in place)"""
    def write(path, mode=0o644):
        with open(os.path.join(root, path), "wb") as f:
            f.write(b"before\n")
        os.chmod(os.path.join(root, path), mode)
        tree[path] = b"before\n"

    def mkdir(path, mode=0o755):
        os.mkdir(os.path.join(root, path), mode)
        os.chmod(os.path.join(root, path), mode)
        tree[path] = None

    def files(names):
        return [x for name in names for x in ("--output-file", name)]

    if kind == "place":
        return [], True, True
    if kind == "dir":
        mkdir("out")
        return ["--output-dir", "out"], True, False
    if kind == "missing-dir":
        return ["--output-dir", "out"], False, False
    if kind == "file-as-dir":
        write("out")
        return ["--output-dir", "out"], False, False
    if kind == "locked-dir":
        mkdir("out", 0o555)
        return ["--output-dir", "out"], False, False
    if kind == "new":
        return files(f"new{i}" for i in range(n)), True, False
    if kind == "existing":
        for i in range(n):
            write(f"new{i}")
        return files(f"new{i}" for i in range(n)), True, False
    if kind == "directory-as-file":
        mkdir("out")
        return files([f"new{i}" for i in range(n - 1)] + ["out"]), False, False
    if kind == "locked-file":
        write("locked", 0o444)
        return files([f"new{i}" for i in range(n - 1)] + ["locked"]), False, False
    if kind == "below-missing":
        return files([f"new{i}" for i in range(n - 1)] + ["out/new"]), False, False
    if kind == "below-file":
        write("out")
        return files([f"new{i}" for i in range(n - 1)] + ["out/new"]), False, False
    if kind == "below-directory-link":
        mkdir("real")
        os.symlink("real", os.path.join(root, "out"))
        return ["--output-dir", "out"], True, False
    if kind == "link-to-nowhere":
        os.symlink("nowhere", os.path.join(root, "out"))
        return ["--output-dir", "out"], False, False
    if kind == "in-locked-dir":
        mkdir("out", 0o555)
        return files([f"new{i}" for i in range(n - 1)] + ["out/new"]), False, False
    if kind == "too-few":
        return files(f"new{i}" for i in range(n - 1)), n < 2, n < 2
    if kind == "too-many":
        return files(f"new{i}" for i in range(n + 1)), False, False
    if kind == "both":
        mkdir("out")
        return files(f"new{i}" for i in range(n)) + ["--output-dir", "out"], False, False
    raise AssertionError(kind)


def snapshot(root):
    """Everything below root: content of files, targets of links"""
    result = {}
    for directory, directories, files in os.walk(root):
        for name in directories + files:
            full = os.path.join(directory, name)
            relative = os.path.relpath(full, root)
            if os.path.islink(full):
                result[relative] = ("link", os.readlink(full))
            elif os.path.isdir(full):
                result[relative] = None
            else:
                with open(full, "rb") as f:
                    result[relative] = f.read()
    return result


def validation_run(case, r):
    kinds, target, check = case["kinds"], case["target"], case["check"]
    root = cli.make({})
    tree = {}
    arguments, files, fine, writable = [], [], True, True
    for i, kind in enumerate(kinds):
        argument, selected, ok, may_write = prepare_path(root, i, kind, tree)
        arguments.append(argument)
        files += selected
        fine = fine and ok
        writable = writable and may_write
    targets, targets_fine, in_place = prepare_target(root, target, len(files), tree)
    fine = fine and targets_fine
    if in_place and not check:
        fine = fine and writable
    for directory, directories, names in os.walk(root):
        for path in [directory] + [os.path.join(directory, n) for n in names + directories]:
            os.chown(path, cli.NOBODY, cli.NOBODY, follow_symlinks=False)
    before = snapshot(root)
    argv = (["--check"] if check else []) + targets + arguments
    r.state((case["kinds"], target, check))
    outcome = cli.run(argv, root, uid=cli.NOBODY)
    after = snapshot(root)
    r.transition()
    r.validate()
    r.outcome((outcome.status, sorted(after.items()), cli.messages_of(outcome.out)))
    if not fine:
        r.interesting()
        if outcome.signal is not None or outcome.status == 0:
            r.violation("unnoticed", argv=argv, outcome=repr(outcome))
        if after != before:
            r.violation("touched", argv=argv, before=repr(before), after=repr(after))
        return
    ugly = [f for f in files if tree.get(f, UGLY) == UGLY]
    status = 1 if check and ugly else 0
    if outcome.signal is not None or outcome.status != status:
        r.violation("status", argv=argv, expected=status, outcome=repr(outcome))
        return
    wanted = dict(before)
    if not check:
        for i, f in enumerate(files):
            if in_place:
                t = before[f][1] if isinstance(before[f], tuple) else f
            elif target == "dir":
                t = "out/" + os.path.basename(f)
            elif target == "below-directory-link":
                t = "real/" + os.path.basename(f)
            else:
                t = f"new{i}"
            wanted[t] = TIDY
    if after != wanted:
        r.violation("files", argv=argv, expected=repr(wanted), after=repr(after))


def validation_cases(sizes, kinds, targets):
    for n in sizes:
        for chosen in itertools.product(kinds, repeat=n):
            for target in targets:
                for check in (False, True):
                    count = sum(
                        k not in ("missing", "empty-directory", "broken-link", "below-file",
                                  "locked-directory")
                        for k in chosen
                    )
                    if target in ("directory-as-file", "locked-file", "below-missing", "below-file",
                                  "in-locked-dir", "new", "existing", "both") and not count:
                        continue
                    if target == "too-many" and not any(
                        k in ("file", "tidy", "directory", "link") for k in chosen
                    ):
                        continue
                    if target in ("dir", "below-directory-link") and sum(k == "directory" for k in chosen) > 1:
                        continue
                    yield {"kinds": list(chosen), "target": target, "check": check}


# --- What isn't a file ----------------------------------------------------------------

SPECIAL = ["fifo", "socket", "dangling", "loop", "to-fifo", "directory"]


def special_run(case, r):
    """Only regular files below a directory are taken"""
    kinds, names, extra = case
    root = cli.make({"d/f.md": UGLY, "d/e/g.md": UGLY, "d/e/h.md": TIDY, "out": None})
    for kind, name in zip(kinds, names):
        full = os.path.join(root, "d", name)
        if kind == "fifo":
            os.mkfifo(full)
        elif kind == "socket":
            here = os.getcwd()
            os.chdir(os.path.dirname(full))
            try:
                with socket.socket(socket.AF_UNIX) as s:
                    s.bind(os.path.basename(full))
            finally:
                os.chdir(here)
        elif kind == "dangling":
            os.symlink("nowhere", full)
        elif kind == "loop":
            os.symlink(os.path.basename(full), full)
        elif kind == "to-fifo":
            os.mkfifo(full + ".fifo")
            os.symlink(os.path.basename(full) + ".fifo", full)
        else:
            os.mkdir(full)
    argv = extra + ["d"]
    r.state(case)
    r.interesting()
    outcome = cli.run(argv, root)
    after = {}
    for name in ("f.md", "e/g.md", "e/h.md"):
        with open(os.path.join(root, "d", name), "rb") as f:
            after[name] = f.read()
    written = os.listdir(os.path.join(root, "out"))
    kept = all(os.path.lexists(os.path.join(root, "d", name)) for name in names)
    r.transition()
    r.validate()
    r.outcome((outcome.status, sorted(after.items()), sorted(cli.messages_of(outcome.out))))
    new = TIDY if not extra else UGLY
    wanted = {"f.md": new, "e/g.md": new, "e/h.md": TIDY}
    status = 1 if "--check" in extra else 0
    count = sum("reformat" in m and m.endswith(".md") for m in cli.messages_of(outcome.out))
    wrong = {}
    if outcome.signal is not None or outcome.status != status:
        wrong["outcome"] = repr(outcome)
    if after != wanted:
        wrong["files"] = repr(after)
    if sorted(written) != (["f.md", "g.md", "h.md"] if "out" in extra else []) or not kept:
        wrong["written"] = written
    if count != 2:
        wrong["messages"] = cli.messages_of(outcome.out)
    if wrong:
        r.violation("special", argv=argv, kinds=kinds, names=names, **wrong)


def special_cases(n):
    for size in range(1, n + 1):
        for kinds in itertools.product(SPECIAL, repeat=size):
            for names in itertools.permutations(["a.md", "z.md", "e/a.md"], size):
                for extra in ([], ["--check"], ["--output-dir", "out"]):
                    yield [list(kinds), list(names), extra]


def numbers_of_paths(numbers):
    """One of many paths isn't fine"""
    for n in numbers:
        for kind in PATH_KINDS:
            for at in range(n):
                for target in ("place", "dir"):
                    for check in (False, True):
                        kinds = ["file"] * n
                        kinds[at] = kind
                        yield {"kinds": kinds, "target": target, "check": check}


# --- Arguments ------------------------------------------------------------------------

BAD_OPTIONS = [
    ["--line-length"], ["--line-length", "x"], ["--line-length", "1.5"], ["--nope"],
    ["--line-length="], ["--output-dir"], ["--output-file"], ["-z"],
    ["--check=1"], ["--line-length", ""],
]


def bad_option_run(case, r):
    options, position, check = case
    tree = {"0.md": UGLY, "1.md": UGLY}
    argv = ["0.md", "1.md"]
    argv[position:position] = options
    if check:
        argv.insert(0, "--check")
    if options[-1] in ("--line-length", "--output-dir", "--output-file") and position < 2:
        # Takes the next argument
        if options[-1] == "--output-file":
            return
    root = cli.make(tree)
    outcome = cli.run(argv, root)
    r.transition()
    r.validate()
    r.interesting()
    r.state((options, position, check))
    r.outcome(outcome.status)
    if outcome.signal is not None or outcome.status == 0:
        r.violation("unnoticed", argv=argv, outcome=repr(outcome))
    if cli.tree_of(root) != tree:
        r.violation("touched", argv=argv)


def bad_option_cases():
    for options in BAD_OPTIONS:
        for position in range(3):
            for check in (False, True):
                yield [options, position, check]


def spaces(tier):
    thorough = tier == "thorough"
    kinds = PATH_KINDS
    few = ["file", "tidy", "missing", "directory", "unreadable", "read-only", "broken-link"]
    nontrivial = "nontrivial: something is rewritten or the status isn't 0"
    refused = "nontrivial: the run isn't allowed"
    result = [
        FuncSpace("files", file_cases, selection_run,
                  f"every two of the names {FILE_NAMES}; {nontrivial}"),
        FuncSpace("directories", lambda: directory_cases(["a.md"]), selection_run,
                  f"every two of the directories {DIRECTORY_NAMES}; {nontrivial}"),
        FuncSpace("shapes", lambda: shape_cases(4), selection_run,
                  f"every tree of up to 4 of 11 places; {nontrivial}"),
        FuncSpace("order", lambda: order_cases(3), selection_run,
                  f"every sequence of up to 3 of 8 files and directories; {nontrivial}"),
        FuncSpace(
            "validation", lambda: validation_cases([1], kinds, TARGET_KINDS),
            validation_run,
            f"every kind of path {kinds} and target {TARGET_KINDS}; {refused}",
        ),
        FuncSpace(
            "validation-2", lambda: validation_cases([2], few, TARGET_KINDS),
            validation_run, f"every two of the kinds of paths {few}; {refused}",
        ),
        FuncSpace("special", lambda: special_cases(2), special_run,
                  f"directories with up to 2 of {SPECIAL} named like documents"),
        FuncSpace("many-paths", lambda: numbers_of_paths([5, 12, 17]), validation_run,
                  f"every kind of path at every place among up to 17; {refused}"),
        FuncSpace("bad-options", bad_option_cases, bad_option_run,
                  f"every one of {BAD_OPTIONS} at every position; {refused}"),
    ]
    if thorough:
        result += [
            FuncSpace("directories-more", lambda: directory_cases(
                [".h.md", "[x].md", "c.txt", "*.md"]), selection_run,
                f"every two of the directories; {nontrivial}"),
            FuncSpace("order-more", lambda: order_cases(4), selection_run,
                      f"every sequence of up to 4 of 8 files and directories; {nontrivial}"),
            FuncSpace("shapes-more", lambda: shape_cases(8), selection_run,
                      f"every tree of up to 8 of 11 places; {nontrivial}"),
            FuncSpace(
                "validation-2-all", lambda: validation_cases([2], kinds, TARGET_KINDS),
                validation_run, f"every two kinds of paths; {refused}",
            ),
            FuncSpace(
                "validation-3", lambda: validation_cases(
                    [3], few, ["place", "dir", "new", "locked-file", "too-few"]),
                validation_run, f"every three kinds of paths; {refused}",
            ),
        ]
    return result
