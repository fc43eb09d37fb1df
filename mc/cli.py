"""Runs of the command line in a scratch directory, and a model of what they should do"""

import io
import os
import re
import resource
import selectors
import shutil
import signal
import subprocess
import sys
import traceback

from . import engine
from .oracle import REPO, call

import markflow.__main__ as cli_module

NOBODY = 65534
CPU_SECONDS = 30
COLUMNS = 1000  # Messages of a run aren't wrapped


# --- Running --------------------------------------------------------------------------


class Outcome:
    def __init__(self, status, signal_, out, err):
        self.status = status
        self.signal = signal_
        self.out = out
        self.err = err

    def __repr__(self):
        return repr((self.status, self.signal, self.out, self.err[-400:]))


def _interpreter_like(argv):
    """The exit status `markflow argv` would have"""
    sys.argv = ["markflow"] + list(argv)
    status = 0
    try:
        cli_module.__main__()
    except SystemExit as e:
        if e.code is None:
            status = 0
        elif isinstance(e.code, int):
            status = e.code & 0xFF
        else:
            print(e.code, file=sys.stderr)
            status = 1
    except BaseException:
        traceback.print_exc()
        status = 1
    for stream in (sys.stdout, sys.stderr):
        try:
            stream.flush()
        except Exception:
            status = status or 120
    return status


def _child(argv, cwd, stdin, uid, prepare):
    import logging

    resource.setrlimit(resource.RLIMIT_CPU, (CPU_SECONDS, CPU_SECONDS))
    signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    logging.disable(logging.NOTSET)
    logging.getLogger().handlers[:] = []
    os.environ["COLUMNS"] = str(COLUMNS)
    os.chdir(cwd)
    if uid is not None:
        os.setgroups([])
        os.setgid(uid)
        os.setuid(uid)
    sys.stdin = io.TextIOWrapper(io.BufferedReader(io.FileIO(0, closefd=False)), "utf-8")
    sys.stdout = io.TextIOWrapper(
        io.BufferedWriter(io.FileIO(1, "w", closefd=False)), "utf-8"
    )
    sys.stderr = io.TextIOWrapper(
        io.BufferedWriter(io.FileIO(2, "w", closefd=False)), "utf-8", "backslashreplace",
        write_through=True,
    )
    if prepare:
        prepare()
    return _interpreter_like(argv)


def _read_both(*fds):
    contents = {fd: [] for fd in fds}
    with selectors.DefaultSelector() as selector:
        for fd in fds:
            selector.register(fd, selectors.EVENT_READ)
        while selector.get_map():
            for key, _ in selector.select():
                data = os.read(key.fd, 1 << 16)
                if data:
                    contents[key.fd].append(data)
                else:
                    selector.unregister(key.fd)
                    os.close(key.fd)
    return [b"".join(contents[fd]) for fd in fds]


def run(argv, cwd, stdin=b"", uid=None, prepare=None):
    """Run the command line in a copy of this process"""
    in_read, in_write = os.pipe()
    out_read, out_write = os.pipe()
    err_read, err_write = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        status = 99
        try:
            os.dup2(in_read, 0)
            os.dup2(out_write, 1)
            os.dup2(err_write, 2)
            for fd in (in_read, in_write, out_read, out_write, err_read, err_write):
                if fd > 2:
                    os.close(fd)
            status = _child(argv, cwd, stdin, uid, prepare)
        except BaseException:
            os.write(2, traceback.format_exc().encode())
        finally:
            os._exit(status)
    for fd in (in_read, out_write, err_write):
        os.close(fd)
    # Inputs are smaller than the buffer of a pipe
    try:
        os.write(in_write, stdin)
    finally:
        os.close(in_write)
    out, err = _read_both(out_read, err_read)
    _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status):
        return Outcome(None, os.WTERMSIG(status), out, err)
    return Outcome(os.WEXITSTATUS(status), None, out, err)


def run_process(argv, cwd, stdin=b""):
    """Run the command line the way a user does"""
    environment = {
        **os.environ, "COLUMNS": str(COLUMNS), "PYTHONPATH": REPO, "PYTHONDONTWRITEBYTECODE": "1",
        "PYTHONUTF8": "1",
    }
    p = subprocess.run(
        [sys.executable, "-m", "markflow"] + list(argv), cwd=cwd, input=stdin,
        env=environment, capture_output=True, timeout=120,
    )
    if p.returncode < 0:
        return Outcome(None, -p.returncode, p.stdout, p.stderr)
    return Outcome(p.returncode, None, p.stdout, p.stderr)


# --- File trees -----------------------------------------------------------------------
# {path: content as bytes, None for a directory}


def make(tree, uid=None):
    """Returns a fresh directory with the tree, and nothing else"""
    root = os.path.join(engine.SCRATCH, str(os.getpid()))
    clear(root)
    os.makedirs(root)
    for path in sorted(tree):
        full = os.path.join(root, path)
        if tree[path] is None:
            os.makedirs(full, exist_ok=True)
        else:
            os.makedirs(os.path.dirname(full), exist_ok=True)
            with open(full, "wb") as f:
                f.write(tree[path])
    if uid is not None:
        for directory, _, files in os.walk(root):
            for name in [directory] + [os.path.join(directory, f) for f in files]:
                os.chown(name, uid, uid)
    return root


def clear(root):
    assert engine.SCRATCH and root.startswith(engine.SCRATCH + os.sep)
    if os.path.isdir(root):
        for directory, _, _ in os.walk(root):
            os.chmod(directory, 0o755)
        shutil.rmtree(root)


def tree_of(root):
    result = {}
    for directory, directories, files in os.walk(root):
        for name in directories:
            result[os.path.relpath(os.path.join(directory, name), root)] = None
        for name in files:
            full = os.path.join(directory, name)
            with open(full, "rb") as f:
                result[os.path.relpath(full, root)] = f.read()
    return result


def with_directories(tree):
    result = dict(tree)
    for path in tree:
        while "/" in path:
            path = path.rsplit("/", 1)[0]
            result.setdefault(path, None)
    return result


# --- Model ----------------------------------------------------------------------------


def options(command):
    """The arguments of a command {check, width, outdir, outfiles, paths}"""
    argv = []
    if command.get("check"):
        argv.append("--check")
    if command.get("width") is not None:
        argv += ["--line-length", str(command["width"])]
    if command.get("outdir"):
        argv += ["--output-dir", command["outdir"]]
    for path in command.get("outfiles") or []:
        argv += ["--output-file", path]
    argv += command.get("extra") or []
    return argv + command["paths"]


def reformat(data, width):
    """What the library makes of the content of a file; None if that's refused"""
    if width is None:
        width = 88
    elif width < 1:
        width = "inf"
    try:
        text = data.decode("utf-8")
    except UnicodeDecodeError:
        return None
    kind, out = call(text, width)
    return out.encode("utf-8") if kind == "ok" else None


def display(path):
    return os.path.normpath(path)


def selected(tree, path):
    """The files a path stands for"""
    path = os.path.normpath(path)
    if tree.get(path) is not None:
        return [path]
    prefix = "" if path == "." else path + "/"
    return sorted(
        name
        for name in tree
        if name.startswith(prefix)
        and tree[name] is not None
        and name.endswith(".md")
        and not any(part.startswith(".") for part in name[len(prefix) :].split("/"))
    )


class Expected:
    def __init__(self, ok, tree, messages, failed_at=None, groups=None):
        self.ok = ok  # The status, or None for any that isn't 0
        # Messages of the same group may be in any order
        self.groups = groups or list(range(len(messages)))
        self.tree = tree
        self.messages = messages
        self.failed_at = failed_at


def model(tree, command):
    """What a run of the command does to the tree, with all paths being fine"""
    tree = dict(tree)
    files, arguments = [], []
    for i, path in enumerate(command["paths"]):
        for f in selected(tree, path):
            files.append(f)
            arguments.append(i)
    check = command.get("check")
    changed, messages, unchanged, groups = 0, [], 0, []
    for i, path in enumerate(files):
        if command.get("outdir"):
            target = os.path.normpath(
                os.path.join(command["outdir"], os.path.basename(path))
            )
        elif command.get("outfiles"):
            target = os.path.normpath(command["outfiles"][i])
        else:
            target = path
        new = reformat(tree[path], command.get("width"))
        if new is None:
            return Expected(None, tree, messages, path)
        if new != tree[path]:
            changed += 1
            messages.append(("would reformat " if check else "reformatted ") + path)
            groups.append(arguments[i])
        else:
            unchanged += 1
        if not check:
            tree[target] = new
    if not files:
        return Expected(0, tree, ["No Markdown files found. Nothing to do."])
    messages.append("All done!")

    def number(n):
        return f"{n} file" + ("s" if n > 1 else "")

    summary = []
    if check:
        if changed:
            summary.append(f"{number(changed)} would be reformatted.")
        if unchanged:
            summary.append(f"{number(unchanged)} would be left unchanged.")
    else:
        if changed:
            verb = "was" if changed == 1 else "were"
            summary.append(f"{number(changed)} {verb} reformatted.")
        if unchanged:
            verb = "was" if unchanged == 1 else "were"
            summary.append(f"{number(unchanged)} {verb} left unchanged.")
    messages.append(" ".join(summary))
    end = len(command["paths"])
    groups += [end, end + 1]
    return Expected(1 if check and changed else 0, tree, messages, None, groups)


_ESCAPES = re.compile(r"\x1b\[[0-9;]*m")


def messages_of(out):
    """The lines that are written for people"""
    text = _ESCAPES.sub("", out.decode("utf-8", "replace"))
    return [" ".join(line.split()) for line in text.split("\n") if line.strip()]


def in_groups(messages, groups):
    """The messages with those in the same group sorted"""
    if len(messages) != len(groups):
        return messages
    chosen = sorted(zip(groups, messages))
    return [message for _, message in chosen]


def compare(expected, outcome, tree):
    """What is wrong: a list of (kind, detail)"""
    wrong = []
    if outcome.signal is not None or (
        outcome.status == 0 if expected.ok is None else outcome.status != expected.ok
    ):
        wrong.append(("status", {"expected": expected.ok, "outcome": repr(outcome)}))
    if tree != with_directories(expected.tree):
        wanted = with_directories(expected.tree)
        wrong.append(
            (
                "files",
                {
                    path: {
                        "expected": repr(wanted.get(path, "absent")),
                        "is": repr(tree.get(path, "absent")),
                    }
                    for path in sorted(set(tree) | set(wanted))
                    if tree.get(path, 0) != wanted.get(path, 0)
                },
            )
        )
    if expected.ok is not None:
        messages = messages_of(outcome.out)
        # The files of a directory are in no particular order
        same = in_groups(messages, expected.groups) == in_groups(
            expected.messages, expected.groups
        )
        if not same:
            wrong.append(("messages", {"expected": expected.messages, "are": messages}))
        if outcome.err:
            wrong.append(("stderr", {"is": outcome.err.decode("utf-8", "replace")[-300:]}))
    return wrong
