"""--write-renders shows both passes if, and only if, they differ"""

import os
import re

from .. import cli
from ..engine import FuncSpace
from ..oracle import call, letters, width

import markflow.reformat_markdown as module

LEVEL = "model_checking"
ASSUMPTIONS = [
    "what a pass makes of a text is taken from the library's own function for a pass, "
    "which the other properties judge",
]

TEXTS = {
    "tidy": "# a\n",
    "untidy": "#a  \n\nb\n",
    "break": "#a\n\n> a\n===\nb\n",
    "break-windows": "#a\r\n\r\n> a\r\n===\r\nb\r\n",
    "item": "a b c d e f g h i j k l m\n- \n* - -\n",
    "definition": "[l]: /u\n> ü\n--\nö\n",
    "open": "> x\n=\ny",
    "table": "#a\n\n|a|\n|-|\n|b|c|\n",
}
NAMES = ["0.md", "a", "a.1.md", "b.txt", ".md", "sub/c.md", "x.MD", "a.md.md"]
MODES = ["file", "check", "dir", "out", "out-plain"]


def pass_(text, w):
    function = getattr(module, "_reformat_markdown_text", None)
    if function is None:
        return None
    try:
        return function(text, width(88 if w is None else "inf" if w < 1 else w))
    except TypeError:
        return None


def renders(target):
    """The names of the files for both passes"""
    if target.endswith(".md"):
        return [target[:-3] + ".1.md", target[:-3] + ".2.md"]
    return [target + ".1", target + ".2"]


def run(case, r):
    kinds, names, mode, w, given = case
    tree, stdin = {"out": None}, b""
    options = [] if w is None else ["--line-length", str(w)]
    if given:
        options.append("--write-renders")
    texts = [TEXTS[k] for k in kinds]
    command = {"width": w, "check": mode == "check", "paths": list(names)}
    if mode == "stdin":
        stdin = texts[0].encode()
    elif mode == "stdin-check":
        stdin = texts[0].encode()
        options.append("--check")
    else:
        for name, text in zip(names, texts):
            tree[name] = text.encode()
        if mode == "check":
            options.append("--check")
        elif mode == "dir":
            options += ["--output-dir", "out"]
            command["outdir"] = "out"
        elif mode.startswith("out"):
            command["outfiles"] = [
                f"out/o{i}" + (".md" if mode == "out" else "") for i in range(len(names))
            ]
            for path in command["outfiles"]:
                options += ["--output-file", path]
    root = cli.make(tree)
    outcome = cli.run(options + ([] if stdin else list(names)), root, stdin)
    after = cli.tree_of(root)
    r.state(case)
    r.transition()
    r.outcome((outcome.status, outcome.out, after))
    r.validate()

    plain = None
    if given:
        options.remove("--write-renders")
        root = cli.make(tree)
        plain = cli.run(options + ([] if stdin else list(names)), root, stdin)
        options.append("--write-renders")

    def report(what, **detail):
        r.violation(what, arguments=options + list(names), texts=texts, **detail)

    if outcome.signal is not None:
        report("killed", outcome=repr(outcome))
    failing = next(
        (i for i, t in enumerate(texts) if call(t, 88 if w is None else "inf" if w < 1 else w)[0] != "ok"),
        None,
    )
    inconsistent = failing is not None and call(
        texts[failing], 88 if w is None else "inf" if w < 1 else w
    )[0] not in ("ok", "refused-format")
    shown = inconsistent and given
    if shown:
        r.interesting()
    if (outcome.status == 0) != (failing is None) and mode not in ("check", "stdin-check"):
        report("status", outcome=repr(outcome))
    if failing is not None and outcome.status == 0:
        report("status", outcome=repr(outcome))
    if plain is not None:
        # The option changes neither the outcome nor the reason that is given
        if outcome.status != plain.status:
            report("status", outcome=repr(outcome), without=repr(plain))
        a, b = messages(outcome.err), messages(plain.err)
        if (a[-1:] != b[-1:]) if shown else (a != b or outcome.out != plain.out):
            report("messages", outcome=repr(outcome), without=repr(plain))
    if stdin:
        if after != {"out": None}:
            report("files", tree=repr(after))
        if failing is None:
            return
        out = outcome.out.decode()
        if not shown:
            if out:
                report("output", out=out)
            return
        first = pass_(texts[0], w)
        if first is not None and out.split() != (first + pass_(first, w)).split():
            report("renders", out=out, first=first, second=pass_(first, w))
        if letters(out) != letters(texts[0] * 2):
            report("letters", out=out)
        return
    expected = cli.model(tree, command).tree
    for path in expected:
        if after.get(path, "absent") != expected[path] and (
            not shown or path not in renders(target_of(command, failing))
        ):
            report("files", path=path, expected=repr(expected[path]), tree=repr(after))
    extra = sorted(set(after) - set(cli.with_directories(expected)))
    wanted = renders(target_of(command, failing)) if shown else []
    if extra != sorted(set(wanted) - set(expected)):
        report("other-files", expected=wanted, extra=extra)
    if not shown:
        return
    first = pass_(texts[failing].replace("\r\n", "\n"), w)
    contents = [after.get(path) for path in wanted]
    if None in contents:
        return
    contents = [c.decode() for c in contents]
    if first is not None and contents != [first, pass_(first, w)]:
        report("renders", first=first, second=pass_(first, w), contents=contents)
    if contents[0] == contents[1]:
        report("same", contents=contents)
    for content in contents:
        if letters(content) != letters(texts[failing]):
            report("letters", content=content)


TIME = re.compile(r"^\[[^\]]*\]")


def messages(err):
    lines = [
        " ".join(TIME.sub("", line).split())
        for line in err.decode("utf-8", "replace").split("\n")
    ]
    return [line for line in lines if line]


def target_of(command, i):
    path = command["paths"][i]
    if command.get("outdir"):
        return os.path.join(command["outdir"], os.path.basename(path))
    if command.get("outfiles"):
        return command["outfiles"][i]
    return path


def cases(kinds, names, modes, widths):
    for k in kinds:
        for n in names:
            for mode in modes:
                for w in widths:
                    for given in (True, False):
                        yield [list(k), list(n), mode, w, given]


def spaces(tier):
    one = [[k] for k in TEXTS]
    nontrivial = "nontrivial: passes are to be shown"
    pairs = [[a, b] for a in TEXTS for b in TEXTS]
    triples = [[a, b, c] for a in TEXTS for b in TEXTS for c in TEXTS]
    result = [
        FuncSpace(
            "names",
            lambda: cases(one, [[n] for n in NAMES], MODES, [None, 4, 0]),
            run, f"texts {list(TEXTS)} in files {NAMES}, modes {MODES}; {nontrivial}",
        ),
        FuncSpace(
            "stdin",
            lambda: cases(one, [[]], ["stdin", "stdin-check"], [None, 4, 0, -1, 12]),
            run, f"the same on standard input; {nontrivial}",
        ),
        FuncSpace(
            "pairs",
            lambda: cases(pairs, [["0.md", "sub/a"]], MODES, [None]),
            run, f"two files; {nontrivial}",
        ),
    ]
    if tier == "thorough":
        result.append(
            FuncSpace(
                "triples",
                lambda: cases(triples, [["0.md", "sub/a", "a.1.md"]], MODES, [None]),
                run, f"three files; {nontrivial}",
            )
        )
    return result
