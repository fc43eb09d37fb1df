"""Reformatting at several line lengths loses nothing

The states of a document are the texts reachable from it by reformatting at the line
lengths of a set.  All of them are visited, breadth first.
"""

import collections

from .. import blocks as B
from .. import blockspaces as S
from ..oracle import call, rendering_differs

LEVEL = "model_checking"
ASSUMPTIONS = [
    "documents are built from the blocks of mc/blocks.py",
    "rendering is compared with both markdown-it-py and commonmark.py",
]
MAX_STATES = 200


def explore(text, widths, r):
    has_definition = "]:" in text
    direct = {}
    for w in widths:
        kind, out = call(text, w, r)
        if kind != "ok":
            r.violation("refused", text=text, w=w, outcome=[kind, out])
            return
        direct[w] = out
    source = B.rendered_source(text)
    seen = {text: []}
    queue = collections.deque([text])
    while queue:
        state = queue.popleft()
        history = seen[state]
        for w in widths:
            kind, out = ("ok", direct[w]) if state == text else call(state, w, r)
            if kind != "ok":
                r.violation(
                    "refused", text=text, history=history + [w], outcome=[kind, out]
                )
                return
            if not has_definition:
                r.validate()
                if out != direct[w]:
                    r.violation(
                        "history", text=text, history=history + [w],
                        direct=direct[w], output=out,
                    )
                    return
            if out not in seen:
                r.validate()
                if rendering_differs(source, out, table="|" in text):
                    r.violation(
                        "rendering", text=text, history=history + [w], output=out
                    )
                    return
                seen[out] = history + [w]
                queue.append(out)
                if len(seen) > MAX_STATES:
                    r.violation("unbounded", text=text, history=seen[out])
                    return
    r.count("largest state graph: %d" % len(seen))
    if len(seen) > 2:
        r.interesting()


WIDTHS = [1, 4, 7, 11, 18, 30, 88, "inf"]


def run(case, r):
    explore(B.text_of(case[0]), WIDTHS, r)


MORE = [1, 2, 3, 5, 6, 8, 9, 10, 12, 13, 14, 16, 20, 24, 36, 50, 120, "inf"]


def run_more(case, r):
    explore(B.text_of(case[0]), MORE, r)


def spaces(tier):
    what = f"more than two reachable texts at the line lengths {WIDTHS}"
    leaves = list(B.LEAVES)
    one = B.blocks(1)
    result = [
        S.singles("blocks", run, 1, [None], what=what),
        S.singles("leaves-more", run_more, 0, [None], what=f"as before, with {MORE}"),
        S.sequences("pairs", run, [leaves, leaves], [None], what=what),
    ]
    if tier == "thorough":
        result += [
            S.singles("blocks-2", run, 2, [None], what=what),
            S.singles("blocks-more", run_more, 1, [None], what=f"as before, with {MORE}"),
            S.sequences("block-core", run, [one, B.CORE], [None], what=what),
            S.sequences("triples", run, [B.CORE] * 3, [None], what=what),
        ]
    return result
