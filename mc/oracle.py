"""Oracles: the call into the code under test and independent references."""

import functools
import html.parser
import logging
import math
import os
import re
import sys

sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent-pycache"
REPO = os.environ.get("MC_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import commonmark  # noqa: E402
import markdown_it  # noqa: E402

from markflow import reformat_markdown_text  # noqa: E402
from markflow.exceptions import (  # noqa: E402
    MarkdownFormatException,
    ReformatInconsistentException,
)

INF = math.inf

# Checks that look at log records enable them again
logging.disable(logging.CRITICAL)


def width(w):
    """JSON has no infinity"""
    return INF if w == "inf" else w


def call(text, w, r=None):
    """Reformat and classify the outcome"""
    if r is not None:
        r.transition()
        r.state(text)
    try:
        out = reformat_markdown_text(text, width(w))
    except MarkdownFormatException as e:
        result = ("refused-format", str(e))
    except ReformatInconsistentException as e:
        result = ("refused-inconsistent", str(e))
    except (MemoryError, RecursionError):
        raise
    except Exception as e:
        result = ("exception", f"{type(e).__name__}: {e}")
    else:
        if isinstance(out, str):
            result = ("ok", out)
            if r is not None:
                r.state(out)
        else:
            result = ("exception", f"returned {type(out).__name__}")
    if r is not None:
        r.outcome(result)
    return result


# --- Rendering ------------------------------------------------------------------------

_MD = markdown_it.MarkdownIt("commonmark")
_MD_TABLE = markdown_it.MarkdownIt("commonmark").enable("table")
_BR = re.compile(r"<br ?/?>\Z")
_WS = re.compile(r"[ \t\n]+")


def _inline(children):
    """Flatten inline tokens. Whitespace runs outside of code are one space."""
    out = []

    def text(s):
        if out and isinstance(out[-1], str):
            out[-1] += s
        else:
            out.append(s)

    for t in children:
        if t.type == "text":
            text(t.content)
        elif t.type == "softbreak":
            text(" ")
        elif t.type == "hardbreak":
            out.append(("hardbreak",))
        elif t.type == "code_inline":
            out.append(("code", t.content))
        elif t.type == "html_inline":
            if _BR.match(t.content):
                out.append(("br",))
            else:
                out.append(("html", t.content))
        elif t.type == "image":
            out.append(
                (
                    "image",
                    tuple(sorted((k, _WS.sub(" ", str(v))) for k, v in t.attrs.items())),
                    tuple(_inline(t.children or [])),
                )
            )
        else:
            attrs = tuple(sorted((k, _WS.sub(" ", str(v))) for k, v in t.attrs.items()))
            out.append((t.type, attrs))

    result = []
    breaks = (("hardbreak",), ("br",))
    for i, x in enumerate(out):
        if isinstance(x, str):
            x = _WS.sub(" ", x)
            if i == 0 or out[i - 1] in breaks:
                x = x.lstrip(" ")
            if i == len(out) - 1 or out[i + 1] in breaks:
                x = x.rstrip(" ")
            if not x:
                continue
        result.append(x)
    return result


def _code_lines(content):
    return tuple(line.rstrip(" \t") for line in content.split("\n"))


def render_it(text, table=False):
    out = []
    for t in (_MD_TABLE if table else _MD).parse(text):
        if t.type == "inline":
            out.append(tuple(_inline(t.children)))
        elif t.type == "fence":
            out.append(("fence", t.markup[:1], t.info.strip(), _code_lines(t.content)))
        elif t.type == "code_block":
            out.append(("code_block", _code_lines(t.content.rstrip("\n"))))
        elif t.type == "html_block":
            out.append(("html_block", t.content))
        else:
            attrs = tuple(sorted((k, v) for k, v in t.attrs.items() if k != "start"))
            out.append((t.type, t.tag, t.hidden, attrs))
    return out


_BLOCKS = set(
    "p h1 h2 h3 h4 h5 h6 ul ol li blockquote pre hr table thead tbody tr td th br".split()
)


class _HTML(html.parser.HTMLParser):
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.out = []
        self.buf = ""

    def flush(self):
        if self.buf:
            self.out.append(self.buf)
            self.buf = ""

    def handle_starttag(self, tag, attrs):
        self.flush()
        self.out.append(
            (
                "<",
                tag,
                tuple(
                    sorted(
                        (k, " ".join((v or "").split()))
                        for k, v in attrs
                        if not (tag == "ol" and k == "start")
                    )
                ),
            )
        )

    def handle_startendtag(self, tag, attrs):
        self.handle_starttag(tag, attrs)

    def handle_endtag(self, tag):
        self.flush()
        self.out.append((">", tag))

    def handle_data(self, data):
        self.buf += data

    def handle_comment(self, data):
        self.flush()
        self.out.append(("!", data))


def render_cm(text):
    p = _HTML()
    p.feed(commonmark.commonmark(text))
    p.close()
    p.flush()
    out = []
    pre = code = 0
    for x in p.out:
        if isinstance(x, tuple):
            if x[1] == "pre":
                pre += 1 if x[0] == "<" else -1
            if x[1] == "code":
                code += 1 if x[0] == "<" else -1
            if x[1] in _BLOCKS and out and isinstance(out[-1], str) and not pre and not code:
                out[-1] = out[-1].rstrip(" \n\t")
                if not out[-1]:
                    out.pop()
            out.append(x)
        else:
            if pre:
                x = "\n".join(line.rstrip(" \t") for line in x.split("\n")).rstrip("\n")
            elif not code:
                x = _WS.sub(" ", x)
                if not out or (isinstance(out[-1], tuple) and out[-1][1] in _BLOCKS):
                    x = x.lstrip(" ")
            if x:
                out.append(x)
    return out


@functools.lru_cache(maxsize=4096)
def _it(text, table):
    return render_it(text, table)


@functools.lru_cache(maxsize=1024)
def _cm(text):
    return render_cm(text)


def rendering_differs(before, after, table=False):
    """Both independent CommonMark implementations see a different document

    Demanding both guards against the parsers' own defects. Only one of them knows
    tables.
    """
    if before == after:
        return False
    if _it(before, table) == _it(after, table):
        return False
    return table or _cm(before) != _cm(after)


# --- Text ---------------------------------------------------------------------------

_KEPT = set("'\"()[]/!,;?&\\")


def letters(text):
    """The characters that are never block markup, in order"""
    return "".join(c for c in text if c.isalpha() or c in _KEPT)


def fill(chunks, w):
    """Greedily lay out (text, leading space, ends line) chunks. The reference layout."""
    lines = [""]
    fresh = True
    for text, space, ends in chunks:
        if fresh:
            lines[-1] = text
        else:
            candidate = lines[-1] + (" " if space else "") + text
            if w == INF or w <= 0 or len(candidate) <= w:
                lines[-1] = candidate
            else:
                lines.append(text)
        fresh = False
        if ends:
            lines.append("")
            fresh = True
    if fresh:
        lines.pop()
    return lines
