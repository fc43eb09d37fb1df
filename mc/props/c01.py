"""No text is lost, duplicated or reordered"""

from .. import raw, tour
from ..oracle import call, letters

LEVEL = "model_checking"
ASSUMPTIONS = [
    "texts are built from the line and inline alphabets of mc/gen.py",
]


def run(case, r):
    text, w = case
    kind, out = call(text, w, r)
    if kind != "ok":
        return
    if out != text:
        r.interesting()
    r.validate()
    expected = letters(text)
    if letters(out) != expected:
        r.violation("letters", expected=expected, got=letters(out), output=out)


def spaces(tier):
    what = "the result differs from the input"
    return raw.spaces(run, tier, what) + tour.spaces(run, tier, what)
