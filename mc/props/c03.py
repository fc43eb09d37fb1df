"""Output is a fixed point or is refused"""

from .. import raw, tour
from ..oracle import call

LEVEL = "model_checking"


def run(case, r):
    text, w = case
    kind, out = call(text, w, r)
    if kind != "ok":
        return
    if out == text:
        # This call was its own second application
        r.validate()
        return
    r.interesting()
    again = call(out, w, r)
    r.validate()
    if again != ("ok", out):
        r.violation("unstable", first=out, second=list(again))


def spaces(tier):
    what = "the first application changed the text"
    return raw.spaces(run, tier, what) + tour.spaces(run, tier, what)
