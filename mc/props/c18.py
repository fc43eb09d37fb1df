"""Calls are independent and leave logging as they found it

A state is a process; a transition is a call.  Every sequence of calls is run in a process
of its own and each call is compared with the same call in a process that did nothing else.
"""

import functools
import io
import itertools
import logging
import sys

from ..engine import FuncSpace
from ..fork import in_fork
from ..logs import snapshot
from ..oracle import call
from ..variants import VARIANTS

LEVEL = "model_checking"
ASSUMPTIONS = ["calls are those listed in mc/props/c18.py"]

OPS = {
    "paragraph-1": ("Lorem ipsum [a b](/c) `d  e` f<br>g", 1),
    "paragraph-inf": ("Lorem ipsum [a b](/c) `d  e` f<br>g", "inf"),
    "paragraph-more": ("Lorem ipsum [a b](/c) `d  e` f<br>g\nmore", 12),
    "two-paragraphs": ("a\nb\n\nc", 40),
    "atx": ("#h\n##  i\n", 20),
    "setext-after-quote": ("> # q\nh\n===\n\np", 20),
    "table": ("|a|b|\n|:-|-|\n|c|d|\n\n* x\n* y", 20),
    "bad-table": ("p\n\n|a|b|\n|-|-|\n|c|", 20),
    "bad-table-in-list": ("* a\n* b\n\n  x\n\n* | y |", 20),
    "bad-table-in-quote": ("p\n\n> * > a\n>\n> | y |", 20),
    "inconsistent": ("> a\n===\nb", 20),
    "lists": ("9. a b c d e f\n10. b\n    * c\n    * ```\n      x\n      ```\n", 12),
    "lists-wide": ("9. a b c d e f\n10. b\n    * c\n    * ```\n      x\n      ```\n", 88),
    "quotes": ("> a b c d e f\n> > g\n\n>h\n", 8),
    "fence": ("```py\nx\n", 20),
    "overfence": ("~~~\nx\n     ~~~\ny", 20),
    "backticks": ("a ``b `c", 3),
    "definition": ("[a]: /b 'c d'\n\n[e]:\n\nf", 5),
    "empty": ("", 20),
    "break": ("***\n\n- a\n***\n", "inf"),
}
NESTED = "> " * 4 + "* " * 3 + "a b c\n\np"


# --- Logging configurations ----------------------------------------------------------


class Raising(logging.Handler):
    """Fails at the nth record"""

    def __init__(self, n):
        super().__init__()
        self.n = n

    def emit(self, record):
        self.n -= 1
        if self.n == 0:
            raise ZeroDivisionError("handler")


class Listing(logging.Handler):
    def __init__(self):
        super().__init__()
        self.records = []

    def emit(self, record):
        self.records.append((record.levelno, record.name, record.getMessage()))


def configure(name):
    """Returns the handler that sees all records"""
    logging.disable(logging.NOTSET)
    listing = Listing()
    root = logging.getLogger()
    root.handlers[:] = [listing]
    root.setLevel(logging.DEBUG)
    if name == "info":
        root.setLevel(logging.INFO)
    elif name == "warning":
        root.setLevel(logging.WARNING)
    elif name == "disabled":
        logging.disable(logging.INFO)
    elif name == "own":
        # A configuration below the root logger
        root.handlers[:] = []
        logger = logging.getLogger("markflow")
        logger.setLevel(15)
        logger.propagate = False
        logger.addHandler(listing)
        logger.addFilter(logging.Filter("markflow"))
        logging.getLogger("markflow.reformat_markdown").setLevel(logging.INFO)
        logging.getLogger("markflow.parser").disabled = True
    elif name == "names":
        logging.addLevelName(logging.INFO, "Hello")
        logging.addLevelName(logging.DEBUG, "World")
        logging.addLevelName(15, "Between")
    elif name == "bare":
        root.handlers[:] = []
        root.setLevel(logging.WARNING)
        # Written to by the handler of last resort
        sys.stderr = io.StringIO()
    return listing


CONFIGS = ["debug", "info", "warning", "disabled", "own", "names", "bare"]


def one(op, listing):
    text, w = OPS[op]
    before = snapshot()
    outcome = call(text, w)
    after = snapshot()
    records, listing.records = listing.records, []
    return outcome, records, repr(before) == repr(after) or _difference(before, after)


def _difference(before, after):
    return [
        [repr(a)[:300], repr(b)[:300]] for a, b in zip(before, after) if repr(a) != repr(b)
    ]


def sequence(config, ops):
    listing = configure(config)
    return [one(op, listing) for op in ops]


@functools.lru_cache(maxsize=None)
def alone(config, op):
    return in_fork(sequence, config, [op])[0]


def ranges_of(records):
    result = []
    for level, name, message in records:
        if level == logging.INFO and name.startswith("markflow"):
            prefix = message.split(":")[0]
            if not prefix.startswith("Line"):
                return message
            a, _, b = prefix.split(" ")[1].partition("-")
            result.append((int(a), int(b or a)))
    return result


def run(case, r):
    config, ops = case
    results = in_fork(sequence, config, ops)
    state = ()
    for op, (outcome, records, untouched) in zip(ops, results):
        r.transition()
        state += (op,)
        r.state((config, state))
        r.outcome((outcome, records))
        if len(state) > 1:
            r.interesting()
        wanted_outcome, wanted_records, _ = alone(config, op)
        r.validate()
        if outcome != wanted_outcome:
            r.violation("outcome", calls=list(state), expected=wanted_outcome, outcome=outcome)
        elif records != wanted_records:
            r.violation("messages", calls=list(state), expected=wanted_records, messages=records)
        if untouched is not True:
            r.violation("logging-changed", calls=list(state), difference=untouched)
        # Informational messages are about each line of the text once
        text = OPS[op][0]
        if config in ("debug", "info", "names"):
            ranges = ranges_of(records)
            flat = [n for a, b in ranges for n in range(a, b + 1)] if isinstance(ranges, list) else ranges
            count = len(text.splitlines())
            if flat != list(range(1, count + 1)):
                r.violation("informational", text=text, messages=ranges)


def sequences(configs, depths):
    for depth in depths:
        for ops in itertools.product(OPS, repeat=depth):
            for config in configs:
                yield [config, list(ops)]


# --- A handler that fails at any record, before further calls --------------------------


def failing(op, n, following):
    listing = configure("debug")
    raising = Raising(n)
    root = logging.getLogger()
    root.addHandler(raising)
    before = snapshot()
    text, w = OPS[op]
    outcome = call(text, w)
    same = repr(before) == repr(snapshot()) or _difference(before, snapshot())
    root.removeHandler(raising)
    listing.records = []
    return outcome, raising.n, same, one(following, listing)


def run_failing(case, r):
    op, following = case
    n = 0
    while True:
        n += 1
        outcome, left, same, after = in_fork(failing, op, n, following)
        r.transition(2)
        r.state((op, n, following))
        r.outcome(outcome)
        if left > 0:
            # There were fewer messages
            break
        r.interesting()
        r.validate()
        if same is not True:
            r.violation("logging-changed", op=op, record=n, difference=same)
        if after != alone("debug", following):
            r.violation(
                "after-failure", op=op, record=n, following=following,
                expected=alone("debug", following), outcome=after,
            )
    r.count("failing messages", n - 1)


# --- The stack ends at any depth -----------------------------------------------------


def exhausted(room, following):
    listing = configure("info")
    before = snapshot()
    old = sys.getrecursionlimit()
    depth = len(_stack())
    sys.setrecursionlimit(depth + room)
    try:
        try:
            outcome = call(NESTED, 20)
        except RecursionError:
            outcome = ("stack", "")
    finally:
        sys.setrecursionlimit(old)
    same = repr(before) == repr(snapshot()) or _difference(before, snapshot())
    listing.records = []
    return outcome, same, one(following, listing)


def _stack():
    frame, result = sys._getframe(), []
    while frame:
        result.append(frame)
        frame = frame.f_back
    return result


def run_exhausted(case, r):
    room, following = case
    outcome, same, after = in_fork(exhausted, room, following)
    r.transition(2)
    r.state((room, following))
    r.outcome(outcome)
    r.count(outcome[0])
    if outcome[0] != "ok":
        r.interesting()
    r.validate()
    if same is not True:
        r.violation("logging-changed", room=room, difference=same)
    if after != alone("info", following):
        r.violation(
            "after-failure", room=room, following=following,
            expected=alone("info", following), outcome=after,
        )


def many(config, first, n, last):
    listing = configure(config)
    before = snapshot()
    results = []
    for _ in range(n):
        result = one(first, listing)
        if result not in results:
            results.append(result)
    final = one(last, listing)
    return results, final, repr(before) == repr(snapshot()) or _difference(before, snapshot())


def run_many(case, r):
    config, first, n, last = case
    results, final, same = in_fork(many, config, first, n, last)
    r.transition(n + 1)
    r.state((config, first, n, last))
    r.outcome(final)
    r.validate()
    r.interesting()
    if results != [alone(config, first)]:
        r.violation("outcome", call=first, expected=alone(config, first), outcomes=results)
    if final != alone(config, last):
        r.violation("outcome", calls=[first, n, last], expected=alone(config, last), outcome=final)
    if same is not True:
        r.violation("logging-changed", call=first, difference=same)


# --- Variants of the same construct -----------------------------------------------------


def plain_sequence(calls):
    return [call(text, w) for text, w in calls]


@functools.lru_cache(maxsize=None)
def plain_alone(text, w):
    return in_fork(plain_sequence, [(text, w)])[0]


def run_variants(case, r):
    results = in_fork(plain_sequence, case)
    r.transition(len(case))
    r.state(case)
    r.outcome(results)
    r.validate()
    if any(a != b for a, b in zip(case, case[1:])):
        r.interesting()
    for i, ((text, w), result) in enumerate(zip(case, results)):
        wanted = plain_alone(text, w)
        if result != wanted:
            r.violation("outcome", calls=case[: i + 1], expected=wanted, outcome=result)


def variants(widths, depth):
    for texts in VARIANTS.values():
        yield from (
            [list(c) for c in calls]
            for calls in itertools.product(itertools.product(texts, widths), repeat=depth)
        )


def mixed_variants(widths):
    texts = [text for texts in VARIANTS.values() for text in texts]
    for a, b in itertools.product(texts, repeat=2):
        yield from ([[a, v], [b, w]] for v, w in widths)


def spaces(tier):
    thorough = tier == "thorough"
    names = list(OPS)
    result = [
        FuncSpace(
            "pairs", lambda: sequences(CONFIGS, [1, 2]), run,
            f"every sequence of one or two of {len(OPS)} calls in each of "
            f"{len(CONFIGS)} logging configurations; nontrivial: more than one call",
        ),
        FuncSpace(
            "triples", lambda: sequences(["debug"] if not thorough else CONFIGS[:2], [3]),
            run, f"every sequence of three of {len(OPS)} calls",
        ),
        FuncSpace(
            "failing-handler",
            lambda: ([a, b] for a in names for b in (
                names if thorough else ["two-paragraphs", "lists", "inconsistent", "overfence"])),
            run_failing,
            "a log handler failing at each of the messages of each call, followed by "
            "another call; nontrivial: there was such a message",
        ),
        FuncSpace(
            "stack",
            lambda: ([n, following] for n in range(5, 400 if not thorough else 600)
                     for following in (names if thorough else ["two-paragraphs", "lists", "overfence"])),
            run_exhausted,
            "the stack ending at each depth, followed by another call; nontrivial: it did",
        ),
    ]
    result.append(
        FuncSpace(
            "many",
            lambda: (
                [config, first, n, last]
                for config in ("debug", "info") for first in names for n in (10, 70)
                for last in ("two-paragraphs", "lists", "table", "definition")
            ),
            run_many,
            "a call again and again, followed by another; nontrivial: always",
        )
    )
    result.append(
        FuncSpace(
            "thousands",
            lambda: (
                ["info", first, 3000, "lists"]
                for first in ("bad-table", "bad-table-in-list", "bad-table-in-quote", "inconsistent",
                              "lists", "quotes")
            ),
            run_many,
            "a call that fails or that has nested sections 3000 times, followed by another",
        )
    )
    what = "nontrivial: the calls are different"
    result += [
        FuncSpace(
            "variants", lambda: variants([2, 6, 10, 88, "inf"], 2), run_variants,
            f"every two calls with texts of one of {len(VARIANTS)} constructs and line lengths; "
            + what,
        ),
        FuncSpace(
            "variants-3", lambda: variants([2, 88] if not thorough else [2, 6, 88], 3),
            run_variants,
            "every three calls with texts of one of these constructs and line lengths; " + what,
        ),
        FuncSpace(
            "mixed", lambda: mixed_variants(
                [(4, 88), (88, 4)] if not thorough
                else list(itertools.product([1, 4, 9, 88], repeat=2))),
            run_variants, "every two calls with any of these texts; " + what,
        ),
    ]
    return result
