"""Concurrent calls do not interfere

Stateless exploration of the real code: every schedule with a bounded number of
preemptions, where each line (or bytecode) of markflow is a place to preempt a thread.
"""

import functools
import itertools
import logging
import os

from ..engine import FuncSpace
from ..logs import enabled, snapshot
from ..oracle import REPO, call
from ..sched import Run
from ..variants import VARIANTS

LEVEL = "model_checking"
ASSUMPTIONS = [
    "threads are only preempted in markflow's own code, not inside of the interpreter's "
    "libraries",
    "texts are those listed in mc/props/c19.py",
]
ROOT = os.path.join(os.path.realpath(REPO), "markflow")

DOCS = {
    "w": ("w", 88),
    "wrap": ("ab `c d` [e f](/g)", 3),
    "atx": ("#h", 88),
    "list": ("* a\n  * b", 88),
    "numbers": ("9. a b\n10. c", 6),
    "quote": ("> a b\n> > c", 5),
    "table": ("|a|\n|:-:|\n|b|", 88),
    "badtable": ("p\n\n|a|\n|-|\n|b|c|", 88),
    "badnested": ("* a\n  * |", 88),
    "fence": ("```\n#a\n```", 88),
    "unstable": ("> a\n===\nb", 88),
    "headings": ("> # q\nh\n=", 88),
    "definition": ("[a]:\n\n[b]: /c 'd'", 4),
    "break": ("***\nb", 9),
    "mix": (
        "# h\n\n* a b [c\n  d](/u)\n  1. `x y`\n\n> q\n> > r\n\n|a|b|\n|-|:-|\n|`c`|d|\n\n"
        "~~~\n * x\n~~~\n\n[l]: /u\n\nh\n--\n\n    i\n\n____\n", 9,
    ),
}
VARIED = {name: [f"{name} {i}" for i in range(len(texts))] for name, texts in VARIANTS.items()}
for _name, _texts in VARIANTS.items():
    DOCS.update((f"{_name} {i}", (text, [6, 88, 2, 10][i])) for i, text in enumerate(_texts))


@functools.lru_cache(maxsize=None)
def alone(name, opcodes):
    """Result, messages, the number of scheduling points, and the first and last ones at
    each place in the code"""
    with enabled() as capture:
        run = Run(
            [functools.partial(call, *DOCS[name])], [(0, None)], ROOT, opcodes, count=True
        )
        results = run.run()
        records = capture.take(run.idents[0])
    visits = {}
    for i, place in enumerate(run.trail):
        visits.setdefault(place, []).append(i)
    chosen = {i for v in visits.values() for i in v[:FIRST] + v[-1:]}
    return results[0], records, run.steps[0], sorted(chosen - {0})


def judge(names, plan, opcodes, r):
    expected = [alone(name, opcodes) for name in names]
    with enabled() as capture:
        before = repr(snapshot())
        run = Run([functools.partial(call, *DOCS[name]) for name in names], plan, ROOT, opcodes)
        results = run.run()
        after = repr(snapshot())
        records = [capture.take(ident) for ident in run.idents]
    r.transition(run.switches)
    r.outcome((results, records))
    r.validate(len(names))
    if results is None:
        r.violation("deadlock", texts=[DOCS[n][0] for n in names], schedule=plan)
        return
    for name, result, messages, wanted in zip(names, results, records, expected):
        if result != wanted[0]:
            r.violation(
                "result", text=DOCS[name][0], schedule=plan, expected=wanted[0], result=result
            )
        elif messages != wanted[1]:
            difference = [x for x in zip(wanted[1], messages) if x[0] != x[1]][:3]
            r.violation(
                "messages", text=DOCS[name][0], schedule=plan, expected_and_seen=difference,
            )
    if before != after:
        r.violation("logging-changed", texts=[DOCS[n][0] for n in names], schedule=plan)


def run(case, r):
    """All schedules of one kind"""
    names, kind, opcodes, chunk, chunks = case
    points = [alone(name, opcodes)[2] for name in names]
    count = 0
    if kind == "visits":
        # The first thread is preempted once
        chosen = ([(0, n), (1, None), (0, None)] for n in alone(names[0], opcodes)[3])
    else:
        chosen = plans(kind, points)
    for i, plan in enumerate(chosen):
        if i % chunks != chunk:
            continue
        judge(names, plan, opcodes, r)
        count += 1
        r.state((names, opcodes, plan))
        if r._case_violations:
            break
    r.count("schedules", count)
    if count > 1:
        r.interesting()


def plans(kind, points):
    if kind == "1":
        # The first thread is preempted once
        for i in range(1, points[0]):
            yield [(0, i), (1, None), (0, None)]
    elif kind == "2":
        # Each thread is preempted once
        for i in range(1, points[0]):
            for j in range(1, points[1]):
                yield [(0, i), (1, j), (0, None), (1, None)]
    elif kind == "2-again":
        # The first thread is preempted twice, by two other threads
        for i in range(1, points[0]):
            for j in range(1, points[0] - i):
                yield [(0, i), (1, None), (0, j), (2, None), (0, None)]
    elif kind == "alternate":
        # Round robin
        for q in QUANTA:
            if q < max(points):
                yield [(n % len(points), q) for n in range(4 * sum(points) // q + 4)]
    elif kind == "stack":
        # Three threads, each preempted by the next
        for i in range(1, points[0], 3):
            for j in range(1, points[1], 3):
                yield [(0, i), (1, j), (2, None), (1, None), (0, None)]


# How many of the first times a place in the code is reached count
FIRST = 3
QUANTA = [1, 2, 3, 5, 8, 13, 21, 34, 55, 89, 144, 233, 377]


def cases_of(names, kind, opcodes, chunks=1):
    for chosen in itertools.product(*names):
        for chunk in range(chunks):
            yield [list(chosen), kind, opcodes, chunk, chunks]


def varied_cases(kind, repeat, opcodes, chunks, n=None):
    for names in VARIED.values():
        for chosen in itertools.permutations(names[:n], repeat):
            for chunk in range(chunks):
                yield [list(chosen), kind, opcodes, chunk, chunks]


def spaces(tier):
    thorough = tier == "thorough"
    every = [name for name in DOCS if " " not in name]
    short = ["w", "atx", "table", "badtable", "fence", "definition", "badnested"]

    def space(name, *args, what, **kwargs):
        s = FuncSpace(
            name, lambda: cases_of(*args, **kwargs), run,
            f"{what}; texts of each thread: {args[0]}; nontrivial: there is more than one "
            "schedule",
        )
        s.cpu_seconds = 900
        return s

    result = [
        space("preempt-1", [every[:-1], ["badnested"]], "visits", False, chunks=8,
              what=f"one preemption of the first text at each line the first {FIRST} times "
              "and the last time it is reached"),
        space("preempt-1-same", [short, short], "visits", False, chunks=2,
              what=f"one preemption of the first text at each line the first {FIRST} times "
              "and the last time it is reached"),
        space("round-robin", [["list", "badnested", "wrap"]] * 2, "alternate", False,
              chunks=4, what=f"round robin with quanta of {QUANTA} lines"),
        space("preempt-2", [["atx"]] * 2, "2", False, chunks=16,
              what="each preempted once at every line"),
        space("bytecode", [["atx", "fence", "badtable"], ["mix"]],
              "visits", True, chunks=8, what="one preemption of the first text at each "
              f"bytecode the first {FIRST} times and the last time it is reached"),
    ]
    def varied(name, what, *args):
        s = FuncSpace(
            name, lambda: varied_cases(*args), run,
            f"{what}; the threads have different texts of one of {len(VARIED)} constructs; "
            "nontrivial: there is more than one schedule",
        )
        s.cpu_seconds = 900
        return s

    result += [
        varied("variants", f"one preemption of the first text at each line the first {FIRST} times "
               "and the last time it is reached", "visits", 2, False, 2, 2),
        varied("variants-alternate", "round robin", "alternate", 2, False, 1),
        space("preempt-1-mix", [["list", "quote", "break"], ["mix"]], "visits", False, chunks=8,
              what=f"one preemption of the first text at each line the first {FIRST} times "
              "and the last time it is reached"),
    ]
    if thorough:
        result += [
            space("bytecode-every", [["atx", "fence", "badtable"], ["mix"]],
                  "1", True, chunks=8, what="one preemption at every bytecode of the first text"),
            space("preempt-1-more", [["list", "quote", "break"], ["mix"]], "1", False, chunks=8,
                  what="one preemption at every line of the first text"),
            varied("variants-more", "one preemption at every line", "1", 2, False, 2),
            varied("variants-bytecode", "one preemption at every bytecode", "1", 2, True, 8, 2),
            varied("variants-3", "preempting each other at every third line", "stack", 3, False,
                   64, 3),
            space("preempt-1-all", [every, every], "1", False, chunks=2,
                  what="one preemption at every line of the first text"),
            space("preempt-2-more", [["w", "atx", "fence"]] * 2, "2", False,
                  chunks=64, what="each preempted once at every line"),
            space("bytecode-more", [every, ["mix", "badnested"]], "1", True, chunks=32,
                  what="one preemption at every bytecode"),
            space("preempted-twice", [["atx"], ["atx", "list"], ["atx", "badnested"]],
                  "2-again", False, chunks=16, what="two preemptions of the first text"),
            space("stacked", [["atx"], ["fence", "badtable"], ["atx", "mix"]], "stack",
                  False, chunks=16, what="preempting each other at every third line"),
            space("round-robin-more", [every, every], "alternate", False,
                  what=f"round robin with quanta of {QUANTA} lines"),
        ]
    return result
