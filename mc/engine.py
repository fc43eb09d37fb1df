"""Exhaustive explorer: enumerate every case of bounded spaces and judge the real code.

A property module defines spaces.  A space enumerates cases (plain JSON values) and a
`run(case, r)` that executes the code under test and reports to the recorder `r`.
Every case of every space is executed (cases are dealt to worker processes by index, so
nothing is sampled), each under a CPU time and memory limit.
"""

import hashlib
import itertools
import json
import mmap
import os
import pickle
import resource
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
WORKERS = int(os.environ.get("MC_WORKERS", "8"))
CASE_CPU_SECONDS = 20
MEMORY_LIMIT = 3 << 30
MAX_VIOLATIONS = 10  # per worker
STOP_SECONDS = 90  # Once there is a violation, don't go on longer than this
SCRATCH = None  # A directory that is removed at the end


def digest(obj):
    data = json.dumps(obj, sort_keys=True, ensure_ascii=True, default=repr)
    return hashlib.sha256(data.encode()).hexdigest()


def h8(obj):
    if not isinstance(obj, (bytes, bytearray)):
        obj = repr(obj).encode("utf-8", "surrogatepass")
    return hashlib.blake2b(obj, digest_size=8).digest()


class CaseTimeout(BaseException):
    pass


class Recorder:
    """What the run of a worker saw"""

    def __init__(self):
        self.states = set()
        self.outcomes = set()
        self.transitions = 0
        self.validated = 0
        self.evaluations = 0
        self.nontrivial = 0
        self.counters = {}
        self.violations = []
        self.samples = []
        self.space = None
        self.case = None
        self._case_violations = 0
        self._case_nontrivial = False

    def state(self, obj):
        self.states.add(h8(obj))

    def outcome(self, obj):
        self.outcomes.add(h8(obj))

    def transition(self, n=1):
        self.transitions += n

    def validate(self, n=1):
        """A prediction of the model was compared with the implementation"""
        self.validated += n

    def count(self, key, n=1):
        self.counters[key] = self.counters.get(key, 0) + n

    def interesting(self):
        self._case_nontrivial = True

    def violation(self, kind, **detail):
        if self._case_violations >= 3:
            return
        self._case_violations += 1
        self.violations.append(
            {"space": self.space, "case": self.case, "kind": kind, "detail": detail}
        )


class Space:
    name = "?"
    rule = ""
    # A violation of a known finding is matched on the case, the kind and the detail
    def cases(self):
        raise NotImplementedError

    def run(self, case, r):
        raise NotImplementedError


class FuncSpace(Space):
    def __init__(self, name, cases, run, rule=""):
        self.name = name
        self._cases = cases
        self._run = run
        self.rule = rule

    def cases(self):
        return self._cases()

    def run(self, case, r):
        return self._run(case, r)


def finding_id(v):
    return digest([v["space"], v["case"], v["kind"], v["detail"]])[:16]


def load_known(prop):
    known = {}
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line.startswith("known: "):
                continue
            fields = line.split(" ", 3)
            assert fields[1].startswith("property=") and fields[2].startswith("case=")
            if fields[1][9:] == prop:
                known[fields[2][5:]] = fields[3]
    return known


def _timeout(signum, frame):
    raise CaseTimeout()


def run_case(space, case, r):
    r.space, r.case = space.name, case
    r._case_violations = 0
    r._case_nontrivial = False
    r.evaluations += 1
    signal.setitimer(signal.ITIMER_VIRTUAL, getattr(space, "cpu_seconds", CASE_CPU_SECONDS))
    try:
        space.run(case, r)
    except CaseTimeout:
        r.violation("no-answer", text="no answer within the CPU time limit")
    except MemoryError:
        r.violation("no-answer", text="out of memory")
    except RecursionError:
        r.violation("no-answer", text="recursion limit")
    except Exception:
        # Anything the oracle can't digest is reported with the case: either the code
        # under test produced something impossible or the check is broken.
        r.violation("harness-exception", text=traceback.format_exc(limit=-6))
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    if r._case_nontrivial:
        r.nontrivial += 1
    return r._case_violations


def prepare():
    """Limits for this process"""
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY_LIMIT, MEMORY_LIMIT))
    signal.signal(signal.SIGVTALRM, _timeout)


def _worker(index, workers, spaces, shared, write_fd, known, started):
    prepare()
    r = Recorder()
    per_space = {}
    unlisted = 0
    complete = True
    for space_index, space in enumerate(spaces):
        before = (r.evaluations, r.transitions)
        for i, case in enumerate(space.cases()):
            if i % workers != index:
                continue
            struct.pack_into("qq", shared, index * 16, space_index, i)
            n = run_case(space, case, r)
            if i < 2 and space_index < 12:
                r.samples.append({"space": space.name, "case": case})
            if n:
                unlisted += sum(
                    finding_id(v) not in known for v in r.violations[-n:]
                )
                if unlisted >= MAX_VIOLATIONS:
                    complete = False
                    break
                if unlisted:
                    shared[-1] = 1
            if shared[-1] and time.monotonic() - started > STOP_SECONDS:
                complete = False
                break
        per_space[space.name] = r.evaluations - before[0]
        if not complete:
            break
    r.per_space = per_space
    r.complete = complete
    r.case = None
    with os.fdopen(write_fd, "wb") as f:
        pickle.dump(r.__dict__, f)


def explore(spaces, prop, workers=WORKERS):
    """Run all cases of all spaces. Returns the merged recorder."""
    global SCRATCH
    SCRATCH = tempfile.mkdtemp(prefix="markflow-mc-")
    os.chmod(SCRATCH, 0o755)
    try:
        return _explore(spaces, prop, workers)
    finally:
        shutil.rmtree(SCRATCH, ignore_errors=True)


def _explore(spaces, prop, workers):
    known = load_known(prop)
    shared = mmap.mmap(-1, 16 * workers + 1)
    pids, fds = [], []
    started = time.monotonic()
    sys.stdout.flush()
    for index in range(workers):
        read_fd, write_fd = os.pipe()
        pid = os.fork()
        if pid == 0:
            status = 1
            try:
                os.close(read_fd)
                _worker(index, workers, spaces, shared, write_fd, known, started)
                status = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stderr.flush()
                os._exit(status)
        os.close(write_fd)
        pids.append(pid)
        fds.append(read_fd)

    total = Recorder()
    total.per_space = {}
    total.complete = True
    for index, (pid, fd) in enumerate(zip(pids, fds)):
        with os.fdopen(fd, "rb") as f:
            data = f.read()
        _, status = os.waitpid(pid, 0)
        if status != 0 or not data:
            # The worker died: the case it was working on is the culprit
            space_index, i = struct.unpack_from("qq", shared, index * 16)
            space = spaces[space_index]
            case = next(itertools.islice(space.cases(), i, None), None)
            total.violations.append(
                {
                    "space": space.name,
                    "case": case,
                    "kind": "process-died",
                    "detail": {"status": status},
                }
            )
            total.complete = False
            continue
        d = pickle.loads(data)
        total.states |= d["states"]
        total.outcomes |= d["outcomes"]
        for key in ("transitions", "validated", "evaluations", "nontrivial"):
            setattr(total, key, getattr(total, key) + d[key])
        for key, n in d["counters"].items():
            total.count(key, n)
        for key, n in d["per_space"].items():
            total.per_space[key] = total.per_space.get(key, 0) + n
        total.violations += d["violations"]
        total.samples += d["samples"]
        total.complete = total.complete and d["complete"]
    return total


def finish(prop, tier, level, total, spaces, started, extra=None, assumptions=()):
    known = load_known(prop)
    unlisted, listed = [], {}
    for v in total.violations:
        fid = finding_id(v)
        if fid in known:
            listed[fid] = known[fid]
        else:
            unlisted.append(v)
    # Deterministic and simplest first
    unlisted.sort(key=lambda v: (len(json.dumps(v["case"])), json.dumps(v["case"])))

    coverage = {
        "states": len(total.states),
        "transitions": total.transitions,
        "traces_validated_against_impl": total.validated,
        "evaluations": total.evaluations,
        "distinct_nontrivial": total.nontrivial,
        "distinct_outcomes": len(total.outcomes),
        "rule": " | ".join(f"{s.name}: {s.rule}" for s in spaces),
        "samples": total.samples[:10],
        "cases_per_space": total.per_space,
        "exhaustive": total.complete,
    }
    if total.counters:
        coverage["counters"] = total.counters
    if extra:
        coverage.update(extra)
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "0") or 0),
        "level": level,
        "coverage": coverage,
        "assumptions": list(assumptions),
        "wall_s": round(time.time() - started, 3),
        "violations": len(unlisted),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1, default=repr)
        f.write("\n")

    for fid, what in sorted(listed.items()):
        print(f"KNOWN-FINDING: property={prop} {what}")
    replays = os.path.join(VERIF, "replays")
    for n, v in enumerate(unlisted[:5]):
        os.makedirs(replays, exist_ok=True)
        path = os.path.join(replays, f"{prop}-{finding_id(v)}.json")
        with open(path, "w") as f:
            json.dump(dict(v, property=prop, tier=tier, id=finding_id(v)), f, indent=1)
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  {v['kind']} in {v['space']}: {json.dumps(v['case'])[:300]}")
        print(f"  {json.dumps(v['detail'], default=repr)[:600]}")
    print(
        f"{prop}: {total.evaluations} cases, {len(total.states)} states, "
        f"{total.transitions} transitions, {total.validated} validated, "
        f"{len(total.outcomes)} outcomes, {len(unlisted)} violations "
        f"({len(listed)} known), {time.time() - started:.1f} s"
    )
    return 1 if unlisted else 0
