"""A controlled scheduler: threads of real code that only switch where a plan says so

Every line (or bytecode) of the code under test that a thread is about to execute is a
scheduling point.  A plan is a list of (thread, number of points or None for "until it
ends").  Exactly one thread runs at a time.

Only threads that the plan preempts are traced, and only until the plan is used up.
"""

import sys
import threading
import time

STUCK_SECONDS = 2.0


_warm = False


def warm_up():
    """The first function an interpreter traces by bytecode isn't traced"""
    global _warm
    if _warm:
        return
    _warm = True

    def local(frame, event, arg):
        return local

    def tracer(frame, event, arg):
        frame.f_trace_opcodes = True
        return local

    def function():
        return 1

    before = sys.gettrace()
    for _ in range(2):
        sys.settrace(tracer)
        function()
        sys.settrace(before)


class Run:
    def __init__(self, functions, plan, root, opcodes=False, count=False):
        if opcodes:
            warm_up()
        self.functions = functions
        self.plan = list(plan)
        # Count the points of all threads to their ends
        self.count = count
        self.traced = {t for t, n in plan if n is not None or count}
        self.root = root
        self.opcodes = opcodes
        n = len(functions)
        self.turn = [threading.Semaphore(0) for _ in range(n)]
        self.done = [False] * n
        self.steps = [0] * n
        self.results = [None] * n
        self.idents = [None] * n
        self.current = None
        self.budget = None
        self.switches = 0
        # Where the points are
        self.trail = []
        self.blocked = set()
        self.finished = threading.Event()
        self.lock = threading.Lock()

    def _advance(self):
        """Hand over to the next thread of the plan"""
        while self.plan:
            thread, budget = self.plan.pop(0)
            if not self.done[thread] and thread not in self.blocked and budget != 0:
                break
        else:
            for thread in range(len(self.done)):
                if not self.done[thread] and thread not in self.blocked:
                    budget = None
                    break
            else:
                self.current = None
                if all(self.done):
                    self.finished.set()
                return
        self.current, self.budget = thread, budget
        self.switches += 1
        self.turn[thread].release()

    def _point(self, tid):
        self.steps[tid] += 1
        with self.lock:
            if self.current != tid:
                # It was blocked and others took over meanwhile
                self.blocked.discard(tid)
                if self.current is None:
                    self.current, self.budget = tid, None
                    return
            else:
                if self.budget is None:
                    if not self.plan and not self.count:
                        sys.settrace(None)
                    return
                if self.budget > 0:
                    self.budget -= 1
                    return
                self._advance()
                if self.current == tid:
                    self.turn[tid].acquire()
                    return
        self.turn[tid].acquire()

    def _thread(self, tid):
        self.idents[tid] = threading.get_ident()
        self.turn[tid].acquire()

        def local(frame, event, arg):
            if event == ("opcode" if self.opcodes else "line"):
                if self.count:
                    place = frame.f_lasti if self.opcodes else frame.f_lineno
                    self.trail.append((frame.f_code, place))
                self._point(tid)
            return local

        def tracer(frame, event, arg):
            if frame.f_code.co_filename.startswith(self.root):
                if self.opcodes:
                    frame.f_trace_opcodes = True
                return local
            return None

        try:
            if tid in self.traced:
                sys.settrace(tracer)
            try:
                self.results[tid] = self.functions[tid]()
            finally:
                sys.settrace(None)
        except BaseException as e:
            self.results[tid] = ("exception", f"{type(e).__name__}: {e}")
        with self.lock:
            self.done[tid] = True
            self.blocked.discard(tid)
            if self.current == tid or self.current is None:
                self._advance()

    def run(self):
        threads = [
            threading.Thread(target=self._thread, args=(i,), daemon=True)
            for i in range(len(self.functions))
        ]
        for thread in threads:
            thread.start()
        with self.lock:
            self._advance()
        before = None
        while not self.finished.wait(STUCK_SECONDS):
            with self.lock:
                now = (self.current, tuple(self.steps))
                if now == before and self.current is not None:
                    # Waits for something another thread has
                    self.blocked.add(self.current)
                    self._advance()
                    if self.current is None and len(self.blocked) == sum(
                        not d for d in self.done
                    ):
                        return None
                before = now
        for thread in threads:
            thread.join()
        return self.results
