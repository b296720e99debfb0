"""Controlled scheduler: explores interleavings of real threads.

Every thread runs under sys.settrace; before each source line of the library
the thread may be suspended.  Only one thread runs at a time, so a run is fully
determined by its script: a list of (thread, number of lines) segments; after
the script the threads are completed in order of their numbers.
"""
import sys
import threading


class Run:
    BLOCKED = 3.0  # seconds without reaching the next switch: waits for a lock

    def __init__(self, fns, script, where="pykrige"):
        n = len(fns)
        self.fns = fns
        self.where = where
        self.sems = [threading.Semaphore(0) for _ in range(n)]
        self.back = [threading.Semaphore(0) for _ in range(n)]
        self.budget = [None] * n
        self.lines = [0] * n
        self.done = [False] * n
        self.result = [None] * n
        self.blocked = False
        self.switched = 0
        threads = [threading.Thread(target=self._main, args=(t,), daemon=True) for t in range(n)]
        for t in threads:
            t.start()
        waiting = set()
        for t, m in list(script) + [(t, None) for t in range(n)] * 2:
            if self.done[t]:
                continue
            if t not in waiting:
                self.budget[t] = m
                self.sems[t].release()
                self.switched += 1
            if self.back[t].acquire(timeout=self.BLOCKED):
                waiting.discard(t)
            else:
                waiting.add(t)
                self.blocked = True
        for t in threads:
            t.join(60.0)

    def _main(self, t):
        self.sems[t].acquire()
        sys.settrace(lambda f, e, a: self._trace(t, f, e, a))
        try:
            self.result[t] = ("value", self.fns[t]())
        except BaseException as e:
            self.result[t] = ("error", "%s: %s" % (type(e).__name__, e))
        finally:
            sys.settrace(None)
            self.done[t] = True
            self.back[t].release()

    def _trace(self, t, frame, event, arg):
        if self.where not in frame.f_code.co_filename:
            return None
        if event == "line":
            b = self.budget[t]
            if b is not None:
                if b <= 0:
                    self.back[t].release()
                    self.sems[t].acquire()
                    b = self.budget[t]
                if b is not None:
                    self.budget[t] = b - 1
            self.lines[t] += 1
        return lambda f, e, a: self._trace(t, f, e, a)


def lines_of(fn, where="pykrige"):
    """Number of preemption points of an operation."""
    return Run([fn], [], where).lines[0]


def scripts(counts, bound):
    """All schedules of two threads with at most `bound` preemptions.

    A schedule with b preemptions switches b times before a thread is done."""
    na, nb = counts
    yield []
    yield [(1, None)]
    if bound >= 1:
        for i in range(1, na):
            yield [(0, i), (1, None)]
        for j in range(1, nb):
            yield [(1, j), (0, None)]
    if bound >= 2:
        for i in range(1, na):
            for j in range(1, nb):
                yield [(0, i), (1, j), (0, None)]
                yield [(1, j), (0, i), (1, None)]
