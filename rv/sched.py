"""Controlled scheduler: real threads stepped through the library's source lines, one running at a time.

A plan is a list of (thread, steps) segments: thread t executes `steps` traced events (source lines of the library and
of the code it generates, or byte code instructions), then control moves to the next segment; steps None means to its
end.  After the plan the unfinished threads run to their ends in order.
"""
from __future__ import annotations

import _thread
import sys
import time

from . import boot
from .lib import Err

WAIT = 2.0        # seconds a thread waits for another one that may be blocked on a lock of the library's own


def traced(fn):
    return fn.startswith(boot.PKG_DIR) or fn.startswith("<") and not fn.startswith("<frozen")


class Run:
    """One execution of the tasks under a plan."""

    patience = WAIT
    blocked_runs = 0

    def __init__(self, tasks, plan, opcodes=False, record=False):
        self.tasks, self.plan, self.opcodes = tasks, list(plan), opcodes
        n = len(tasks)
        self.n = n
        self.results = [None] * n
        self.done = [False] * n
        self.sems = [_thread.allocate_lock() for _ in range(n)]
        self.fin = [_thread.allocate_lock() for _ in range(n)]
        for s in self.sems + self.fin:
            s.acquire()
        self.free = False          # control was given up because a thread blocked
        self.seg = -1
        self.left = -1
        self.switches = []         # (from thread, location, to thread)
        self.locs = [] if record else None
        self.steps = [0] * n
        self.hung = False

    # -- control
    def next_thread(self):
        """Advance the plan; the thread that runs next or None."""
        while self.seg + 1 < len(self.plan):
            self.seg += 1
            t, k = self.plan[self.seg]
            if not self.done[t] and k != 0:
                self.left = -1 if k is None else k
                return t
        self.left = -1
        for t in range(self.n):
            if not self.done[t]:
                return t
        return None

    def wake(self, t):
        try:
            self.sems[t].release()
        except RuntimeError:
            pass

    def point(self, tid, frame):
        self.steps[tid] += 1
        if self.locs is not None:
            c = frame.f_code
            self.locs.append((c.co_filename, c.co_qualname, frame.f_lineno))
        if self.free or self.left < 0:
            return
        if self.left > 0:
            self.left -= 1
            return
        t = self.next_thread()
        if t is None or t == tid:
            return
        if len(self.switches) < 50:
            c = frame.f_code
            self.switches.append((tid, f"{c.co_filename.rsplit('/', 1)[-1]}:{frame.f_lineno} {c.co_qualname}", t))
        self.wake(t)
        if not self.sems[tid].acquire(timeout=Run.patience):
            # the other thread waits for something this one holds: let everything run
            self.free = True
            Run.blocked_runs += 1
            if Run.blocked_runs > 5:
                Run.patience = 0.02
            for x in range(self.n):
                if x != tid:
                    self.wake(x)

    def body(self, tid):
        self.sems[tid].acquire()

        def local(frame, event, arg):
            if event == what:
                self.point(tid, frame)
            return local

        def glob(frame, event, arg):
            if not traced(frame.f_code.co_filename):
                return None
            if opc:
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            return local

        opc = self.opcodes
        what = "opcode" if opc else "line"
        sys.settrace(glob)
        try:
            r = self.tasks[tid]()
        except BaseException as e:  # noqa: BLE001
            sys.settrace(None)
            e.__traceback__ = None
            r = Err(e)
        sys.settrace(None)
        self.results[tid] = r
        self.done[tid] = True
        if not self.free:
            t = self.next_thread()
            if t is not None:
                self.wake(t)
        self.fin[tid].release()

    def go(self):
        for t in range(self.n):
            _thread.start_new_thread(self.body, (t,))
        t = self.next_thread()
        self.wake(t)
        end = time.monotonic() + 30
        for t in range(self.n):
            if not self.fin[t].acquire(timeout=max(0.1, end - time.monotonic())):
                self.hung = True
        return self.results
