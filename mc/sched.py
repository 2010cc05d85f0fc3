"""Controlled scheduler: real threads, switched only at chosen points of the library.

A thread's trace function counts the events (executed lines, or calls and returns) inside
the library.  A schedule is a list of (thread, events) segments: run this thread for so
many events, then the next one; the last segment of every thread has no limit.  All
schedules up to a number of preemptions are enumerated by the caller.
"""

import os
import sys
import threading

from mc.core import REPO

PREFIX = os.path.join(os.path.realpath(REPO), "infomeasure") + os.sep
BLOCKED = 3.0  # a thread waiting this long is taken to be blocked by another one
STUCK = 120.0


class Deadlock(Exception):
    pass


class Run:
    """One execution of several bodies under one schedule."""

    def __init__(self, bodies, segments, events, record=False):
        self.bodies = bodies
        self.segments = list(segments)
        self.events = events
        self.n = [0] * len(bodies)
        self.limit = [None] * len(bodies)
        self.out = [None] * len(bodies)
        self.done = [False] * len(bodies)
        self.sem = [threading.Semaphore(0) for _ in bodies]
        self.lock = threading.Lock()
        self.finished = threading.Event()
        self.switches = 0
        self.record = record
        self.points = [[] for _ in bodies]
        self.current = None

    def wanted(self, event):
        return event == "line" if self.events == "line" else event in ("call", "return")

    def tracer(self, i):
        def local(frame, event, arg):
            if self.wanted(event):
                self.point(i, frame)
            return local

        def outer(frame, event, arg):
            if not os.path.realpath(frame.f_code.co_filename).startswith(PREFIX) if frame.f_code not in CODES else not CODES[frame.f_code]:
                CODES[frame.f_code] = False
                return None
            CODES[frame.f_code] = True
            if self.wanted(event):
                self.point(i, frame)
            return local

        return outer

    def point(self, i, frame):
        self.n[i] += 1
        if self.record:
            self.points[i].append((frame.f_code.co_filename, frame.f_lineno))
        if self.limit[i] is not None and self.n[i] >= self.limit[i]:
            self.limit[i] = None
            self.switches += 1
            self.hand_over(i)

    def hand_over(self, i):
        """Give the processor to the next segment; wait for the own turn if there is one."""
        nxt = self.next_segment()
        if nxt is None or nxt == i:
            return
        self.sem[nxt].release()
        if not self.done[i]:
            # the other thread may be blocked on something this one holds: then go on
            self.sem[i].acquire(timeout=BLOCKED)

    def next_segment(self):
        with self.lock:
            while self.segments:
                t, steps = self.segments.pop(0)
                if self.done[t]:
                    continue
                self.limit[t] = None if steps is None else self.n[t] + steps
                self.current = t
                return t
            left = [t for t, d in enumerate(self.done) if not d]
            if left:
                self.limit[left[0]] = None
                return left[0]
            self.finished.set()
            return None

    def thread(self, i):
        self.sem[i].acquire()
        sys.settrace(self.tracer(i))
        try:
            self.out[i] = self.bodies[i]()
        except BaseException as exc:  # noqa: BLE001
            self.out[i] = ("raised", type(exc).__name__, str(exc)[:200])
        finally:
            sys.settrace(None)
        self.done[i] = True
        self.hand_over(i)

    def go(self):
        ts = [threading.Thread(target=self.thread, args=(i,), daemon=True) for i in range(len(self.bodies))]
        for t in ts:
            t.start()
        self.sem[self.next_segment()].release()
        if not self.finished.wait(STUCK):
            raise Deadlock(f"done: {self.done}")
        for t in ts:
            t.join(STUCK)
        return self.out


CODES = {}


def run(bodies, segments, events="line"):
    r = Run(bodies, segments, events)
    out = r.go()
    return out, r


def count(body, events="line"):
    """Number of switch points of a body on its own (and where they are)."""
    r = Run([body], [(0, None)], events, record=True)
    out = r.go()
    return out[0], r.n[0], r.points[0]
