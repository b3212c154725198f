"""
Controlled scheduler: runs functions on real threads, one at a time, switching only at chosen steps.

A step is one 'line' (or 'opcode') event of the interpreter inside the rebulk package, or ('shared') an entry into a method of one of
the given shared objects; a schedule is a list of (thread, steps) segments, the last
ones running to completion.
"""
from __future__ import annotations

import os
import sys
import threading

import rebulk

PKG = os.path.dirname(os.path.realpath(rebulk.__file__)) + os.sep
STUCK_S = 1.0
FOREVER = 1 << 60


def reachable(root):
    """ids of the instances of rebulk classes reachable from an object."""
    seen, todo, keep = set(), [root], []
    while todo:
        x = todo.pop()
        if id(x) in seen:
            continue
        if isinstance(x, dict):
            todo += list(x.values())
        elif isinstance(x, (list, tuple, set)):
            todo += list(x)
        if hasattr(x, "__dict__") and not isinstance(x, type) and not callable(x):
            todo += list(vars(x).values())
        if isinstance(x, (dict, list, tuple, set)) or hasattr(x, "__dict__"):
            seen.add(id(x))
            keep.append(x)
    return seen


class Sched:
    def __init__(self, fns, segments, granularity="line", shared=()):
        self.fns, self.segments, self.granularity = fns, list(segments), granularity
        self.shared = shared
        self.n = len(fns)
        self.sems = [threading.Semaphore(0) for _ in fns]
        self.steps = [0] * self.n
        self.done = [False] * self.n
        self.results = [None] * self.n
        self.pos = -1
        self.left = 0
        self.current = -1
        self.free = False
        self.counting = len(fns) == 1
        self.blocked = False  # a thread could not be scheduled (it waits for something another one holds)

    def _trace(self, me):
        gran = self.granularity
        files = {}

        steps = self.steps

        def local(frame, event, arg):
            if event == gran:
                steps[me] += 1
                self.left -= 1
                if self.left <= 0 and not self.free:
                    self.switch(me)
                    self.untrace()
            return local

        def on_call(frame, event, arg):
            name = frame.f_code.co_filename
            ours = files.get(name)
            if ours is None:
                ours = files[name] = os.path.realpath(name).startswith(PKG)
            if not ours:
                return None
            if gran == "opcode":
                frame.f_trace_opcodes = True
            if gran == "shared":
                if id(frame.f_locals.get("self")) in self.shared:
                    self.step(me)
                return None
            return local

        return on_call

    def step(self, me):
        self.steps[me] += 1
        if self.free:
            return
        self.left -= 1
        if self.left <= 0:
            self.switch(me)
            self.untrace()

    def untrace(self):
        """The running thread has no further switch point: full speed."""
        if self.left >= FOREVER // 2 and self.pos >= len(self.segments) - 1 and not self.counting:
            sys.settrace(None)

    def switch(self, me):
        """Start the next segment that has something to run."""
        while True:
            self.pos += 1
            if self.pos >= len(self.segments):
                nxt = [i for i in range(self.n) if not self.done[i]]
                if not nxt:
                    return
                who, steps = (me if me in nxt else nxt[0]), FOREVER
            else:
                who, steps = self.segments[self.pos]
                if self.done[who]:
                    continue
            break
        self.left = steps
        self.current = who
        if who != me:
            self.sems[who].release()
            if me >= 0 and not self.done[me]:
                self.wait(me)

    def wait(self, me):
        while not self.sems[me].acquire(timeout=STUCK_S):
            before = list(self.steps)
            if self.sems[me].acquire(timeout=STUCK_S):
                return
            if self.steps == before:  # nobody advances: the running thread waits for this one; give up controlling
                self.blocked = self.free = True
                for s in self.sems:
                    s.release()
                return

    def body(self, me):
        self.wait(me)
        sys.settrace(self._trace(me))
        self.untrace()
        try:
            res = ("ok", self.fns[me]())
        except BaseException as exc:  # the outcome of the call
            res = ("exc", type(exc).__name__, str(exc))
        finally:
            sys.settrace(None)
        self.results[me] = res
        self.done[me] = True
        if not self.free:
            self.switch(me)

    def run(self):
        threads = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(self.n)]
        for t in threads:
            t.start()
        self.switch(-1)
        for t in threads:
            t.join()
        return self.results
