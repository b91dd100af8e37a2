"""Real threads, simulated scheduling: one thread runs at a time and only the
plan's random source decides who is next, at points the simulator owns (a seam
call, or a traced source line of chosen files)."""
from __future__ import annotations

import os
import sys
import threading


class Interrupt(KeyboardInterrupt):
    """an injected asynchronous signal"""


class LineFaults:
    """Raise Interrupt at the n-th traced line of the chosen files; or call a
    hook at every traced line."""

    def __init__(self, files, at=None, hook=None):
        self.files = tuple(os.sep + f for f in files)
        self.at = at
        self.hook = hook
        self.n = 0
        self.fired = None
        self.known: dict = {}

    def want(self, code) -> bool:
        try:
            return self.known[code]
        except KeyError:
            r = self.known[code] = code.co_filename.endswith(self.files)
            return r

    def glob(self, frame, event, arg):
        return self.local if self.want(frame.f_code) else None

    def local(self, frame, event, arg):
        if event == 'line':
            self.n += 1
            if self.at is not None and self.n == self.at:
                self.fired = f'{os.path.basename(frame.f_code.co_filename)}:{frame.f_code.co_name}'
                sys.settrace(None)
                raise Interrupt
            if self.hook is not None:
                self.hook()
        return self.local

    def __enter__(self):
        sys.settrace(self.glob)
        return self

    def __exit__(self, *a):
        sys.settrace(None)


class Baton:
    def __init__(self, rng, out=None):
        self.rng = rng
        self.out = out
        self.tasks: list = []
        self.live: list[int] = []
        self.now = -1
        self.switches = 0
        self.errors: dict = {}
        self.results: dict = {}
        self.done = threading.Semaphore(0)

    def spawn(self, fn, trace: LineFaults | None = None):
        k = len(self.tasks)
        sem = threading.Semaphore(0)

        def body():
            sem.acquire()
            try:
                if trace is not None:
                    sys.settrace(trace.glob)
                try:
                    self.results[k] = fn()
                finally:
                    sys.settrace(None)
            except BaseException as e:
                self.errors[k] = e
            self.live.remove(k)
            if self.live:
                self._give(self.live[self.rng.randrange(len(self.live))])
            else:
                self.done.release()

        t = threading.Thread(target=body, daemon=True)
        self.tasks.append((t, sem))
        self.live.append(k)
        t.start()
        return k

    def _give(self, k):
        self.now = k
        self.tasks[k][1].release()

    def yield_point(self):
        """the running task may lose the processor here"""
        if len(self.live) < 2:
            return
        k = self.live[self.rng.randrange(len(self.live))]
        me = self.now
        if k == me:
            return
        self.switches += 1
        self._give(k)
        self.tasks[me][1].acquire()

    def run(self):
        if not self.live:
            return
        self._give(self.live[self.rng.randrange(len(self.live))])
        self.done.acquire()
        for t, _ in self.tasks:
            t.join()
