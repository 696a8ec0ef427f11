"""Deterministic control over threads and asynchronous interrupts.

Real threads are parked and released one at a time. The only points at which control can
move are executed source lines of the code under test ("line" events); which of them are
switches is decided by the scenario. Asynchronous interrupts are raised at the N-th such
line.
"""
import os
import sys
import threading

from dst.env import REPO
from dst.util import HarnessError

SRC = os.path.realpath(os.path.join(REPO, "src", "tranquilo")) + os.sep
SUB = os.path.join(SRC, "subsolvers") + os.sep


def _wanted(filename, cache, subsolvers):
    got = cache.get(filename)
    if got is None:
        real = os.path.realpath(filename)
        got = real.startswith(SRC) and (subsolvers or not real.startswith(SUB))
        cache[filename] = got
    return got


class LineCounter:
    """Counts traced lines; optionally raises at line number ``at``."""

    def __init__(self, at=None, make_exc=None, subsolvers=True, on_fire=None):
        self.n = 0
        self.at = at
        self.make_exc = make_exc
        self.subsolvers = subsolvers
        self.on_fire = on_fire
        self.fired_at = None
        self.exc = None
        self.cache = {}

    def _global(self, frame, event, arg):
        if event == "call" and _wanted(
            frame.f_code.co_filename, self.cache, self.subsolvers
        ):
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == "line":
            self.n += 1
            if self.at is not None and self.n == self.at and self.exc is None:
                self.fired_at = (
                    os.path.basename(frame.f_code.co_filename),
                    frame.f_code.co_name,
                )
                if self.on_fire is not None:
                    self.on_fire()
                self.exc = self.make_exc()
                raise self.exc
        return self._local

    def run(self, func):
        old = sys.gettrace()
        sys.settrace(self._global)
        try:
            return func()
        finally:
            sys.settrace(old)


class Scheduler:
    """Runs several functions as threads, exactly one of them at any time."""

    def __init__(self, funcs, switches, subsolvers=False, timeout=240):
        self.funcs = funcs
        self.n = len(funcs)
        # list of [lines until the switch, offset to the next thread]
        self.switches = list(switches)
        self.pos = 0
        self.lines = 0
        self.next_at = None
        self._arm()
        self.sems = [threading.Semaphore(0) for _ in funcs]
        self.alive = [True] * self.n
        self.results = [None] * self.n
        self.errors = [None] * self.n
        self.done = threading.Semaphore(0)
        self.cache = {}
        self.subsolvers = subsolvers
        self.timeout = timeout
        self.n_switches = 0
        self.log = []

    def _arm(self):
        if self.pos < len(self.switches):
            self.next_at = self.lines + int(self.switches[self.pos][0])
        else:
            self.next_at = None

    def _other(self, me, offset):
        order = [(me + 1 + (offset + j) % self.n) % self.n for j in range(self.n)]
        for j in order:
            if j != me and self.alive[j]:
                return j
        return None

    def _tick(self, me, frame):
        self.lines += 1
        if self.next_at is not None and self.lines >= self.next_at:
            offset = int(self.switches[self.pos][1])
            self.pos += 1
            self._arm()
            self.yield_to(me, offset, frame.f_code.co_name)

    def yield_to(self, me, offset, where):
        other = self._other(me, offset)
        if other is None:
            return
        self.n_switches += 1
        self.log.append((me, other, where))
        self.sems[other].release()
        if not self.sems[me].acquire(timeout=self.timeout):
            raise HarnessError("scheduler: thread was never resumed")

    def _thread(self, me):
        def local(frame, event, arg):
            if event == "line":
                self._tick(me, frame)
            return local

        def glob(frame, event, arg):
            if event == "call" and _wanted(
                frame.f_code.co_filename, self.cache, self.subsolvers
            ):
                return local
            return None

        self.sems[me].acquire()
        try:
            sys.settrace(glob)
            try:
                self.results[me] = self.funcs[me]()
            finally:
                sys.settrace(None)
        except BaseException as e:  # noqa: BLE001
            self.errors[me] = e
        self.alive[me] = False
        other = self._other(me, 0)
        if other is None:
            self.done.release()
        else:
            self.log.append((me, other, "<end>"))
            self.sems[other].release()

    def run(self):
        threads = [
            threading.Thread(target=self._thread, args=(i,), daemon=True)
            for i in range(self.n)
        ]
        for t in threads:
            t.start()
        self.sems[0].release()
        if not self.done.acquire(timeout=self.timeout):
            raise HarnessError("scheduler: threads did not finish (deadlock?)")
        for t in threads:
            t.join(10)
        for e in self.errors:
            if e is not None:
                raise e
        return self.results
