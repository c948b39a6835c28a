"""Seeded scheduling of real threads.

Every thread is parked at each line (or each byte-code instruction) that it
executes inside the package; only the holder of the baton runs. A schedule is a
list of preemptions "when task T is at its point P, task U goes on", so a run is
a function of the schedule alone. Locks that the package creates are replaced
by cooperative ones, so waiting for a lock is a scheduling decision, too.
"""

import dis
import sys
import threading
import time

from .inject import in_package

_RealLock, _RealRLock = threading.Lock, threading.RLock
ACTIVE = None


class Deadlock(RuntimeError):
    pass


class CoopLock:
    """Lock of the package: waiting hands the baton over."""

    def __init__(self, reentrant=False):
        self._lock = _RealLock()
        self._owner, self._count, self._reentrant = None, 0, reentrant

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        if self._reentrant and self._owner == me:
            self._count += 1
            return True
        s = ACTIVE
        if s is None or me not in s.ident:
            got = self._lock.acquire(blocking, timeout)
        else:
            turns = 0
            while not (got := self._lock.acquire(False)):
                if not blocking or (timeout >= 0 and turns > 50):
                    return False
                turns += 1
                s.wait_for(s.ident[me], self)
            s.waiting.pop(s.ident[me], None)
        if got:
            self._owner, self._count = me, 1
        return got

    def release(self):
        if self._reentrant and self._owner != threading.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if self._count <= 0:
            self._owner = None
            self._lock.release()

    def locked(self):
        return self._lock.locked()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *exc):
        self.release()


def _from_package():
    frame = sys._getframe(2)
    for _ in range(4):
        if frame is None:
            return False
        if in_package(frame.f_code):
            return True
        frame = frame.f_back
    return False


def _lock():
    return CoopLock() if _from_package() else _RealLock()


def _rlock():
    return CoopLock(True) if _from_package() else _RealRLock()


def install():
    threading.Lock, threading.RLock = _lock, _rlock


class Recorder:
    """Points of a function that runs alone."""

    def __init__(self, opcodes=False):
        self.opcodes, self.points = opcodes, []

    def _trace(self, frame, event, arg):
        if not in_package(frame.f_code):
            return None
        if event == "call":
            frame.f_trace_opcodes = self.opcodes
            frame.f_trace_lines = not self.opcodes
        elif event in ("line", "opcode"):
            self.points.append((frame.f_code, frame.f_lasti if self.opcodes else frame.f_lineno))
        return self._trace

    def run(self, func):
        sys.settrace(self._trace)
        try:
            return func()
        finally:
            sys.settrace(None)


_store_cache = {}


def _stores(code, opcodes):
    """Lines (offsets) of a code object with an assignment others can see:
    1 for one to an item, 2 for one to an attribute or a global name."""
    key = (code, opcodes)
    if key not in _store_cache:
        found, line = {}, code.co_firstlineno
        for ins in dis.get_instructions(code):
            line = ins.positions.lineno or line
            pos = ins.offset if opcodes else line
            if ins.opname in ("STORE_SUBSCR", "DELETE_SUBSCR"):
                found[pos] = max(1, found.get(pos, 0))
            elif ins.opname in ("STORE_ATTR", "STORE_GLOBAL", "DELETE_ATTR"):
                found[pos] = 1 if code.co_name == "__init__" else 2
        _store_cache[key] = found
    return _store_cache[key]


def sites(points, opcodes):
    """Recorded points as (place, can others see what happened here)."""
    return [(f"{code.co_filename}:{code.co_firstlineno}:{pos}", _stores(code, opcodes).get(pos, 0)) for code, pos in points]


def plan(schedule, records):
    """Schedule entries -> {(task, point): next task}.

    An entry {"task", "u", "v", "at", "to"}: with "site", u picks one of the
    distinct places of the task and v one of its visits; with "store", only
    places right after an assignment to an attribute or an item count (where
    other threads can see it), with "attr" only those right after an
    assignment to an attribute of an existing object; otherwise u picks a point
    uniformly.
    """
    out = {}
    places, after, attrs = [], [], []
    for rec in records:
        seen, stores, attr = {}, {}, {}
        for i, p in enumerate(rec):
            seen.setdefault(p, []).append(i)
            if i + 1 < len(rec) and p[1]:
                stores.setdefault(p, []).append(i + 1)
                if p[1] > 1:
                    attr.setdefault(p, []).append(i + 1)
        places.append(list(seen.values()))
        after.append(list(stores.values()) or places[-1])
        attrs.append(list(attr.values()) or after[-1])
    for e in schedule:
        t = e["task"] % len(records)
        n = len(records[t])
        if n == 0:
            continue
        if e["at"] in ("site", "store", "attr"):
            pool = {"site": places, "store": after, "attr": attrs}[e["at"]][t]
            visits = pool[int(e["u"] * len(pool))]
            k = visits[int(e["v"] * len(visits))] if e["v"] < 0.5 else visits[0]
            k = min(max(k + e.get("w", 0), 0), n - 1)
        else:
            k = int(e["u"] * n)
        out[(t, k)] = e["to"]
    return out


def gen_schedule(r, ntasks):
    n = r.pick([1, 1, 2, 2, 3, 4, 6, 10, 30])
    return [
        {"task": r.int(0, ntasks - 1), "u": r.random(), "v": r.random(), "at": r.weighted([("attr", 4), ("store", 4), ("site", 3), ("any", 2)]), "to": r.int(0, ntasks - 1), "w": r.pick([0, 0, 0, 0, -1, 1])}
        for _ in range(n)
    ]


class Scheduler:
    def __init__(self, funcs, switches, first=0, opcodes=False, log=None):
        self.funcs, self.switches, self.opcodes = funcs, switches, opcodes
        n = len(funcs)
        self.first = first % n
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.local = [0] * n
        self.done = [False] * n
        self.results = [None] * n
        self.current = None
        self.waiting = {}
        self.ident = {}
        self.finished = threading.Event()
        self.total = 0
        self.taken = []
        self.broken = None

    # tracing
    def _tracer(self, i):
        def trace(frame, event, arg):
            if not in_package(frame.f_code):
                return None
            if event == "call":
                frame.f_trace_opcodes = self.opcodes
                frame.f_trace_lines = not self.opcodes
            elif event in ("line", "opcode"):
                self._point(i, frame)
            return trace

        return trace

    def _point(self, i, frame):
        if self.current != i:  # had lost the baton while it was blocked
            self.sem[i].acquire()
        k = self.local[i]
        self.local[i] = k + 1
        self.total += 1
        to = self.switches.get((i, k))
        if to is None:
            return
        j = self._next(i, to)
        if j is not None and j != i:
            self.taken.append((i, frame.f_code.co_qualname, j))
            self._switch(i, j)

    def _next(self, i, to):
        n = len(self.funcs)
        for d in range(n):
            j = (to + d) % n
            if j != i and not self.done[j] and not self._stuck(j):
                return j
        return None

    def _stuck(self, j):
        lock = self.waiting.get(j)
        return lock is not None and lock.locked()

    def _switch(self, i, j):
        self.current = j
        self.sem[j].release()
        self.sem[i].acquire()

    def wait_for(self, i, lock):
        self.waiting[i] = lock
        j = self._next(i, i + 1)
        if j is None:
            self.broken = "deadlock"
            raise Deadlock("every thread waits for a lock")
        self._switch(i, j)

    def _body(self, i):
        self.ident[threading.get_ident()] = i
        self.sem[i].acquire()
        sys.settrace(self._tracer(i))
        try:
            self.results[i] = self.funcs[i]()
        except BaseException as ex:
            self.results[i] = ex
        finally:
            sys.settrace(None)
            if self.current != i:
                self.sem[i].acquire()
            self.done[i] = True
            j = self._next(i, i + 1)
            if j is None:
                if not all(self.done):
                    self.broken = "deadlock"
                self.finished.set()
            else:
                self.current = j
                self.sem[j].release()

    def run(self):
        global ACTIVE
        ACTIVE = self
        threads = [threading.Thread(target=self._body, args=(i,), daemon=True) for i in range(len(self.funcs))]
        for t in threads:
            t.start()
        self.current = self.first
        self.sem[self.first].release()
        last, idle = -1, 0
        while not self.finished.wait(1.0):
            # A lock the simulator does not know may block the running thread.
            if self.total == last and not all(self.done):
                idle += 1
                if idle >= 3:
                    idle = 0
                    i = self.current
                    j = self._next(i, i + 1)
                    if j is not None:
                        self.current = j
                        self.sem[j].release()
            else:
                last, idle = self.total, 0
        for t in threads:
            if self.broken is None:
                t.join()
        ACTIVE = None
        return self.results
