"""Virtual clocks and alarm signals.

The functions of `time` and `signal` that measure time, wait or set an alarm are
replaced before the package is imported, so that it does not matter how it
imports them. Without an active clock they do what they always did. With one,
time passes only when the simulator lets it pass, and an alarm is delivered, in
the main thread, at the moment the virtual time reaches it.
"""

import signal
import sys
import threading
import time

ACTIVE = None
EPS = 1e-9

_real = {}
_TIMERS = {
    signal.ITIMER_REAL: signal.SIGALRM,
    signal.ITIMER_VIRTUAL: signal.SIGVTALRM,
    signal.ITIMER_PROF: signal.SIGPROF,
}


class Killed(BaseException):
    """An alarm arrived that nobody handles: the process would be gone."""


class Clock:
    def __init__(self, start=1000.0, wall=1.7e9):
        self.now = start  # monotonic and performance counter
        self.offset = wall - start  # wall clock = now + offset
        self.cpu = 5.0
        self.timers = {}  # which -> [due, interval]
        self.handlers = {s: signal.SIG_DFL for s in _TIMERS.values()}
        self.delivered = []  # (time, signal, handler, note)
        self.set_count = 0
        self.spent = 0.0
        self.note = lambda: None  # what to remember with every alarm

    # time
    def _base(self, which):
        return self.now if which == signal.ITIMER_REAL else self.cpu

    def next_due(self):
        t = self.timers.get(signal.ITIMER_REAL)
        return None if t is None else t[0]

    def advance(self, dt, cpu=True):
        """Let time pass; alarms that become due are delivered on the way."""
        end = self.now + dt
        while True:
            due = []
            for which, (when, _) in self.timers.items():
                if which == signal.ITIMER_REAL:
                    due.append((when, which))
                elif cpu:
                    due.append((self.now + (when - self.cpu), which))
            due = [d for d in due if d[0] <= end + EPS]
            if not due or threading.current_thread() is not threading.main_thread():
                break
            when, which = min(due)
            self._move(max(when, self.now), cpu)
            self._deliver(which)
        self._move(max(end, self.now), cpu)

    def _move(self, to, cpu):
        self.spent += to - self.now
        if cpu:
            self.cpu += to - self.now
        self.now = to

    def jump(self, dt):
        self.offset += dt

    def _deliver(self, which):
        when, interval = self.timers.pop(which)
        if interval > 0:
            self.timers[which] = [self._base(which) + interval, interval]
        sig = _TIMERS[which]
        handler = self.handlers[sig]
        self.delivered.append((self.now, sig, handler, self.note()))
        if handler is signal.SIG_IGN:
            return
        if handler is signal.SIG_DFL or handler is None:
            raise Killed(f"unhandled {sig.name} at {self.now}")
        handler(int(sig), sys._getframe(1))

    # signal
    def set_handler(self, sig, handler):
        if threading.current_thread() is not threading.main_thread():
            raise ValueError("signal only works in main thread of the main interpreter")
        if not (callable(handler) or handler in (signal.SIG_DFL, signal.SIG_IGN)):
            raise TypeError("signal handler must be signal.SIG_IGN, signal.SIG_DFL, or a callable object")
        old, self.handlers[sig] = self.handlers[sig], handler
        return old

    def remaining(self, which):
        t = self.timers.get(which)
        return (0.0, 0.0) if t is None else (max(t[0] - self._base(which), 1e-6), t[1])

    def set_timer(self, which, seconds, interval=0.0):
        old = self.remaining(which)
        self.timers.pop(which, None)
        if seconds > 0:
            self.timers[which] = [self._base(which) + max(float(seconds), 1e-6), float(interval)]
        self.set_count += 1
        return old

    def alarm(self, seconds):
        import operator

        old = self.set_timer(signal.ITIMER_REAL, operator.index(seconds))[0]
        whole, rest = int(old), old - int(old)
        return whole + (1 if (rest >= 0.5 or (whole == 0 and rest > 0)) else 0)  # as the kernel rounds


def _wrap(module, name, active):
    real = getattr(module, name)
    _real[f"{module.__name__}.{name}"] = real

    def call(*args, **kw):
        c = ACTIVE
        return real(*args, **kw) if c is None else active(c, *args, **kw)

    call.__name__ = name
    setattr(module, name, call)


def install():
    if _real:
        return
    for name, f in {
        "time": lambda c: c.now + c.offset,
        "monotonic": lambda c: c.now,
        "perf_counter": lambda c: c.now,
        "process_time": lambda c: c.cpu,
        "thread_time": lambda c: c.cpu,
    }.items():
        _wrap(time, name, f)
        _wrap(time, name + "_ns", lambda c, f=f: int(round(f(c) * 1e9)))
    _wrap(time, "sleep", lambda c, s: c.advance(s, cpu=False))

    def set_handler(c, sig, handler):
        if sig in c.handlers:
            return c.set_handler(signal.Signals(sig), handler)
        return _real["signal.signal"](sig, handler)

    _wrap(signal, "signal", set_handler)
    _wrap(signal, "getsignal", lambda c, sig: c.handlers[sig] if sig in c.handlers else _real["signal.getsignal"](sig))
    _wrap(signal, "alarm", Clock.alarm)
    _wrap(signal, "setitimer", Clock.set_timer)
    _wrap(signal, "getitimer", Clock.remaining)


class running:
    """Context in which a clock is the clock of the process."""

    def __init__(self, clock):
        self.clock = clock

    def __enter__(self):
        global ACTIVE
        ACTIVE = self.clock
        return self.clock

    def __exit__(self, *exc):
        global ACTIVE
        ACTIVE = None


install()
