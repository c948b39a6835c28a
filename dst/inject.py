"""Faults inside the library's own execution.

Two kinds of fault points, both counted by the interpreter, so they do not
depend on how the code is written:

* "line": just before the N-th line executed inside the package;
* "call": at the N-th call that leaves the package (numpy, scipy, h5py, user
  callbacks).

The N-th point raises, kills the process, or calls a hook.
"""

import os
import sys

import numpy as np

from . import env
from .procs import CRASH, isolated

PKG = os.path.join(os.path.realpath(env.SRC), "opinf") + os.sep
_cache = {}


def in_package(code):
    name = code.co_filename
    hit = _cache.get(name)
    if hit is None:
        hit = os.path.realpath(name).startswith(PKG)
        _cache[name] = hit
    return hit


EXCEPTIONS = {
    "interrupt": KeyboardInterrupt,
    "memory": MemoryError,
    "linalg": np.linalg.LinAlgError,
    "oserror": OSError,
    "value": ValueError,
    "runtime": RuntimeError,
}


class Fault:
    """Context manager that counts fault points and fires at number `at`."""

    def __init__(self, mode, at=None, kind="interrupt", only=None, external=False, single=False):
        self.mode, self.at, self.kind = mode, at, kind
        self.count = 0
        self.fired = None
        self.only = only  # optional predicate(frame)
        self.single = single  # no second failure while one is being handled
        self.external = external  # only calls of numerical, file or user code

    def _hit(self, frame, what):
        if self.external and what in ("close", "__exit__", "__del__", "__enter__"):
            return  # closing always releases the descriptor
        if self.only is not None and not self.only(frame):
            return
        if self.single and sys.exc_info()[0] is not None:
            return
        n = self.count
        self.count += 1
        if self.at is None or n != self.at or self.fired is not None:
            return
        self.fired = (
            f"{os.path.basename(frame.f_code.co_filename)}:{frame.f_code.co_name}", what,
        )
        if self.kind == "crash":
            os._exit(CRASH)
        raise EXCEPTIONS[self.kind](f"simulated {self.kind}")

    # line mode
    def _trace(self, frame, event, arg):
        if not in_package(frame.f_code):
            return None
        if event == "call":
            return self._trace
        if event == "line":
            self._hit(frame, "line")
        return self._trace

    # call mode
    def _profile(self, frame, event, arg):
        if event == "c_call":
            if in_package(frame.f_code) and not (self.external and _plain(arg)):
                self._hit(frame, getattr(arg, "__name__", "c"))
        elif event == "call":
            if not in_package(frame.f_code):
                back = frame.f_back
                if back is not None and in_package(back.f_code) and not (
                    self.external and _plain_module(frame.f_globals.get("__name__"))
                ):
                    self._hit(back, frame.f_code.co_name)

    def __enter__(self):
        if self.mode == "line":
            sys.settrace(self._trace)
        else:
            sys.setprofile(self._profile)
        return self

    def __exit__(self, *exc):
        sys.settrace(None)
        sys.setprofile(None)
        return False


_PLAIN = {
    "builtins", "abc", "types", "typing", "contextlib", "warnings", "functools", "numbers", "copy", "copyreg",
    "enum", "dataclasses", "collections", "re", "importlib", "threading", "genericpath", "posixpath", "_abc",
    "_warnings", "_thread", "_functools", "math", "operator", "itertools", "time", "string", "os", "posix", "weakref",
    "_weakrefset", "collections.abc", "inspect", "importlib._bootstrap", "frozen_importlib", "logging", "signal", "shutil",
}


def _plain_module(name):
    return name in _PLAIN


def _plain(func):
    """Calls that fail only with the interpreter itself."""
    owner = getattr(func, "__self__", None)
    if owner is None or type(owner).__name__ == "module":
        return getattr(func, "__module__", None) in _PLAIN or getattr(func, "__module__", None) is None
    cls = owner if isinstance(owner, type) else type(owner)
    return cls.__module__ in _PLAIN


def count_points(mode, func, external=False, single=False):
    """Number of fault points of func() (run in this process)."""
    with Fault(mode, external=external, single=single) as f:
        try:
            func()
        except Exception:
            pass
    return f.count


def attempt(func, fault=None, ctx=None):
    """func() with an optional fault {"mode", "kind", "frac", "external"?}.

    The number of fault points is counted in a forked copy of the process.
    Returns (value, exception or None, place where the fault fired or None).
    """
    if fault is None:
        try:
            return func(), None, None
        except Exception as ex:
            return None, ex, None
    ext = fault.get("external", fault["mode"] == "call")
    status, n = isolated(lambda: count_points(fault["mode"], func, ext, True))
    if status != "ok" or n == 0:
        return attempt(func)
    ft = Fault(fault["mode"], min(n - 1, int(fault["frac"] * n)), fault["kind"], external=ext, single=True)
    value = ex = None
    try:
        with ft:
            value = func()
    except (Exception, KeyboardInterrupt) as e:
        ex = e
    if ft.fired and ctx is not None:
        ctx.fault(f"{fault['mode']} {fault['kind']}")
    return value, ex, ft.fired


def gen_fault(r, modes=(("call", 3), ("line", 3))):
    """A fault for attempt()."""
    mode = r.weighted(list(modes))
    kinds = [("interrupt", 3), ("memory", 2)]
    if mode == "call":
        kinds += [("linalg", 3), ("value", 1)]
    return {"mode": mode, "kind": r.weighted(kinds), "frac": r.random()}
