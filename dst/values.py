"""Canonical, detached snapshots of Python values, and their comparison."""

import numpy as np
import scipy.sparse as sparse


class Snap:
    """Detached array value."""

    __slots__ = ("arr", "dtype")

    def __init__(self, arr):
        self.arr = np.array(arr, copy=True)
        self.dtype = self.arr.dtype.kind

    def __repr__(self):
        s = np.array2string(self.arr, precision=4, threshold=6, edgeitems=2)
        return f"array{self.arr.shape}{' '.join(s.split())}"


class Err:
    """An exception outcome, compared by type name."""

    __slots__ = ("type", "msg")

    def __init__(self, ex):
        self.type = type(ex).__name__
        self.msg = str(ex)[:200]

    def __repr__(self):
        return f"<raised {self.type}: {self.msg}>"


def snap(x, depth=0):
    """Detached canonical form of x."""
    if x is None or isinstance(x, (bool, str, bytes, Err, Snap)):
        return x
    if isinstance(x, (int, float, complex, np.generic)):
        return Snap(np.asarray(x))
    if sparse.issparse(x):
        return Snap(x.toarray())
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return [snap(v, depth + 1) for v in x.ravel()]
        return Snap(x)
    if x is NotImplemented:
        return "<NotImplemented>"
    if isinstance(x, (list, tuple)):
        return [snap(v, depth + 1) for v in x]
    if isinstance(x, dict) or hasattr(x, "items"):
        return {str(k): snap(v, depth + 1) for k, v in x.items()}
    if isinstance(x, type):
        return f"<class {x.__name__}>"
    if callable(x):
        return f"<callable {getattr(x, '__name__', type(x).__name__)}>"
    return f"<{type(x).__name__}>"


def outcome(func, *args, **kwargs):
    """Snapshot of func(*args), or of the Exception it raised."""
    try:
        return snap(func(*args, **kwargs))
    except Exception as ex:
        return Err(ex)


def diff(a, b, rtol=1e-7, atol=1e-11, path=""):
    """None if equal up to tolerance, otherwise a short description."""
    if isinstance(a, Err) or isinstance(b, Err):
        if isinstance(a, Err) and isinstance(b, Err):
            if a.type == b.type:
                return None
        return f"{path or '.'}: {a!r} != {b!r}"
    if isinstance(a, Snap) and isinstance(b, Snap):
        if a.arr.shape != b.arr.shape:
            return f"{path or '.'}: shape {a.arr.shape} != {b.arr.shape}"
        if a.arr.size == 0:
            return None
        if a.dtype in "SUO" or b.dtype in "SUO":
            return (
                None
                if np.array_equal(a.arr, b.arr)
                else f"{path or '.'}: {a!r} != {b!r}"
            )
        if rtol == 0 and atol == 0:
            if a.arr.dtype == b.arr.dtype and np.array_equal(
                a.arr, b.arr, equal_nan=a.dtype in "fc"
            ):
                return None
            return f"{path or '.'}: {a!r} != {b!r} (bitwise)"
        x = a.arr.astype(complex if "c" in (a.dtype + b.dtype) else float)
        y = b.arr.astype(complex if "c" in (a.dtype + b.dtype) else float)
        fin = np.isfinite(x) & np.isfinite(y)
        if not np.array_equal(np.where(fin, 0, x), np.where(fin, 0, y), equal_nan=True):
            return f"{path or '.'}: nonfinite entries differ {a!r} != {b!r}"
        if not fin.any():
            return None
        x, y = x[fin], y[fin]
        scale = max(np.max(np.abs(x)), np.max(np.abs(y)))
        err = np.max(np.abs(x - y))
        if err <= atol or err <= rtol * scale:
            return None
        return f"{path or '.'}: {a!r} != {b!r} (max diff {err:.3e})"
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return f"{path or '.'}: length {len(a)} != {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            if d := diff(x, y, rtol, atol, f"{path}[{i}]"):
                return d
        return None
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return f"{path or '.'}: keys differ {sorted(set(a) ^ set(b))}"
        for k in a:
            if d := diff(a[k], b[k], rtol, atol, f"{path}.{k}" if path else k):
                return d
        return None
    if type(a) is type(b) and a == b:
        return None
    return f"{path or '.'}: {a!r} != {b!r}"


def brief(x, n=160):
    s = repr(x)
    return s if len(s) <= n else s[: n - 3] + "..."


def digest(x):
    """Short deterministic digest for event logs."""
    import hashlib

    h = hashlib.sha256()

    def walk(v):
        if isinstance(v, Snap):
            h.update(str(v.arr.shape).encode())
            h.update(v.arr.dtype.str.encode())
            h.update(np.ascontiguousarray(v.arr).tobytes())
        elif isinstance(v, Err):
            h.update(b"E" + v.type.encode())
        elif isinstance(v, list):
            h.update(b"L%d" % len(v))
            for w in v:
                walk(w)
        elif isinstance(v, dict):
            for k in sorted(v):
                h.update(k.encode())
                walk(v[k])
        else:
            h.update(repr(v).encode())

    walk(snap(x))
    return h.hexdigest()[:12]


def recycle(old, new):
    """The caller's buffers `old` filled with `new`, where they fit."""
    if isinstance(old, np.ndarray) and isinstance(new, np.ndarray):
        if old.shape == new.shape and old.dtype == new.dtype and old.flags.writeable:
            old[...] = new
            return old
    elif isinstance(old, dict) and isinstance(new, dict):
        return {k: recycle(old.get(k), v) for k, v in new.items()}
    elif isinstance(old, list) and isinstance(new, list) and len(old) == len(new):
        old[:] = [recycle(a, b) for a, b in zip(old, new)]
        return old
    return new


def scribble(x):
    """The caller writes into its own arrays."""
    if isinstance(x, np.ndarray):
        if x.flags.writeable and x.dtype.kind == "f":
            x *= 0.5
            x += 0.3
    elif isinstance(x, dict):
        for v in x.values():
            scribble(v)
    elif isinstance(x, (list, tuple)):
        for v in x:
            scribble(v)
