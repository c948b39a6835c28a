"""The simulated disk: every HDF5 file under a root directory is written and
read through Python file objects, whose operations are numbered fault points.

Only operations on paths under the root take part. Without a plan the seam
passes everything through to real files.
"""

import builtins
import errno
import io
import os
import shutil

import h5py

from .procs import CRASH

_orig_init = h5py.File.__init__
_orig_close = h5py.File.close
_orig = {
    (os, n): getattr(os, n)
    for n in ("replace", "rename", "remove", "unlink", "fsync", "link", "truncate", "ftruncate")
}
ERRNO = {"ENOSPC": errno.ENOSPC, "EIO": errno.EIO, "EDQUOT": errno.EDQUOT, "EACCES": errno.EACCES}


class Disk:
    """plan: dict(at=N, what="error"|"crash"|"interrupt", errno="ENOSPC",
    sticky=bool, torn=fraction) or None."""

    def __init__(self, root, ctx=None):
        self.root = os.path.realpath(root) + os.sep
        self.plan = None
        self.ops = []
        self.fired = 0
        self.reads = False
        self.active = False
        self.files = []

    # -- fault points
    def begin(self, plan=None, reads=False, writes=True):
        self.plan, self.ops, self.fired, self.reads = plan, [], 0, reads
        self.writes = writes
        self.active = True

    def end(self):
        self.active = False
        self.plan = None

    def point(self, op, partial=None):
        """Called before each operation; partial(fraction) does a part of it."""
        if not self.active:
            return
        if op.startswith("read") or op == "open-read":
            if not self.reads:
                return
        elif not self.writes:
            return
        n = len(self.ops)
        self.ops.append(op)
        p = self.plan
        if p is None:
            return
        if n < p["at"] or (n > p["at"] and not p.get("sticky")):
            return
        if p.get("sticky") and n > p["at"] and op in ("unlink", "remove", "close"):
            return  # a full disk still lets one delete
        self.fired += 1
        if partial is not None and p.get("torn"):
            partial(p["torn"])
        if p["what"] == "crash":
            os._exit(CRASH)
        if p["what"] == "interrupt":
            raise KeyboardInterrupt("simulated interrupt")
        e = ERRNO[p.get("errno", "EIO")]
        raise OSError(e, f"simulated {os.strerror(e)}")

    def inside(self, path):
        try:
            path = os.fspath(path)
        except TypeError:
            return False
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        return os.path.realpath(path).startswith(self.root)

    # -- installation
    def install(self):
        disk = self

        def __init__(self, name, mode="r", *args, **kwargs):
            if isinstance(name, (str, bytes, os.PathLike)) and disk.inside(name):
                path = os.fsdecode(name) if isinstance(name, bytes) else os.fspath(name)
                raw = RawFile(disk, path, mode)
                try:
                    _orig_init(self, raw, raw.h5mode, *args, **kwargs)
                except BaseException:
                    raw.shut()
                    raise
                disk.files.append(raw)
                return
            return _orig_init(self, name, mode, *args, **kwargs)

        h5py.File.__init__ = __init__

        def wrap(name):
            orig = _orig[(os, name)]

            def call(*args, **kwargs):
                if args and not isinstance(args[0], int) and disk.inside(args[0]):
                    disk.point(name)
                return orig(*args, **kwargs)

            call.__name__ = name
            return call

        for (mod, name) in _orig:
            setattr(mod, name, wrap(name))

    def uninstall(self):
        h5py.File.__init__ = _orig_init
        for (mod, name), f in _orig.items():
            setattr(mod, name, f)


class RawFile:
    """File object handed to h5py (fileobj driver)."""

    def __init__(self, disk, path, mode):
        self.disk, self.path = disk, path
        self.h5mode = mode
        if mode == "r":
            disk.point("open-read")
            flags = os.O_RDONLY
        elif mode == "r+":
            disk.point("open-rw")
            flags = os.O_RDWR
        elif mode in ("w-", "x"):
            disk.point("create")
            flags = os.O_RDWR | os.O_CREAT | os.O_EXCL
            self.h5mode = "w"
        elif mode == "w":
            disk.point("create")
            flags = os.O_RDWR | os.O_CREAT | os.O_TRUNC
        elif mode == "a":
            disk.point("open-rw")
            self.h5mode = "r+" if os.path.exists(path) and os.path.getsize(path) else "w"
            flags = os.O_RDWR | os.O_CREAT
        else:
            raise ValueError("Invalid mode")
        self.fd = os.open(path, flags, 0o666)
        if os.path.isdir(path):
            raise IsADirectoryError(path)
        self.pos = 0

    def __repr__(self):
        return self.path

    def shut(self):
        if self.fd is not None:
            os.close(self.fd)
            self.fd = None

    def __del__(self):
        try:
            self.shut()
        except Exception:
            pass

    def seek(self, offset, whence=io.SEEK_SET):
        if whence == io.SEEK_SET:
            self.pos = offset
        elif whence == io.SEEK_CUR:
            self.pos += offset
        else:
            self.pos = os.fstat(self.fd).st_size + offset
        return self.pos

    def tell(self):
        return self.pos

    def read(self, n=-1):
        self.disk.point("read")
        data = os.pread(self.fd, n if n >= 0 else os.fstat(self.fd).st_size, self.pos)
        self.pos += len(data)
        return data

    def readinto(self, buf):
        self.disk.point("read")
        view = memoryview(buf).cast("B")
        data = os.pread(self.fd, len(view), self.pos)
        view[: len(data)] = data
        self.pos += len(data)
        return len(data)

    def write(self, buf):
        view = memoryview(buf).cast("B")

        def partial(fraction):
            os.pwrite(self.fd, view[: int(len(view) * fraction)], self.pos)

        self.disk.point("write", partial)
        done = 0
        while done < len(view):
            done += os.pwrite(self.fd, view[done:], self.pos + done)
        self.pos += done
        return done

    def truncate(self, size=None):
        self.disk.point("truncate")
        _orig[(os, "ftruncate")](self.fd, self.pos if size is None else size)
        return size

    def flush(self):
        self.disk.point("flush")


def open_hdf5_files():
    """Number of HDF5 files the process has open."""
    return h5py.h5f.get_obj_count(h5py.h5f.OBJ_ALL, h5py.h5f.OBJ_FILE)


def read_bytes(path):
    """The bytes of a file, or None (never through the seam)."""
    try:
        with builtins.open(path, "rb") as f:
            return f.read()
    except (FileNotFoundError, IsADirectoryError, NotADirectoryError):
        return None
