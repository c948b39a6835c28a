"""Isolated simulated processes: forked children whose death is observable."""

import os
import pickle
import select
import signal
import time
import traceback

CRASH = 77  # exit code of an injected process death


def isolated(func, timeout=60.0):
    """Run func() in a forked child.

    Returns ("ok", value), ("exit", code) when the process died, or
    ("error", traceback) when func raised (a fault of the harness).
    """
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(rfd)
            try:
                data = pickle.dumps(("ok", func()))
            except BaseException as ex:
                data = pickle.dumps(("error", "".join(traceback.format_exception(ex))))
            view = memoryview(data)
            while view:
                view = view[os.write(wfd, view):]
        except BaseException:
            code = 70
        finally:
            os._exit(code)
    os.close(wfd)
    chunks, deadline = [], time.monotonic() + timeout
    while True:
        ready, _, _ = select.select([rfd], [], [], max(0.0, deadline - time.monotonic()))
        if not ready:
            os.kill(pid, signal.SIGKILL)
            break
        buf = os.read(rfd, 1 << 16)
        if not buf:
            break
        chunks.append(buf)
    os.close(rfd)
    _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status):
        return ("exit", -os.WTERMSIG(status))
    code = os.WEXITSTATUS(status)
    if code != 0:
        return ("exit", code)
    out = pickle.loads(b"".join(chunks))
    if out[0] == "error":
        raise RuntimeError("in isolated process:\n" + out[1])
    return out
