"""P02: a failed or interrupted save keeps the old file."""

import os

from .. import zoo
from ..disk import Disk, read_bytes
from ..inject import Fault
from ..procs import CRASH, isolated
from ..values import Err, diff
from .p01 import gen_recipe as _gen_recipe

ID = "P02"
LEVEL = "fault_enumeration"
RUNS = {"quick": 1800, "thorough": 30000}
RULE = (
    "One evaluation is one simulated run: up to four versions of a generated object are saved over one another to one "
    "target path, each save in its own simulated process with one fault (I/O error once or from then on, torn write, "
    "interrupt, or process death) at a drawn disk operation, line or library call of the save; afterwards the target is "
    "compared with the old bytes and loaded in a further process, then the save is repeated without the fault. "
    "Non-trivial: a fault fired, distinct by event log."
)
STATES = "object kind x fault kind x kind of the fault point x outcome (old, new, unloadable new target) x target existed"
REAL = ["all save and load code of the package", "h5py and HDF5", "the file system (scratch directory)"]
STUBS = ["file descriptor of HDF5 files (Python file object, h5py fileobj driver)", "os.replace/rename/remove/unlink/truncate (fault points)", "process death (os._exit in a forked process)"]
ASSUMPTIONS = [
    "process death keeps what was written (page cache survives); power loss is outside the statement",
    "temporary files left by a process that died are allowed",
]

MODES = [("disk", 6), ("line", 3), ("call", 1.5)]


def gen_fault(r):
    mode = r.weighted(MODES)
    f = {"mode": mode, "frac": r.random()}
    if mode == "disk":
        f["what"] = r.weighted([("error", 5), ("crash", 3), ("interrupt", 2)])
        f["errno"] = r.pick(["ENOSPC", "EIO", "EDQUOT"])
        f["sticky"] = r.flag(0.4)
        f["torn"] = r.pick([0, 0, 0.3, 0.9])
        if r.flag(0.25):
            f["late"] = r.int(1, 6)  # aim at the last operations
    else:
        f["what"] = r.weighted([("interrupt", 4), ("crash", 3), ("memory", 1), ("oserror", 1.5)])
        if r.flag(0.2):
            f["late"] = r.int(1, 25)
        elif r.flag(0.15):
            f["frac"] = r.random() * 0.05
    return f


def gen(r, tier, index):
    c = _gen_recipe(r)
    while c["t"] == "sparray":
        c = _gen_recipe(r)
    steps = []
    for _ in range(r.weighted([(1, 4), (2, 3), (3, 1), (4, 0.5)])):
        steps.append({"seed": r.seed32(), "train": r.flag(0.85), "fault": gen_fault(r) if r.flag(0.9) else None})
    return {
        "knobs": {
            "recipe": c, "qseed": r.seed32(),
            "before": r.weighted([("saved", 6), ("none", 2.5), ("junk", 0.7), ("other", 0.8)]),
            "target": r.weighted([("t.h5", 6), ("noext", 0.5), ("sub/t.h5", 1), ("link.h5", 0.8)]),
            "handles": r.flag(0.2),
        },
        "steps": steps,
    }


def simplify(case):
    for i, s in enumerate(case["steps"]):
        if s["fault"]:
            steps = list(case["steps"])
            steps[i] = dict(s, fault=None)
            yield dict(case, steps=steps)


def build_version(c, s):
    if c["t"] == "posterior":
        c = dict(c, seed=s["seed"])
    obj = zoo.build(c)
    if s["train"] and c["t"] != "posterior":
        zoo.train(obj, c, s["seed"])
    return obj


def points(c, s, f, target):
    """Number of fault points of this save (in a process of its own)."""

    def go():
        obj = build_version(c, s)
        if f["mode"] == "disk":
            disk = Disk(os.getcwd())
            disk.install()
            disk.begin()
            zoo.save(obj, c, target, True)
            disk.end()
            disk.uninstall()
            return len(disk.ops)
        with Fault(f["mode"]) as ft:
            zoo.save(obj, c, target, True)
        return ft.count

    return isolated(go)


def number(f, m):
    if f.get("late"):
        return max(0, m - f["late"])
    return min(m - 1, int(f["frac"] * m))


def faulty_save(c, s, f, at, target):
    """The save with the fault, in a process of its own, and then without."""
    obj = build_version(c, s)
    disk = Disk(os.getcwd())
    where = None
    disk.install()
    try:
        try:
            if f is None:
                zoo.save(obj, c, target, True)
            elif f["mode"] == "disk":
                disk.begin(dict(f, at=at))
                zoo.save(obj, c, target, True)
            else:
                with Fault(f["mode"], at, f["what"]) as ft:
                    zoo.save(obj, c, target, True)
            res = ("returned", None)
        except (Exception, KeyboardInterrupt) as ex:
            res = ("raised", type(ex).__name__)
        finally:
            if f is not None and f["mode"] == "disk":
                where = disk.ops[at] if disk.fired else None
            elif f is not None:
                where = "/".join(ft.fired) if ft.fired else None
            disk.end()
    finally:
        disk.uninstall()
    after = read_bytes(target)
    retry = None
    if res[0] == "raised":
        try:
            zoo.save(obj, c, target, True)
        except Exception as ex:
            retry = Err(ex)
    return res, where, after, retry


def loads_as(c, data, want, qseed):
    """What the bytes load as: "same", or a description of the difference."""
    with open("look.h5", "wb") as fp:
        fp.write(data)

    def go():
        try:
            obj = zoo.load(c, "look.h5")
        except Exception as ex:
            return Err(ex)
        return zoo.saved_view(zoo.probe(obj, c, qseed))

    kind, got = isolated(go)
    os.unlink("look.h5")
    if kind != "ok":
        return "died", f"process loading it died ({got})"
    if isinstance(got, Err):
        return "unloadable", repr(got)
    d = diff(want, got)
    return ("same", None) if d is None else ("different", d)


def run(case, ctx):
    k = case["knobs"]
    c, target, qseed = k["recipe"], k["target"], k["qseed"]
    if "/" in target:
        os.mkdir("sub")
    if target == "link.h5":
        os.mkdir("real")
        if k["before"] == "none":
            target = "real/t.h5"
        else:
            os.symlink("real/t.h5", "link.h5")
    open("neighbour.h5", "wb").write(b"somebody else's data")
    if k["before"] == "saved":
        s0 = {"seed": qseed ^ 77, "train": True}
        zoo.save(build_version(c, s0), c, target, True)
    elif k["before"] == "junk":
        open(target, "wb").write(b"not an HDF5 file" * 40)
    elif k["before"] == "other":
        o = {"t": "shift", "n": 3, "name": "other", "seed": 5}
        zoo.save(zoo.build(o), o, target, True)

    for s in case["steps"]:
        f = s["fault"]
        old = read_bytes(target)
        want = zoo.saved_view(zoo.probe(build_version(c, s), c, qseed))
        at = None
        if f is not None:
            status, m = points(c, s, f, "count.h5")
            if status != "ok":
                raise RuntimeError(f"counting save died: {m}")
            os.unlink("count.h5")
            at = number(f, m)
            ctx.event("points", m, "at", at, f["mode"], f["what"])
        status, out = isolated(lambda: faulty_save(c, s, f, at, target))
        if status == "exit" and out == CRASH:
            res, where, after, retry = ("died", None), "crash", read_bytes(target), None
        elif status == "exit":
            ctx.fail("died", f"saving process ended with {out}")
        else:
            res, where, after, retry = out
        fired = where is not None
        if f is not None and fired:
            ctx.fault(f"{f['mode']} {f['what']}" + (" sticky" if f.get("sticky") else "") + (" torn" if f.get("torn") else ""))
        ctx.event("save", c["t"], res, where, None if after is None else len(after) > 0)
        ctx.sim_time += 1

        if f is None and res[0] != "returned":
            ctx.fail("save-failed", f"save of {c['t']} without a fault raised {res[1]}")
        if res[0] == "returned":
            if after is None:
                ctx.fail("lost", "save returned but there is no file")
            verdict, d = loads_as(c, after, want, qseed)
            if verdict != "same":
                ctx.fail("incomplete", f"save of {c['t']} returned ({f}, at {where}) but the file {verdict}: {d}")
            state = "new"
        else:
            state = "old"
            if after != old:
                if after is None:
                    ctx.fail("lost", f"save of {c['t']} failed ({f['mode']} {f['what']} at {where}) and the old file is gone")
                verdict, d = loads_as(c, after, want, qseed)
                state = "new" if verdict == "same" else "placeholder"
                if old is not None and verdict != "same":
                    ctx.fail(
                        "damaged",
                        f"save of {c['t']} failed ({f['mode']} {f['what']} at {where}); the target is neither the old "
                        f"file ({len(old)} bytes) nor the new one ({len(after)} bytes, {verdict}: {d})",
                    )
                if old is None and verdict not in ("same", "unloadable"):
                    ctx.fail(
                        "partial",
                        f"save of {c['t']} to a new target failed ({f['mode']} {f['what']} at {where}) and left a file "
                        f"that loads as something else ({verdict}: {d})",
                    )
            if retry is not None:
                ctx.fail("retry", f"save of {c['t']} after the fault ({f['mode']} {f['what']} at {where}) was gone raised {retry!r}")
            if res[0] == "died":  # the next process saves
                status, out = isolated(lambda: faulty_save(c, s, None, None, target))
                if status != "ok" or out[0][0] != "returned":
                    ctx.fail("retry", f"save of {c['t']} after a process death at {f['mode']} {at} gave {status} {out if status != 'ok' else out[0]}")
            final = read_bytes(target)
            verdict, d = loads_as(c, final, want, qseed) if final is not None else ("missing", None)
            if verdict != "same":
                ctx.fail("retry", f"repeated save of {c['t']} left a file that is {verdict}: {d}")
        ctx.state(c["t"], f and f["mode"], f and f["what"], where, state, old is not None)
        if read_bytes("neighbour.h5") != b"somebody else's data":
            ctx.fail("neighbour", "another file in the directory changed")
