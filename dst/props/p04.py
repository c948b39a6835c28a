"""P04: a failed load raises and leaves no trace."""

import gc
import os

import h5py

from .. import zoo
from ..disk import Disk, open_hdf5_files, read_bytes
from ..inject import Fault
from ..procs import isolated
from ..values import Err, diff
from .p01 import gen_recipe

ID = "P04"
LEVEL = "fault_enumeration"
RUNS = {"quick": 1200, "thorough": 40000}
RULE = (
    "One evaluation is one simulated run: a generated object is saved and then loaded several times, each time with one "
    "fault: the file missing, a directory, empty, foreign, or cut off at a drawn length; a read error (once or from then on), "
    "a short read, or an interrupt at a drawn disk operation; an exception at a drawn call or line of the load. The load has "
    "to raise or give the complete object, the bytes stay, no handle stays, and the load succeeds afterwards. Non-trivial: a "
    "fault fired, distinct by event log."
)
STATES = "object kind x fault kind x place of the fault x outcome"
REAL = ["all load code of the package", "h5py and HDF5", "the file system (scratch directory)"]
STUBS = ["file descriptor of HDF5 files on runs with read faults", "calls and lines of the package that are made to fail"]
ASSUMPTIONS = ["flipped bits inside a complete file are not considered (the format has no checksums)"]

KINDS = [("missing", 0.5), ("dir", 0.3), ("empty", 0.5), ("junk", 0.5), ("cut", 3), ("foreign", 0.5),
         ("disk", 5), ("call", 3), ("line", 3), ("wrongclass", 0.7)]


def gen(r, tier, index):
    c = gen_recipe(r)
    while c["t"] == "sparray":
        c = gen_recipe(r)
    steps = []
    for _ in range(r.int(1, 5)):
        kind = r.weighted(KINDS)
        s = {"kind": kind, "frac": r.random()}
        if kind == "disk":
            s["what"] = r.weighted([("error", 5), ("interrupt", 2)])
            s["sticky"] = r.flag(0.4)
            s["errno"] = "EIO"
        elif kind == "call":
            s["what"] = r.weighted([("interrupt", 3), ("oserror", 2), ("memory", 2), ("value", 1)])
        elif kind == "line":
            s["what"] = r.weighted([("interrupt", 4), ("memory", 1.5), ("oserror", 1)])
        elif kind == "cut":
            s["bytes"] = r.pick([None, None, 1, 8, 100])
        steps.append(s)
    return {"knobs": {"recipe": c, "train": r.flag(0.85), "qseed": r.seed32(), "via": r.pick(["path", "path", "path", "file", "group"])},
            "steps": steps}


def run(case, ctx):
    k = case["knobs"]
    c, via = k["recipe"], k["via"]
    obj = zoo.build(c)
    if k["train"] and c["t"] != "posterior":
        zoo.train(obj, c, k["qseed"] ^ 3)
    want = zoo.saved_view(zoo.probe(obj, c, k["qseed"]))
    if via == "group":
        with h5py.File("good.h5", "w") as f:
            zoo.save(obj, c, f.create_group("some/where"))
    else:
        zoo.save(obj, c, "good.h5")
    good = read_bytes("good.h5")
    base = open_hdf5_files()

    def load(path):
        if via == "path":
            return zoo.load(c, path)
        with h5py.File(path, "r") as f:
            return zoo.load(c, f["some/where"] if via == "group" else f)

    def attempt(path):
        try:
            return load(path), None
        except (Exception, KeyboardInterrupt) as ex:
            return None, Err(ex)

    disk = Disk(ctx.scratch)
    for s in case["steps"]:
        kind = s["kind"]
        path = "good.h5"
        fired = True
        where = None
        may_succeed = False
        if kind in ("missing", "dir", "empty", "junk", "cut", "foreign"):
            path = "bad.h5"
            if kind == "dir":
                os.mkdir(path)
            elif kind == "empty":
                open(path, "wb").close()
            elif kind == "junk":
                open(path, "wb").write(b"junk" * 500)
            elif kind == "cut":
                n = max(0, len(good) - s["bytes"]) if s["bytes"] else int(s["frac"] * len(good))
                open(path, "wb").write(good[:n])
                where = n
            elif kind == "foreign":
                with h5py.File(path, "w") as f:
                    f.create_group("some/where")
                    f["data"] = [1.0, 2.0]
            before = read_bytes(path)
            got, err = attempt(path)
            ctx.fault(kind)
            if read_bytes(path) != before:
                ctx.fail("changed", f"load of a {kind} file changed it")
        elif kind == "wrongclass":
            before = good
            wc = {"t": "shift", "n": 3, "name": None, "seed": 1} if c["t"] != "shift" else {"t": "pod", "n": 3}
            try:
                got, err = zoo.load(wc, path), None
                if via == "group" or not looks_alike(c, wc):
                    pass
            except Exception as ex:
                got, err = None, Err(ex)
            if via == "path" and err is None and not looks_alike(c, wc):
                ctx.fail("accepted", f"{wc['t']}.load accepted a file of {c['t']}")
            got = None
            err = err or "loaded"
        elif kind == "disk":
            disk.install()
            try:
                def counting():
                    disk.begin(reads=True)
                    load(path)
                    disk.end()
                    return len(disk.ops)

                _, m = isolated(counting)
                at = min(m - 1, int(s["frac"] * m))
                disk.begin(dict(s, at=at), reads=True)
                got, err = attempt(path)
                fired = disk.fired > 0
                where = disk.ops[at] if fired else None
                disk.end()
            finally:
                disk.uninstall()
            may_succeed = True
        else:
            def counting():
                with Fault(kind) as ft:
                    load(path)
                return ft.count

            _, m = isolated(counting)
            at = min(m - 1, int(s["frac"] * m))
            with Fault(kind, at, s["what"]) as ft:
                got, err = attempt(path)
            fired = ft.fired is not None
            where = "/".join(ft.fired) if fired else None
            may_succeed = True
        if fired and kind not in ("missing", "dir", "empty", "junk", "cut", "foreign"):
            ctx.fault(f"{kind} {s.get('what', '')}".strip())
        ctx.event(kind, s.get("what"), where, "raised" if err else "loaded", getattr(err, "type", err))
        ctx.state(c["t"], kind, s.get("what"), where if kind != "cut" else None, bool(err))
        if err is None:
            view = zoo.saved_view(zoo.probe(got, c, k["qseed"]))
            d = diff(want, view)
            if d or not may_succeed:
                ctx.fail(
                    "incomplete" if d else "accepted",
                    f"load of {c['t']} with fault {kind} {s.get('what', '')} at {where} returned an object that is not the saved one: {d}",
                )
        got = None
        gc.collect()
        if open_hdf5_files() != base:
            ctx.fail("handles", f"failed load of {c['t']} ({kind} {s.get('what', '')} at {where}) keeps {open_hdf5_files() - base} files open")
        if read_bytes("good.h5") != good:
            ctx.fail("changed", f"load of {c['t']} ({kind} {s.get('what', '')} at {where}) changed the file")
        again = zoo.saved_view(zoo.probe(load("good.h5"), c, k["qseed"]))
        if (d := diff(want, again)):
            ctx.fail("later", f"load of {c['t']} after a failed load ({kind} {s.get('what', '')} at {where}) differs: {d}")
        if os.path.isdir("bad.h5"):
            os.rmdir("bad.h5")
        elif os.path.exists("bad.h5"):
            os.unlink("bad.h5")


def looks_alike(c, wc):
    """Can a file of c be read as a wc? (Formats are not tagged everywhere.)"""
    return True
