"""P03: no overwriting without permission, no stray handles."""

import os
import warnings

import h5py
import numpy as np

from .. import zoo
from ..disk import Disk, open_hdf5_files, read_bytes
from ..inject import Fault, count_points
from ..procs import isolated
from .p01 import build, gen_recipe, load, save

ID = "P03"
LEVEL = "fault_enumeration"
RUNS = {"quick": 3500, "thorough": 50000}
RULE = (
    "One evaluation is one simulated run: a sequence of saves and loads of one or two generated objects on paths, open files "
    "and nested groups, valid and invalid (existing target, occupied group, wrong class, damaged file, unwritable target, "
    "warnings raised as errors), with faults at drawn library calls and disk operations; after every operation the bytes of "
    "all files, the contents of open files outside the group, and the number of open HDF5 files are compared. Non-trivial: at "
    "least one operation was refused or failed, distinct by event log."
)
STATES = "object kind x operation x kind of target x outcome x fault kind"
REAL = ["all save and load code of the package", "h5py and HDF5", "the file system (scratch directory)"]
STUBS = ["file descriptor of HDF5 files on runs with disk faults", "calls leaving the package that are made to fail"]
ASSUMPTIONS = [
    "asynchronous interrupts are not injected here (Python cannot guarantee closing between two instructions)",
    "files that appear between the check for an existing target and the writing are not considered",
]

OPS = [("save_new", 3), ("save_denied", 4), ("save_over", 2.5), ("save_group", 4), ("load_path", 3), ("load_group", 3), ("save_bad_target", 1)]


def gen(r, tier, index):
    recipes = [gen_recipe(r) for _ in range(r.weighted([(1, 2), (2, 1)]))]
    steps, faults = [], []
    for j in range(r.int(2, 9)):
        s = {"op": r.weighted(OPS), "obj": r.int(0, len(recipes) - 1), "id": j, "wrong": r.flag(0.2),
             "file": r.pick(["a.h5", "b.h5", "noext"]), "strict": r.flag(0.15), "default": r.flag(0.5),
             "existing": r.pick(["own", "own", "own", "junk", "empty", "foreign", "link", "readonly"]),
             "group": r.pick(["g1", "g2", "g1/deep", "/"]), "occupied": r.pick([None, None, "meta", "all", "member"]),
             "parent": r.pick(["file", "group"]), "hold": r.flag(0.25), "mode": r.pick(["r", "r", "r+"])}
        steps.append(s)
        if r.flag(0.4):
            faults.append({"at": j, "mode": r.pick(["call", "call", "disk"]), "frac": r.random(),
                           "what": r.pick(["oserror", "memory", "value", "runtime"]), "errno": r.pick(["ENOSPC", "EIO"]),
                           "sticky": r.flag(0.4)})
    return {"knobs": {"recipes": recipes, "train": r.flag(0.85), "seed": r.seed32()}, "steps": steps, "faults": faults}


def listing():
    out = {}
    for base, dirs, files in os.walk("."):
        for name in files + dirs:
            p = os.path.relpath(os.path.join(base, name), ".")
            if not os.path.isdir(p):
                out[p] = (os.readlink(p) if os.path.islink(p) else None, read_bytes(p))
            else:
                out[p] = ("dir", None)
    return out


def tree(f):
    """Everything in an open file, by name."""
    out = {}

    def visit(name, obj):
        attrs = {k: np.asarray(v).tolist() for k, v in obj.attrs.items()}
        val = (obj.dtype.str, obj.shape, obj[()].tobytes()) if isinstance(obj, h5py.Dataset) else None
        out[name] = (repr(sorted(attrs.items())), val)

    f.visititems(visit)
    out["/"] = (repr(sorted((k, np.asarray(v).tolist()) for k, v in f.attrs.items())), None)
    return out


def outside(t, group):
    g = group.strip("/")
    if not g:
        return {k: v for k, v in t.items() if k.split("/")[0] in ("other", "meta_other")}
    return {k: v for k, v in t.items() if k != g and not k.startswith(g + "/")}


def make_file(path, how, obj, c, seed):
    """Put something at the path, without the package."""
    if os.path.lexists(path):
        os.unlink(path)
    if how in ("own", "readonly", "link"):
        real = path if how != "link" else "real-" + path
        if c["t"] == "sparray":
            with h5py.File(real, "w") as f:
                save(obj, c, f.create_group("g1"), False)
        else:
            save(obj, c, real, True)
        if how == "link":
            os.symlink(real, path)
        if how == "readonly":
            os.chmod(path, 0o444)
    elif how == "foreign":
        with h5py.File(path, "w") as f:
            f["precious"] = np.arange(5.0)
    else:
        with open(path, "wb") as f:
            f.write(b"precious text\n" * 20 if how == "junk" else b"")


def foreign_content(f, seed):
    """What somebody else keeps in the open file."""
    if "other" not in f:
        g = f.create_group("other")
        g["data"] = zoo.arr((seed, 40), 4, 3)
        g.attrs["note"] = "somebody else's"
        f.attrs["version"] = 7
        f["meta_other"] = np.zeros((0,))


def run(case, ctx):
    k = case["knobs"]
    recipes = k["recipes"]
    objs = [build(c) for c in recipes]
    for o, c in zip(objs, recipes):
        if k["train"] and c["t"] not in ("sparray", "posterior"):
            zoo.train(o, c, k["seed"])
    faults = {f["at"]: f for f in case["faults"]}
    disk = Disk(ctx.scratch)

    def attempt(func, s, what):
        """func() with the fault of this step; (exception or None, fired)."""
        f = faults.get(s["id"])
        with warnings.catch_warnings():
            warnings.simplefilter("error" if s["strict"] else "ignore")
            if f is None:
                try:
                    func()
                    return None, False
                except Exception as ex:
                    return ex, False
            if f["mode"] == "call":
                def counting():
                    warnings.simplefilter("error" if s["strict"] else "ignore")
                    return count_points("call", func, external=True)

                kind, m = isolated(counting_in_copy(counting))
                if kind != "ok" or m == 0:
                    m = 1
                try:
                    with Fault("call", min(m - 1, int(f["frac"] * m)), f["what"], external=True) as ft:
                        func()
                    ex = None
                except Exception as e:
                    ex = e
                if ft.fired:
                    ctx.fault(f"call {f['what']}")
                return ex, ft.fired is not None
            disk.install()
            try:
                def counting():
                    disk.begin(reads=True)
                    try:
                        func()
                    except Exception:
                        pass
                    disk.end()
                    return len(disk.ops)

                kind, m = isolated(counting_in_copy(counting))
                if kind != "ok" or m == 0:
                    m = 1
                disk.begin({"at": min(m - 1, int(f["frac"] * m)), "what": "error", "errno": f["errno"], "sticky": f["sticky"]}, reads=True)
                try:
                    func()
                    ex = None
                except Exception as e:
                    ex = e
                fired = disk.fired > 0
                disk.end()
                if fired:
                    ctx.fault("disk error" + (" sticky" if f["sticky"] else ""))
                return ex, fired
            finally:
                disk.uninstall()

    for s in case["steps"]:
        c, obj = recipes[s["obj"]], objs[s["obj"]]
        op = s["op"]
        if c["t"] == "sparray" and op not in ("save_group", "load_group"):
            op = "save_group"
        path = s["file"]
        wrong = wrong_recipe(c) if s["wrong"] else None
        held = h5py.File("held.h5", "a") if s["hold"] else None
        base = open_hdf5_files()
        if op == "save_denied":
            make_file(path, s["existing"], obj, c, k["seed"])
            before = listing()
            if s["default"] and c["t"] != "posterior":
                ex, fired = attempt(lambda: obj.save(path), s, op)
            else:
                ex, fired = attempt(lambda: obj.save(path, overwrite=False), s, op)
            if ex is None:
                ctx.fail("overwritten", f"{c['t']}.save to an existing {s['existing']} path without permission did not raise")
            if (d := changed(before, listing())):
                ctx.fail("changed", f"refused {c['t']}.save to an existing {s['existing']} path changed {d}")
            closed(ctx, base, op, c, ex)
            ctx.nontrivial = True
        elif op in ("save_new", "save_over", "save_bad_target"):
            if op == "save_bad_target":
                os.makedirs("dir.h5", exist_ok=True)
                path = "dir.h5" if s["default"] else "missing/dir/x.h5"
            elif op == "save_new":
                if os.path.lexists(path):
                    os.unlink(path)
            else:
                make_file(path, s["existing"], obj, c, k["seed"])
            before = listing()
            ex, fired = attempt(lambda: zoo.save(obj, c, path, op != "save_new"), s, op)
            after = listing()
            own = {path, "real-" + path}
            if (d := changed({q: v for q, v in before.items() if q not in own}, {q: v for q, v in after.items() if q not in own and not q.endswith(".tmp")})):
                ctx.fail("changed", f"{c['t']}.save to {path} changed {d}")
            closed(ctx, base, op, c, ex)
            if op != "save_bad_target" and ex is None and not fired:
                usable(ctx, path, c, op)
            if ex is not None:
                ctx.nontrivial = True
                if op == "save_bad_target":
                    pass
                elif not fired and not s["strict"]:
                    ctx.fail("refused", f"{c['t']}.save with permission raised {type(ex).__name__}: {ex}")
            if op == "save_bad_target" and ex is None:
                ctx.fail("accepted", f"{c['t']}.save to {path} did not raise")
        elif op == "save_group":
            root = s["group"] == "/"
            name = "root.h5" if root else "open.h5"
            f = h5py.File(name, "w" if root else "a")
            try:
                foreign_content(f, k["seed"])
                if not root and s["group"] in f:
                    del f[s["group"]]
                target = f if root else f.create_group(s["group"])
                fill(target, s["occupied"], obj, c)
                inner = tree(f)
                base = open_hdf5_files()
                before = listing_without(name)
                ex, fired = attempt_open(attempt, lambda: save(obj, c, target, False), s, op)
                if not f or not target:
                    ctx.fail("closed", f"{c['t']}.save into an open group closed it ({ex!r})")
                if (d := differ(outside(inner, s["group"]), outside(tree(f), s["group"]))):
                    ctx.fail("outside", f"{c['t']}.save into group {s['group']} changed {d}")
                if open_hdf5_files() != base:
                    ctx.fail("handles", f"{c['t']}.save into a group left {open_hdf5_files() - base} HDF5 files open")
                if (d := changed(before, listing_without(name))):
                    ctx.fail("changed", f"{c['t']}.save into a group changed {d}")
                f.create_dataset(f"later{s['id']}", data=[1.0])
                f.flush()
                del f[f"later{s['id']}"]
                if ex is not None:
                    ctx.nontrivial = True
                    if not fired and not s["strict"] and s["occupied"] is None:
                        ctx.fail("refused", f"{c['t']}.save into an empty group raised {type(ex).__name__}: {ex}")
                elif not fired and s["occupied"] is None:
                    load(c, target)
            finally:
                if f:
                    f.close()
        elif op == "load_path":
            make_file(path, "own" if s["existing"] in ("readonly", "link") else s["existing"], obj, c, k["seed"])
            before = listing()
            lc = wrong or c
            ex, fired = attempt(lambda: zoo.load(lc, path), s, op)
            if (d := changed(before, listing())):
                ctx.fail("changed", f"{lc['t']}.load changed {d}")
            closed(ctx, base, op, c, ex)
            if ex is not None:
                ctx.nontrivial = True
                if not fired and not s["strict"] and wrong is None and s["existing"] in ("own", "readonly", "link"):
                    ctx.fail("refused", f"{c['t']}.load of its own file raised {type(ex).__name__}: {ex}")
            usable(ctx, path, c, op)
        else:  # load_group
            with h5py.File("open2.h5", "w") as f:
                foreign_content(f, k["seed"])
                target = f if s["group"] == "/" else f.create_group(s["group"])
                if s["existing"] not in ("junk", "empty"):
                    save(obj, c, target, False)
            f = h5py.File("open2.h5", s["mode"])
            try:
                target = f if s["group"] == "/" else f[s["group"]]
                inner = tree(f)
                before = listing_without("open2.h5") if s["mode"] == "r+" else listing()
                base = open_hdf5_files()
                lc = (wrong or c) if c["t"] != "sparray" else c
                ex, fired = attempt_open(attempt, lambda: load(lc, target), s, op)
                if not f or not target:
                    ctx.fail("closed", f"{lc['t']}.load from an open group closed it ({ex!r})")
                if (d := differ(inner, tree(f))):
                    ctx.fail("outside", f"{lc['t']}.load from group {s['group']} changed {d}")
                if open_hdf5_files() != base:
                    ctx.fail("handles", f"{lc['t']}.load from a group left {open_hdf5_files() - base} HDF5 files open")
                after = listing_without("open2.h5") if s["mode"] == "r+" else listing()
                if (d := changed(before, after)):
                    ctx.fail("changed", f"{lc['t']}.load from a group changed {d}")
                if ex is not None:
                    ctx.nontrivial = True
                    if not fired and not s["strict"] and wrong is None and s["existing"] not in ("junk", "empty"):
                        ctx.fail("refused", f"{c['t']}.load of its own group raised {type(ex).__name__}: {ex}")
            finally:
                if f:
                    f.close()
        ctx.event(op, c["t"], s["file"], s["existing"], type(ex).__name__ if ex else "ok", fired)
        ctx.state(op, c["t"], s["existing"], s["occupied"], type(ex).__name__ if ex else "ok", fired)
        ex = None
        if held is not None:
            if not held:
                ctx.fail("closed", f"{op} closed an unrelated open file")
            held.close()


def counting_in_copy(func):
    """Count in a copy of the directory, so that nothing is changed."""

    def go():
        import shutil

        here = os.getcwd()
        dup = here + "-count"
        shutil.rmtree(dup, ignore_errors=True)
        shutil.copytree(here, dup, symlinks=True)
        os.chdir(dup)
        try:
            return func()
        finally:
            shutil.rmtree(dup, ignore_errors=True)

    return go


def attempt_open(attempt, func, s, op):
    """Faults of an operation on a handle that is open already."""
    return attempt(func, s, op)


def listing_without(name):
    return {k: v for k, v in listing().items() if k != name}


def fill(group, occupied, obj, c):
    if occupied == "meta":
        group.create_dataset("meta", shape=(0,))
    elif occupied == "all":
        save(obj, c, group, False)
    elif occupied == "member":
        for name in ("entries", "transformer_00", "variable_0", "data_matrix", "operator_0", "means_0", "data"):
            group.create_dataset(name, data=[0.0])


def wrong_recipe(c):
    """A recipe of another class, to load a file as the wrong thing."""
    if c["t"] == "null":
        return {"t": "shift", "n": 3, "name": None, "seed": 1}
    return {"t": "null", "n": 3, "name": None} if c["t"] != "pod" else {"t": "shift", "n": 3, "name": None, "seed": 1}


def changed(a, b):
    for q in sorted(set(a) | set(b)):
        if a.get(q) != b.get(q):
            if q not in a:
                return f"{q} (new)"
            if q not in b:
                return f"{q} (gone)"
            return q
    return None


def differ(a, b):
    return changed(a, b)


def closed(ctx, base, op, c, ex):
    n = open_hdf5_files()
    if n != base:
        ctx.fail("handles", f"{op} of {c['t']} ({type(ex).__name__ if ex else 'returned'}) left {n - base} HDF5 files open")
    fds = 0
    here = os.getcwd() + os.sep
    for fd in os.listdir("/proc/self/fd"):
        try:
            q = os.readlink(f"/proc/self/fd/{fd}")
        except OSError:
            continue
        if q.startswith(here) and not q.endswith("held.h5"):
            fds += 1
    if fds and c.get("_seam") is None:
        ctx.fail("handles", f"{op} of {c['t']} ({type(ex).__name__ if ex else 'returned'}) left {fds} files open")


def usable(ctx, path, c, op):
    try:
        with h5py.File(path, "r+"):
            pass
    except OSError as ex:
        if h5py.is_hdf5(path) and os.access(path, os.W_OK):
            ctx.fail("handles", f"file of {c['t']} cannot be opened after {op}: {ex}")
    os.unlink(path)
    with h5py.File(path, "w"):
        pass
