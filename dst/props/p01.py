"""P01: what was saved is what loads."""

import os

import h5py
import numpy as np
import scipy.sparse as sparse

import opinf

from .. import hist, zoo
from ..disk import Disk
from ..procs import isolated
from ..values import Err, diff, digest, outcome, snap

ID = "P01"
LEVEL = "exploration"
RUNS = {"quick": 4000, "thorough": 60000}
RULE = (
    "One evaluation is one simulated run: one or two generated objects (transformer, basis, operator, solver, model, "
    "posterior, sparse array), a generated history of fits, rejected fits, reconfigurations, copies and reloads, and saves "
    "to paths, open files and nested groups with failed saves in between, checked after every save, in the same and in a "
    "new process, and again for every stored object at the end. Non-trivial: at least one object was loaded and compared, "
    "distinct by event log."
)
STATES = "object kind x configuration of recipe x trained or not x kind of target x kind of load"
REAL = ["all of opinf.pre, basis, lstsq, operators, models, roms.OperatorPosterior, utils save/load code", "h5py and HDF5", "numpy, scipy"]
STUBS = ["file descriptors of the HDF5 files on runs with disk faults (Python file object over a real file)"]
ASSUMPTIONS = [
    "names 'None' and '' are not generated (they are not distinguishable from no name in the format)",
    "comparison of answers uses a relative tolerance of 1e-7; stored arrays are compared through the same queries",
]

FILES = ["a.h5", "b.h5", "c.h5", "noext"]


def gen_sparse(r):
    return {
        "t": "sparray", "fmt": r.pick(["csr", "csc", "coo", "bsr", "dia", "lil", "dok"]),
        "shape": [r.int(1, 6), r.int(1, 6)], "seed": r.seed32(), "density": r.pick([0.0, 0.3, 1.0]),
        "cls": r.pick(["array", "matrix"]), "dtype": r.pick(["float64", "float32", "int64", "complex128"]),
    }


def gen_recipe(r):
    fam = r.weighted([("T", 6), ("B", 4.5), ("O", 4.5), ("S", 4), ("M", 4), ("Y", 1.5), ("A", 0.7)])
    if fam == "A":
        return gen_sparse(r)
    c = zoo.gen(r, fam)
    while not zoo.savable(c):
        c = zoo.gen(r, fam)
    return c


def may_fail(c):
    """Are rejected fits part of the history? (What a container or model holds
    after a fit that failed halfway is not specified.)"""
    return "members" not in c and zoo.family(c) != "M"


def gen_loc(r):
    k = r.weighted([("path", 6), ("group", 4), ("openfile", 1.5)])
    if k == "path":
        return {"kind": k, "file": r.pick(FILES), "path": "/"}
    if k == "openfile":
        return {"kind": k, "file": r.pick(FILES), "path": "/", "mode": r.pick(["w", "w-", "a"])}
    return {
        "kind": k, "file": r.pick(FILES),
        "path": r.pick(["/grp_1", "/grp_2", "/grp_deep/er/est", "/grp 3", "/grp_ψ"]),
    }


def gen(r, tier, index):
    recipes = [gen_recipe(r) for _ in range(r.weighted([(1, 3), (2, 1)]))]
    steps, faults = [], []
    faulty = r.flag(0.35)
    for _ in range(r.int(2, 9)):
        i = r.int(0, len(recipes) - 1)
        c = recipes[i]
        if c["t"] != "sparray" and r.flag(0.5):
            steps.append({"op": "mut", "obj": i, "s": hist.gen_mutation(r, c, failing=may_fail(c))})
            continue
        s = {"op": "save", "obj": i, "loc": gen_loc(r), "load": r.pick(["path", "file", "group", "group"]),
             "proc": r.flag(0.12), "id": len(steps)}
        if r.flag(0.35):
            s["then"] = hist.gen_mutation(r, c, reload=False, failing=may_fail(c)) if c["t"] != "sparray" else None
        steps.append(s)
        if faulty and r.flag(0.5) and s["loc"]["kind"] == "path":
            faults.append({
                "at": s["id"], "frac": r.random(), "what": r.pick(["error", "error", "interrupt"]),
                "errno": r.pick(["ENOSPC", "EIO", "EDQUOT"]), "sticky": r.flag(), "torn": r.pick([0, 0, 0.5]),
            })
        if r.flag(0.2):
            steps.append({"op": "adopt", "obj": i})
    if not any(s["op"] == "save" for s in steps):
        steps.append({"op": "save", "obj": 0, "loc": gen_loc(r), "load": "path", "proc": False, "id": len(steps)})
    return {"knobs": {"recipes": recipes, "qseed": r.seed32(), "train": [r.flag(0.75) for _ in recipes]},
            "steps": steps, "faults": faults}


# Sparse arrays, with the same interface as the zoo
def build(c):
    if c["t"] != "sparray":
        return zoo.build(c)
    g = np.random.default_rng(c["seed"])
    A = g.standard_normal(c["shape"]) * (g.random(c["shape"]) < c["density"])
    A = (4 * A).astype(c["dtype"])
    make = sparse.coo_array if c["cls"] == "array" else sparse.coo_matrix
    return make(A).asformat(c["fmt"])


def view(obj, c, seed):
    if c["t"] != "sparray":
        return zoo.saved_view(zoo.probe(obj, c, seed))
    return {"dense": snap(obj.toarray()), "fmt": obj.format, "dtype": str(obj.dtype)}


def save(obj, c, target, overwrite):
    if c["t"] == "sparray":
        return opinf.utils.save_sparray(target, obj)
    return zoo.save(obj, c, target, overwrite)


def load(c, source):
    if c["t"] == "sparray":
        return opinf.utils.load_sparray(source)
    return zoo.load(c, source)


def load_from(c, loc, via, use):
    """use(loaded object), loaded through a path, an open file or a group."""
    path = loc["file"]
    if via == "path" and loc["path"] == "/" and c["t"] != "sparray":
        return use(load(c, path))
    with h5py.File(path, "r") as f:
        return use(load(c, f if loc["path"] == "/" else f[loc["path"]]))


def trained(obj, c):
    for a in ("leftvecs", "data_matrix", "entries", "scale_"):
        v = getattr(obj, a, None)
        if v is not None:
            return True
    return False


def run(case, ctx):
    k = case["knobs"]
    objs = [build(c) for c in k["recipes"]]
    for i, c in enumerate(k["recipes"]):
        if k["train"][i] and c["t"] not in ("sparray", "posterior"):
            zoo.train(objs[i], c, k["qseed"] ^ 5)
    disk = None
    if case["faults"]:
        disk = Disk(ctx.scratch)
        disk.install()
    faults = {f["at"]: f for f in case["faults"]}
    stored = {}  # (file, path) -> (index, view)

    def compare(i, want, got, where, what):
        d = diff(want, got)
        if d:
            ctx.fail("roundtrip", f"{what} {k['recipes'][i]['t']} {where}: saved != loaded at {d}")

    for s in case["steps"]:
        i = s["obj"]
        c = k["recipes"][i]
        if s["op"] == "mut":
            if s["s"]["m"] == "none":
                continue
            objs[i] = hist.apply(objs[i], c, s["s"], ctx.scratch)
            ctx.event("mut", i, s["s"]["m"])
            ctx.probe(f"mutation {s['s']['m']}")
            continue
        if s["op"] == "adopt":
            for key, (j, v) in sorted(stored.items()):
                if j == i:
                    objs[i] = load_from(c, {"file": key[0], "path": key[1]}, "group", lambda o: o)
                    ctx.event("adopt", i, key)
                    ctx.probe("object replaced by a loaded one")
                    break
            continue
        # save
        loc = dict(s["loc"])
        if c["t"] == "sparray" and loc["path"] == "/":
            loc["kind"], loc["path"] = "group", "/grp_1"
        key = (loc["file"], loc["path"])
        want = view(objs[i], c, k["qseed"])
        if loc["kind"] == "path":
            f = faults.get(s["id"])
            if f and os.path.exists(loc["file"]) and not h5py.is_hdf5(loc["file"]):
                os.unlink(loc["file"])
            if f:
                disk.begin()
                try:
                    save(objs[i], c, "count.h5", True)
                finally:
                    disk.end()
                n = len(disk.ops)
                os.unlink("count.h5")
                disk.begin(dict(f, at=int(f["frac"] * n)))
                try:
                    save(objs[i], c, loc["file"], True)
                    ctx.event("save survived fault")
                except (Exception, KeyboardInterrupt) as ex:
                    ctx.event("save failed", type(ex).__name__)
                finally:
                    if disk.fired:
                        ctx.fault(f"disk {f['what']}" + (" sticky" if f["sticky"] else ""))
                    disk.end()
            for old in [q for q in stored if q[0] == loc["file"]]:
                del stored[old]
            save(objs[i], c, loc["file"], True)
        elif loc["kind"] == "openfile":
            for old in [q for q in stored if q[0] == loc["file"]]:
                del stored[old]
            if os.path.exists(loc["file"]):
                os.unlink(loc["file"])
            with h5py.File(loc["file"], loc["mode"]) as hf:
                save(objs[i], c, hf, False)
        else:
            if os.path.exists(loc["file"]) and not h5py.is_hdf5(loc["file"]):
                os.unlink(loc["file"])
            with h5py.File(loc["file"], "a") as hf:
                if loc["path"] in hf:
                    del hf[loc["path"]]
                save(objs[i], c, hf.create_group(loc["path"]), False)
        stored[key] = (i, want)
        ctx.event("save", i, c["t"], loc["kind"], loc["file"], loc["path"], digest(want) if c["t"] != "posterior" else "")

        def check():
            return load_from(c, loc, s["load"], lambda o: view(o, c, k["qseed"]))

        if s["proc"]:
            kind, got = isolated(lambda: outcome_view(check))
            if kind != "ok":
                ctx.fail("load-died", f"process loading {c['t']} died ({got})")
            if isinstance(got, Err):
                ctx.fail("roundtrip", f"load of {c['t']} in a new process raised {got!r}")
            ctx.probe("loaded in a new process")
        else:
            got = check()
        compare(i, want, got, f"({loc['kind']}, loaded via {s['load']})", "after save,")
        ctx.nontrivial = True
        ctx.state(c["t"], shape_of(c), trained(objs[i], c), loc["kind"], s["load"])
        ctx.count(f"roundtrips {zoo.family(c) if c['t'] != 'sparray' else 'A'}")
        now = view(objs[i], c, k["qseed"])
        compare(i, want, now, "original after saving", "saving changed")
        loaded = load_from(c, loc, s["load"], lambda o: o)
        if hasattr(loaded, "parameter_dimension") and loaded.parameter_dimension != objs[i].parameter_dimension:
            ctx.fail("roundtrip", f"{c['t']} saved with {objs[i].parameter_dimension} parameters has {loaded.parameter_dimension}")
        if c["t"] in ("shiftscale", "shift", "scale", "null", "linear", "pod", "op", "int", "tmulti", "pipeline", "bmulti"):
            a = outcome(lambda: bool(objs[i] == objs[i]))
            b = outcome(lambda: bool(loaded == objs[i]))
            if a is True and b is not True:
                # __eq__ of untrained parts may be False for equal settings
                ca = outcome(lambda: bool(objs[i] == again(c, loc)))
                if ca is not True and trained(objs[i], c) and c["t"] in ("shiftscale", "op"):
                    ctx.fail("roundtrip-eq", f"loaded {c['t']} does not equal the saved one ({b!r})")
        if s.get("then") and comparable_future(c) and s["then"]["m"] not in ("none", "copy"):
            later(objs, i, c, loaded, s["then"], k["qseed"], ctx)
    for key, (i, want) in sorted(stored.items()):
        c = k["recipes"][i]
        got = load_from(c, {"file": key[0], "path": key[1]}, "group", lambda o: view(o, c, k["qseed"]))
        compare(i, want, got, f"{key}", "at the end,")
        ctx.event("final", key, i)
    if disk is not None:
        disk.uninstall()


def again(c, loc):
    return load_from(c, loc, "group", lambda o: o)


def outcome_view(func):
    try:
        return func()
    except Exception as ex:
        return Err(ex)


def comparable_future(c):
    """Do settings in the file determine what later fits do?"""
    t = c["t"]
    if t in ("sparray", "posterior"):
        return False
    if zoo.family(c) == "M":
        return False
    if t == "pod":
        return c["svdsolver"] == "dense"
    if "members" in c:
        return all(comparable_future(m) for m in c["members"])
    return True


def later(objs, i, c, loaded, s, qseed, ctx):
    """Original and loaded object behave alike from now on, too."""
    res = []
    for o in (objs[i], loaded):
        try:
            o = hist.apply(o, c, s, ctx.scratch)
            err = None
        except Exception as ex:
            err = Err(ex)
        res.append([err, view(o, c, qseed ^ 1)])
    d = diff(*res)
    ctx.event("later", s["m"])
    ctx.probe(f"compared after {s['m']}")
    if d:
        ctx.fail("later", f"{c['t']} after {s['m']}: original and loaded object differ at {d}")


def shape_of(c):
    keys = ("scaling", "centering", "byrow", "crit", "weights", "svdsolver", "form", "k", "fmt", "interp", "coeffs", "solver")
    out = []
    for q in keys:
        v = c.get(q)
        out.append(str(v.get("t") if isinstance(v, dict) else v[0] if isinstance(v, list) and v else v))
    if "members" in c:
        out.append(len(c["members"]))
        out.append(sorted({m["t"] for m in c["members"]}))
    if "ops" in c:
        out.append("".join(o["k"] for o in c["ops"]))
    return out
