"""Histories: what can happen to an object before and between queries.

A mutation is a JSON step; apply() performs it and returns the object that now
stands for the subject (a reload or copy replaces it). Steps that the library
is meant to reject are performed and their exception swallowed.
"""

import os

import numpy as np

from . import zoo
from .zoo import arr


def gen_mutation(r, c, reload=True, failing=True):
    f = zoo.family(c)
    t = c["t"]
    opts = []
    if f in "TBSM":
        opts.append(("train", 5))
    if f == "O":
        opts.append(("train", 4))
    if failing and f in "TBSMO":
        opts.append(("reject", 1))
    if f == "T" and t == "shiftscale":
        opts.append(("setstat", 1.5))
    if f == "T" and t in ("shift", "scale", "shiftscale", "null", "pipeline"):
        opts.append(("name", 0.5))
    if t == "pod":
        opts.append(("setdim", 3))
    if t in ("linear", "pod"):
        opts.append(("name", 0.5))
    if f == "S":
        if t in ("l2", "l2dec", "tik", "tikdec"):
            opts.append(("setreg", 3))
        if t == "tsvd":
            opts.append(("setmodes", 3))
        if t in ("tik", "tikdec"):
            opts.append(("method", 1))
        opts.append(("reset", 0.7))
        if t in ("plain", "tik", "tikdec"):
            opts.append(("options", 0.7))
    if f == "M" and c["solver"] and "reg" in c["solver"]:
        opts.append(("refit", 1.5))
    if hasattr(zoo.CLASSES.get(t), "copy") or f == "O" or (f == "M"):
        opts.append(("copy", 1))
    if t == "op":
        opts.append(("clear", 0.6))
    if reload and zoo.savable(c):
        opts.append(("reload", 1.2))
    if not opts:
        return {"m": "none"}
    m = r.weighted(opts)
    s = {"m": m, "seed": r.seed32()}
    if m == "train":
        if f in "TB":
            s["k"] = r.pick([6, 12, 20])
            if zoo._flexible(c) and r.flag(0.25):
                s["n"] = c["n"] + r.int(1, 2)
    elif m == "setdim":
        s["crit"] = zoo.gen_criterion(r, c["n"])
        s["via"] = r.pick(["set_dimension", "set_dimension", "property"])
        s["r"] = r.int(1, 4)
    elif m == "setreg":
        s["reg"] = zoo.gen_reg(r, t)
    elif m == "refit":
        s["reg"] = zoo.gen_reg(r, c["solver"]["t"])
    elif m == "setmodes":
        s["modes"] = r.pick([None, 1, 2, 3, -1, 0])
    elif m == "method":
        s["method"] = r.pick(["lstsq", "normal"])
    elif m == "options":
        s["options"] = {"lapack_driver": r.pick([None, "gelsd", "gelsy"]), "cond": r.pick([None, 1e-12])}
    elif m == "name":
        s["name"] = r.pick(zoo.NAMES + ["renamed"])
    elif m == "reject":
        s["how"] = r.int(0, 2)
    elif m == "setstat":
        s["what"] = r.pick(["mean_", "scale_", "shift_", "all"])
    return s


def quietly(func, *args, **kwargs):
    try:
        return func(*args, **kwargs)
    except Exception:
        return None


def apply(obj, c, s, tmp):
    """Perform s on obj; tmp is a directory for reloads."""
    m, f = s["m"], zoo.family(c)
    seed = s.get("seed", 0)
    if m == "none":
        return obj
    if m == "train":
        kw = {k: s[k] for k in ("k", "n") if s.get(k)}
        zoo.train(obj, c, seed, **kw)
    elif m == "reject":
        reject(obj, c, seed, s["how"])
    elif m == "name":
        obj.name = s["name"]
    elif m == "setstat":
        n = obj.state_dimension or c["n"]
        vals = {
            "mean_": arr((seed, 1), n),
            "scale_": 0.5 + np.abs(arr((seed, 2), n)) if c["byrow"] else 0.5 + seed % 7,
            "shift_": arr((seed, 3), n) if c["byrow"] else 0.1 * (seed % 5),
        }
        partial = s["what"] != "all" and obj.state_dimension is not None
        for key in [s["what"]] if partial else vals:
            quietly(setattr, obj, key, vals[key])
    elif m == "setdim":
        if s["via"] == "property":
            obj.reduced_state_dimension = s["r"]
        else:
            quietly(obj.set_dimension, **{s["crit"][0]: s["crit"][1]})
    elif m == "setreg":
        d, r = obj.d or c["d"], obj.r or c["r"]
        obj.regularizer = zoo.make_reg(c["t"], s["reg"], d, r)
    elif m == "setmodes":
        quietly(setattr, obj, "num_svdmodes", s["modes"])
    elif m == "method":
        obj.method = s["method"]
    elif m == "options":
        obj.options.update(s["options"])
    elif m == "reset":
        obj.reset()
    elif m == "refit":
        solver = getattr(obj, "solver", None)
        solvers = getattr(obj, "solvers", None) if c["t"][0] == "i" else None

        def go():
            for sv in solvers if solvers else [solver]:
                if sv is not None and getattr(sv, "d", None):
                    sv.regularizer = zoo.make_reg(c["solver"]["t"], s["reg"], sv.d, sv.r)
            obj.refit()

        quietly(go)
    elif m == "clear":
        del obj.entries
    elif m == "copy":
        if hasattr(obj, "copy"):
            return obj.copy()
    elif m == "reload":
        path = os.path.join(tmp, f"reload-{seed}.h5")
        zoo.save(obj, c, path, overwrite=True)
        obj = zoo.load(c, path)
        os.unlink(path)
        return obj
    return obj


def reject(obj, c, seed, how):
    """Something the object has to refuse."""
    f, t = zoo.family(c), c["t"]
    if f in "TB":
        if how == 0:
            quietly(obj.fit, arr(seed, 3))
        elif how == 1:
            quietly(obj.fit, arr(seed, c["n"] + 1, 4) if not zoo._flexible(c) else arr(seed, 2, 2, 2, 2))
        else:
            quietly(obj.fit, "states")
    elif f == "S":
        D, Z = zoo.solver_data(c, seed)
        if how == 0:
            quietly(obj.fit, D[:-1], Z)
        elif how == 1 and hasattr(obj, "regularizer"):
            d, nr = obj.d or c["d"], obj.r or c["r"]
            bad = {"l2": -1.0, "l2dec": -np.ones(nr), "tik": -np.ones(d), "tikdec": [-np.ones(d)] * nr}
            quietly(setattr, obj, "regularizer", bad[t])
        else:
            quietly(obj.fit, D[0], Z)
    elif f == "M":
        data = zoo.model_data(c, seed)
        if how == 0:
            bad = dict(data, states=data["states"][:-1])
        elif how == 1:
            lhs = data["lhs"]
            bad = dict(data, lhs=lhs[:, :-1] if not isinstance(lhs, list) else lhs[:-1])
        else:
            bad = dict(data, lhs=None)
        quietly(zoo.fit_model, obj, c, bad)
    elif f == "O" and c["k"] != "P":  # PolynomialOperator does not check entries
        quietly(obj.set_entries, np.zeros((2, 2, 2)) if how else "entries")
