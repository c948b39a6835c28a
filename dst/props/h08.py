"""H08: verifying an object leaves it and the file system as they were."""

import os
import tempfile

import numpy as np

from .. import user, zoo
from ..inject import attempt
from ..values import diff, snap

ID = "H08"
LEVEL = "exploration"
RUNS = {"quick": 4000, "thorough": 40000}
RULE = (
    "One evaluation is one simulated run: an object of a drawn kind (of the package, or of a class derived from one of its "
    "templates with a drawn defect), untrained or trained, is verified 1 to 4 times in a directory with files of the user while "
    "a drawn numerical or file operation of the verification fails; after each time its complete observable state and all files "
    "are compared with before. Non-trivial: the verification reported an error or a fault fired, distinct by event log."
)
STATES = "kind x defect x trained x outcome x place of the failure"
REAL = ["opinf (verify methods and what they call)", "numpy, scipy, h5py and the file system"]
STUBS = ["numerical and file operations and user classes that are made to fail"]
ASSUMPTIONS = ["the dimension of a first parameter may be remembered"]

FILES = ["solver.h5", "_solververification.h5", "_verification.h5", "model.h5", "basis.h5", "notes.txt", "tmp.h5"]


def gen(r, tier, index):
    fam = r.weighted([("user", 4), ("T", 2), ("B", 2), ("S", 3), ("O", 2.5), ("D", 2.5), ("L", 0.8)])
    c = user.gen_user(r) if fam == "user" else zoo.gen(r, fam)
    steps = []
    for j in range(r.int(1, 4)):
        s = {"seed": r.seed32(), "retrain": r.flag(0.2)}
        if r.flag(0.6):
            s["fault"] = {"mode": "call", "kind": r.weighted([("interrupt", 3), ("memory", 2), ("linalg", 3), ("oserror", 3), ("value", 1)]), "frac": r.random()}
        if r.flag(0.3):
            s["how"] = r.pick(["return", "strict", "param", "nottime"])
        steps.append(s)
    return {"knobs": {"c": c, "train": r.flag(0.85), "tseed": r.seed32(), "qseed": r.seed32(), "files": r.sample(FILES, r.int(0, len(FILES)))}, "steps": steps}


def verify(obj, c, f, s):
    how = s.get("how")
    if f == "L":
        t = np.linspace(1, 2, 400)
        n = c["n"]
        Q = np.array([2 + 0.3 * np.sin(t * (i + 1)) for i in range(n)])
        return obj.verify(Q, None if how == "nottime" else t, **({"tol": 1e-14} if how == "strict" else {}))
    if f == "T" and how == "strict":
        return obj.verify(tol=1e-14)
    if f == "D":
        return obj.verify(return_errors=how == "return")
    if f == "O" and c["t"] in ("aff", "int"):
        if how == "nottime":
            return obj.verify()
        return obj.verify(np.atleast_1d(zoo.query_param(c["p"], s["seed"])))
    return obj.verify()


def listing(top):
    out = {}
    for base, dirs, files in os.walk(top):
        for name in sorted(files):
            path = os.path.join(base, name)
            with open(path, "rb") as f:
                out[os.path.relpath(path, top)] = [f.read().hex()[:400], os.stat(path).st_size]
    return out


def run(case, ctx):
    k = case["knobs"]
    c = k["c"]
    cwd, tmp = os.path.join(ctx.scratch, "work"), os.path.join(ctx.scratch, "tmp")
    os.makedirs(cwd)
    os.makedirs(tmp)
    os.chdir(cwd)
    tempfile.tempdir = tmp
    for i, name in enumerate(k["files"]):
        for top in (cwd, tmp):
            with open(os.path.join(top, name), "wb") as f:
                f.write(b"user data %d " % i * 20)
    mine = c["t"] == "user"
    f = c["f"] if mine else zoo.family(c)
    obj = user.build_user(c) if mine else zoo.build(c)
    if k["train"] and not mine:
        zoo.train(obj, c, k["tseed"])
    label = f"user class {c['f']} ({c['defect']})" if mine else c["t"] + (c["k"] if f == "O" else c["kind"] if f == "D" else "")

    def battery():
        return user.probe_user(obj, c) if mine else zoo.probe(obj, c, k["qseed"])

    battery()
    for j, s in enumerate(case["steps"]):
        if s["retrain"] and not mine and k["train"]:
            zoo.train(obj, c, s["seed"])
        before, files, others = battery(), listing(cwd), listing(tmp)
        user.Own.calls = 0
        value, ex, fired = attempt(lambda: verify(obj, c, f, s), s.get("fault"), ctx)
        if mine and c["defect"]:
            ctx.fault("defective user class")
        ctx.nontrivial |= ex is not None
        ctx.event(j, label, type(ex).__name__ if ex else "ok", "/".join(fired) if fired else "")
        ctx.state(label, k["train"], type(ex).__name__ if ex else "", fired and fired[0], s.get("how"))
        said = f" (it raised {type(ex).__name__}: {ex})" if ex else ""
        if (d := diff(before, battery(), 1e-12, 0)):
            ctx.fail("object", f"verify() changed {label}: {d}{said}")
        if (d := diff(snap(files), snap(listing(cwd)), 0, 0)):
            ctx.fail("files", f"verify() of {label} changed the working directory: {d}{said}")
        now = listing(tmp)
        if (d := diff(snap(others), snap({n: v for n, v in now.items() if n in others}), 0, 0)):
            ctx.fail("files", f"verify() of {label} changed the user's temporary files: {d}{said}")
        if ex is None and not fired and set(now) != set(others):
            ctx.fail("files", f"verify() of {label} left temporary files: {sorted(set(now) - set(others))}")
        # The verification of a sound object succeeds again.
        if mine and c["defect"] is None and not s.get("how") and not fired and ex is not None:
            ctx.fail("refused", f"verify() rejected a sound {label}: {ex}")
    os.chdir(ctx.scratch)
