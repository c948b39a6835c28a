"""C02: separate objects never influence each other."""

import gc
import os

import numpy as np
import scipy.sparse as sparse

from .. import sched

sched.install()  # before the package is imported

import opinf  # noqa: E402

from .. import hist, queries, zoo  # noqa: E402
from ..inject import Fault, attempt, gen_fault  # noqa: E402
from ..procs import isolated  # noqa: E402
from ..values import diff, outcome  # noqa: E402

ID = "C02"
LEVEL = "exploration"
RUNS = {"quick": 3500, "thorough": 60000}
RULE = (
    "One evaluation is one simulated run: two or three objects of a drawn kind, constructed separately, copied or loaded "
    "from one another, go through drawn histories (training, reconfiguring, rejected and failing operations, saves, reloads, "
    "questions, collection), interleaved in one thread or in one thread per object under a seeded scheduler. After every "
    "step the other objects must answer as before, and at the end every object must answer as it does in a process of its "
    "own in which only its own history took place. Non-trivial: objects with at least one step on another one after they "
    "were separated, distinct by event log."
)
STATES = "object kind x how the objects were separated x step on the other object x outcome"
REAL = ["opinf (all subpackages)", "Python threads", "numpy, scipy and h5py", "file system"]
STUBS = ["thread scheduling (seeded)", "numerical, file and user calls that are made to fail", "interrupts inside the package"]
ASSUMPTIONS = ["objects given the same component by the user (a solver, a basis) share that component by the user's choice"]

TOL = 1e-10


def _step(r, c, f):
    if f in "DLY" or r.flag(0.12):
        return {"m": "ask", **queries.gen_query(r, c, bad=0.2)}
    if f == "R":
        return {"m": "train", "seed": r.seed32()}
    if f == "M" and c["solver"] and r.flag(0.3):
        return {"m": "solverset", "seed": r.seed32(), "s": gen_solverset(r, c["solver"])}
    return hist.gen_mutation(r, c)


def gen_solverset(r, c):
    """A reconfiguration of a model's own solver by the user."""
    if "reg" in c:
        return {"m": "setreg", "reg": zoo.gen_reg(r, c["t"])}
    if c["t"] == "tsvd":
        return {"m": "setmodes", "modes": r.pick([None, 1, 2, 3, -1])}
    return {"m": "options", "options": {"cond": r.pick([1e-11, 1e-10])}}


def gen(r, tier, index):
    fam = r.weighted([("T", 4), ("B", 4), ("S", 4), ("O", 4), ("M", 6), ("R", 1.5), ("D", 0.5), ("L", 0.4), ("Y", 0.5)])
    recipes = [zoo.gen(r, fam)]
    threads = r.flag(0.35)
    n = r.weighted([(2, 4), (3, 1)])
    steps = [{"o": 0, "m": "train", "seed": r.seed32()}] if r.flag(0.6) else []
    for _ in range(r.int(0, 2)):
        steps.append({"o": 0, **_step(r, recipes[0], fam)})
    for i in range(1, n):
        how = r.weighted([("same", 2), ("other", 1), ("copy", 4), ("load", 2)])
        if how == "load" and not zoo.savable(recipes[0]):
            how = "copy"
        if how == "copy" and not (fam in "OM" or hasattr(zoo.CLASSES.get(recipes[0]["t"]), "copy")):
            how = "load" if zoo.savable(recipes[0]) else "same"
        recipes.append(zoo.gen(r, fam) if how == "other" else recipes[0])
        steps.append({"o": i, "m": "branch", "how": how, "seed": r.seed32()})
        if how in ("same", "other") and r.flag(0.75):
            steps.append({"o": i, "m": "train", "seed": r.seed32()})
    split = len(steps)
    for _ in range(r.int(2, 7)):
        o = r.int(0, n - 1)
        s = {"o": o, **_step(r, recipes[o], fam)}
        if r.flag(0.2):
            s["fault"] = gen_fault(r)
        if fam in "TBOM" and r.flag(0.25 if fam == "O" else 0.1):
            s = {"o": o, "m": "poke"}
        if not threads and r.flag(0.06):
            s = {"o": o, "m": "drop"}
        steps.append(s)
    if fam == "M" and recipes[0]["solver"] and "reg" in recipes[0]["solver"]:
        for o in range(n):
            if r.flag(0.5):
                steps.append({"o": o, "m": "refit", "seed": r.seed32(), "reg": zoo.gen_reg(r, recipes[0]["solver"]["t"])})
    return {
        "knobs": {"c": recipes, "split": split, "threads": threads, "qseed": r.seed32(), "first": r.int(0, n - 1), "opcodes": r.flag(0.15)},
        "steps": steps,
        "schedule": sched.gen_schedule(r, n) if threads else [],
    }


def simplify(case):
    if case["knobs"]["threads"]:
        yield dict(case, knobs=dict(case["knobs"], threads=False), schedule=[])
    if case["knobs"]["opcodes"]:
        yield dict(case, knobs=dict(case["knobs"], opcodes=False))


def separate(obj, c, s, tmp):
    if s["how"] in ("same", "other"):
        return zoo.settle(zoo.build(c), c)
    if s["how"] == "copy":
        return obj.copy()
    path = os.path.join(tmp, f"branch-{s['o']}-{s['seed']}.h5")
    try:
        zoo.save(obj, c, path, overwrite=True)
        return zoo.settle(zoo.load(c, path), c)
    except Exception:  # nothing to save yet, or left unusable by a refused fit
        return zoo.settle(obj.copy() if hasattr(obj, "copy") else zoo.build(c), c)


def perform(obj, c, s, tmp):
    """A step on one object; returns what stands for it afterwards."""
    try:
        if s["m"] == "ask":
            func, args = queries.make(obj, c, s, tmp)
            func(obj, *args)
            return obj
        if s["m"] == "poke":
            poke(obj)
            return obj
        if s["m"] == "solverset":
            cs = dict(c["solver"], d=zoo.model_d(c), r=obj.state_dimension or c["r"])
            hist.apply(obj.solver, cs, s["s"], tmp)
            return obj
        return zoo.settle(hist.apply(obj, c, s, tmp), c)
    except Exception:
        return obj


def poke(obj, depth=3):
    """The user writes into the arrays that the object shows (solvers keep those of the caller)."""
    if isinstance(obj, opinf.lstsq.SolverTemplate):
        return
    for name in sorted({x for x in dir(type(obj)) if isinstance(getattr(type(obj), x, None), property)} | set(vars(obj))):
        if name.startswith("_"):
            continue
        try:
            value = getattr(obj, name)
        except Exception:
            continue
        for v in value if isinstance(value, (list, tuple)) else [value]:
            v = getattr(v, "data", v) if sparse.issparse(v) else v
            if isinstance(v, np.ndarray):
                if v.flags.writeable and v.dtype.kind == "f":
                    v *= 0.75
            elif depth and type(v).__module__.startswith("opinf."):
                poke(v, depth - 1)


def lineage(steps, o):
    """The steps that made object o what it is: [(step, is it o's own branch)]."""
    out = []
    for s in steps:
        if s["m"] == "branch" and s["o"] == o:
            if s["how"] in ("same", "other"):
                out = [s]
            else:
                out.append(s)
        elif s["o"] == o:
            out.append(s)
        elif s["o"] == 0 and not any(x["m"] == "branch" and x["o"] == o for x in out):
            out.append(s)  # the parent's history up to the branch
    return out


def run(case, ctx):
    k = case["knobs"]
    recipes, steps = k["c"], [dict(s, id=i) for i, s in enumerate(case["steps"])]
    n = len(recipes)
    made = {0} | {s["o"] for s in steps if s["m"] == "branch"}
    if any(s["o"] not in made for s in steps):  # (a minimiser removed the branch)
        return
    branched = [i for i, s in enumerate(steps) if s["m"] == "branch"]
    split = max(branched) + 1 if branched else 0
    while split < len(steps) and steps[split]["id"] < k["split"]:
        split += 1
    threads = k["threads"]

    def probe(obj, o):
        out = zoo.probe(obj, recipes[o], k["qseed"])
        solver = getattr(obj, "solver", None)
        if solver is not None and recipes[o].get("solver"):
            for a in ("regularizer", "options", "method", "num_svdmodes", "data_matrix", "lhs_matrix"):
                if hasattr(solver, a):
                    out["solver " + a] = outcome(lambda: dict(v) if a == "options" else v) if (v := getattr(solver, a)) is not None else None
        return out

    def tmpdir(name):
        path = os.path.join(ctx.scratch, name)
        os.makedirs(path, exist_ok=True)
        return path

    tainted = {s["o"]: s["id"] for s in reversed(steps) if s.get("fault") or s["m"] in ("drop", "poke")}
    if 0 in tainted:  # a copy of something that failed is not compared either
        for s in steps:
            if s["m"] == "branch" and s["how"] in ("copy", "load") and s["id"] > tainted[0]:
                tainted.setdefault(s["o"], s["id"])

    def alone(o):
        """Object o in a process where only its own history happens."""
        tmp = tmpdir(f"alone{o}")
        obj, recs = zoo.settle(zoo.build(recipes[0]), recipes[0]), []
        for s in lineage(steps, o):
            if s["m"] == "branch":
                obj = separate(obj, recipes[o], s, tmp)
            elif s["m"] != "drop":
                c = recipes[s["o"]]
                if threads and s["id"] >= steps[split]["id"] if split < len(steps) else False:
                    rec = sched.Recorder(k["opcodes"])
                    obj = rec.run(lambda: perform(obj, c, s, tmp))
                    recs += sched.sites(rec.points, k["opcodes"])
                else:
                    obj = perform(obj, c, s, tmp)
        return probe(obj, o), recs

    ids = sorted(made)
    results = {}
    for o in ids:
        status, value = isolated(lambda: alone(o))
        if status != "ok":
            ctx.fail("died", f"process of object {o} died: {status} {value}")
        results[o] = value

    def fail(kind, text):
        again = isolated(lambda: alone(ids[0]))[1]
        if not diff(results[ids[0]][0], again[0], TOL, 1e-13):  # (R01 decides whether answers must be repeatable)
            ctx.fail(kind, text)

    objs = {0: zoo.settle(zoo.build(recipes[0]), recipes[0])}
    known, dirty, how = {0: probe(objs[0], 0)}, set(), {0: "original"}
    kinds = "/".join(sorted({c["t"] for c in recipes}))

    def compare(s, desc):
        for o in sorted(objs):
            if o == s["o"] or o in dirty:
                continue
            now = probe(objs[o], o)
            if (d := diff(known[o], now, TOL, 1e-13)):
                fail("influence", f"{kinds}: {desc} on object {s['o']} changed object {o} ({how[o]}): {d}")
            ctx.nontrivial = True
            ctx.state(recipes[o]["t"], how[o], how[s["o"]], desc)

    tmp = tmpdir("files")
    for s in steps if not threads else steps[:split]:
        o, desc = s["o"], s["m"] + (f" {s['q']}" if s["m"] == "ask" else "")
        if s["m"] == "branch":
            if 0 not in objs and s["how"] in ("copy", "load"):
                return
            objs[o] = separate(objs.get(0), recipes[o], s, tmp)
            how[o] = s["how"]
            if o in tainted and s["how"] in ("copy", "load") and tainted[o] == s["id"]:
                dirty.add(o)
        elif s["m"] == "drop":
            objs.pop(o, None)
            dirty.discard(o)
            gc.collect()
        elif o in objs:
            if s.get("fault"):
                value, ex, fired = attempt(lambda: perform(objs[o], recipes[o], s, tmp), s["fault"], ctx)
                if fired:
                    dirty.add(o)
                    desc += " (failing)"
                elif ex is None:
                    objs[o] = value
            else:
                objs[o] = perform(objs[o], recipes[o], s, tmp)
        compare(s, desc)
        if o in objs:
            known[o] = probe(objs[o], o)
        ctx.event(o, desc)
    if threads and split < len(steps):
        for o in sorted(objs):
            known[o] = probe(objs[o], o)
        mine = {o: [s for s in steps[split:] if s["o"] == o] for o in ids}
        # (a thread whose last step carries a fault is a victim: only the others are judged)

        def body(o):
            for s in mine[o]:
                if s.get("fault"):
                    ft = Fault("call", int(s["fault"]["frac"] * 40), s["fault"]["kind"], external=True, single=True)
                    dirty.add(o)
                    try:
                        with _profile(ft):
                            objs[o] = perform(objs[o], recipes[o], s, tmp)
                    except BaseException:
                        pass
                    if ft.fired:
                        ctx.fault(f"call {s['fault']['kind']} in a thread")
                else:
                    objs[o] = perform(objs[o], recipes[o], s, tmp)

        sc = sched.Scheduler(
            [lambda o=o: body(o) for o in ids],
            sched.plan(case["schedule"], [results[o][1] for o in ids]),
            k["first"], k["opcodes"],
        )
        got = sc.run()
        if sc.broken:
            ctx.fail("deadlock", f"{kinds}: every thread waits for another one")
        for ex in got:
            if isinstance(ex, BaseException):
                raise ex
        for i, q, j in sc.taken:
            ctx.event("switch", i, q, j)
            ctx.state(kinds, q, ",".join(s["m"] for s in mine[ids[j]]))
            ctx.nontrivial = True
        if sc.taken:
            ctx.fault("preemption", len(sc.taken))
        where = " [" + "; ".join(f"thread {i} stopped in {q} for thread {j}" for i, q, j in sc.taken[:6]) + "]"
    else:
        where = ""
    for o in sorted(objs):
        if o in dirty or o in tainted:
            continue
        if (d := diff(results[o][0], probe(objs[o], o), TOL, 1e-13)):
            fail(
                "history",
                f"{kinds}: object {o} ({how.get(o)}) is not what its own history makes it: {d}{where} "
                f"history {[s['m'] for s in lineage(steps, o)]}",
            )
    ctx.event("end", len(objs), len(dirty))


class _profile:
    """Fault of one thread (its profile hook only; the trace hook belongs to the scheduler)."""

    def __init__(self, fault):
        self.fault = fault

    def __enter__(self):
        import sys

        sys.setprofile(self.fault._profile)

    def __exit__(self, *exc):
        import sys

        sys.setprofile(None)
        return False
