"""C01: concurrent queries equal sequential ones."""

import os

from .. import sched

sched.install()  # before the package is imported

from .. import functions, queries, zoo  # noqa: E402
from ..values import Err, diff, snap  # noqa: E402

ID = "C01"
LEVEL = "exploration"
RUNS = {"quick": 4500, "thorough": 70000}
RULE = (
    "One evaluation is one simulated run: two to four threads ask one trained object of a drawn kind (or call the "
    "package's functions) one to three questions each, while a seeded scheduler decides at every line (or byte-code "
    "instruction) executed inside the package which thread goes on. Every answer is compared with the answer the same "
    "question gets alone from a twin of the object, arguments bit for bit, and the complete observable state afterwards "
    "with the twin's. Non-trivial: at least one preemption inside a question took place, distinct by event log."
)
STATES = "object kind x question of the preempted thread x place x question of the next thread"
REAL = ["opinf (all subpackages)", "Python threads", "numpy, scipy and h5py", "file system"]
STUBS = ["thread scheduling (seeded, at lines or instructions of the package)", "locks of the package (cooperative)"]
ASSUMPTIONS = [
    "preemption happens inside the package's own code, not inside numpy, scipy and h5py",
    "the process-wide warning filters of Python are not part of the state",
    "the last solver report of a model may be that of any of the concurrent predictions",
]

TOL = 1e-10


def gen(r, tier, index):
    fam = r.weighted([("T", 3), ("B", 3), ("S", 3), ("O", 4), ("M", 6), ("R", 4), ("D", 1), ("L", 0.7), ("Y", 0.5), ("F", 2)])
    c = {"t": "functions"} if fam == "F" else zoo.gen(r, fam)
    nt = r.weighted([(2, 5), (3, 3), (4, 1)])
    load = fam != "F" and zoo.savable(c)

    def question():
        if load and r.flag(0.06):
            return {"q": "load", "seed": r.seed32()}
        s = functions.gen_call(r) if fam == "F" else queries.gen_query(r, c, bad=0.12)
        s.pop("trip", None)
        return s

    same = question() if r.flag(0.65) else None
    tasks = []
    for _ in range(nt):
        tasks.append([dict(same, seed=r.seed32()) if same and r.flag(0.8) else question() for _ in range(r.weighted([(1, 5), (2, 2), (3, 1)]))])
    return {
        "knobs": {"c": c, "train": r.flag(0.92), "tseed": r.seed32(), "qseed": r.seed32(), "first": r.int(0, nt - 1), "opcodes": r.flag(0.2)},
        "steps": tasks,
        "schedule": sched.gen_schedule(r, nt),
    }


def simplify(case):
    for i, task in enumerate(case["steps"]):
        for j in range(len(task)):
            if len(task) > 1:
                steps = [list(t) for t in case["steps"]]
                del steps[i][j]
                yield dict(case, steps=steps)
    if case["knobs"]["opcodes"]:
        yield dict(case, knobs=dict(case["knobs"], opcodes=False))


def run(case, ctx):
    k = case["knobs"]
    c = k["c"]
    fun = c["t"] == "functions"
    tasks = case["steps"]
    if not tasks or not all(tasks):
        return

    def subject():
        if fun:
            return None
        obj = zoo.build(c)
        if k["train"]:
            zoo.train(obj, c, k["tseed"])
        return zoo.settle(obj, c)

    if not k["train"] and not fun and zoo.family(c) == "R":
        return
    path = os.path.join(ctx.scratch, "shared.h5")
    loadable = False
    if any(s["q"] == "load" for t in tasks for s in t):
        try:
            zoo.save(subject(), c, path)
            loadable = True
        except Exception:  # nothing to save yet
            pass

    def prepare(obj, t, scratch):
        """Questions of one thread, as (function, arguments)."""
        os.makedirs(scratch, exist_ok=True)
        out = []
        for s in t:
            if s["q"] == "load":
                out.append((lambda o, q=s["seed"]: zoo.probe(zoo.load(c, path), c, q) if loadable else None, []))
            else:
                out.append(functions.make(s) if fun else queries.make(obj, c, s, scratch))
        return out

    def ask(obj, prepared, values):
        for func, args in prepared:
            try:
                values.append(func(obj, *args))
            except Exception as ex:
                values.append(Err(ex))

    # Alone.
    twin = subject()
    alone, records = [], []
    for i, t in enumerate(tasks):
        rec, vals = sched.Recorder(k["opcodes"]), []
        prepared = prepare(twin, t, os.path.join(ctx.scratch, f"a{i}"))
        rec.run(lambda: ask(twin, prepared, vals))
        alone.append(snap(vals))
        records.append(sched.sites(rec.points, k["opcodes"]))
    after = None if fun else zoo.probe(twin, c, k["qseed"])

    # Concurrently.
    obj = subject()
    prepared = [prepare(obj, t, os.path.join(ctx.scratch, f"b{i}")) for i, t in enumerate(tasks)]
    held = [snap([args for _, args in p]) for p in prepared]
    vals = [[] for _ in tasks]
    s = sched.Scheduler(
        [lambda p=p, v=v: ask(obj, p, v) for p, v in zip(prepared, vals)], sched.plan(case["schedule"], records), k["first"], k["opcodes"]
    )
    got = s.run()
    if s.broken:
        ctx.fail("deadlock", f"{c['t']}: every thread waits for another one")
    for ex in got:
        if isinstance(ex, BaseException):
            raise ex
    where = "; ".join(f"thread {i} stopped in {q} for thread {j}" for i, q, j in s.taken[:6])
    for i, t in enumerate(tasks):
        names = ", ".join(x["q"] for x in t)
        ctx.event(i, names, *[("raised" if isinstance(v, Err) else "ok") for v in vals[i]])
        if (d := diff(alone[i], snap(vals[i]), TOL, 1e-13)):
            ctx.fail("answer", f"{c['t']}: thread {i} ({names}) got something else than alone: {d} [{where}]")
        if (d := diff(held[i], snap([args for _, args in prepared[i]]), 0, 0)):
            ctx.fail("arguments", f"{c['t']}: arguments of thread {i} ({names}) changed: {d} [{where}]")
    if not fun and (d := diff(after, zoo.probe(obj, c, k["qseed"]), TOL, 1e-13)):
        ctx.fail("object", f"{c['t']} is not the same after concurrent questions: {d} [{where}]")
    for i, q, j in s.taken:
        ctx.event("switch", i, q, j)
        ctx.state(c["t"], ",".join(x["q"] for x in tasks[i]), q, ",".join(x["q"] for x in tasks[j]))
    ctx.fault("preemption", len(s.taken))
    if not s.taken:
        ctx.faults.pop("preemption", None)
    ctx.count("points", s.total)
    ctx.nontrivial = bool(s.taken)
