"""Batch runner: forked runs, minimisation, replay files, evidence.

One run is a pure function of its case (a JSON object): the child process that
executes it is forked from a parent that has only imported modules, so runs do
not see each other, and the same case gives the same event log in any worker,
in any order, and in a fresh interpreter.
"""

import concurrent.futures as cf
import hashlib
import importlib
import io
import json
import multiprocessing as mp
import os
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

from . import env
from .rng import Rng, derive

RUN_TIMEOUT = 90.0  # wall seconds for one run (typical runs take < 0.2 s)
EVIDENCE = os.path.join(env.VERIF, "evidence")
REPLAYS = os.path.join(env.VERIF, "replays")
PKG = os.path.join(os.path.realpath(env.SRC), "opinf") + os.sep
FINDINGS = os.path.join(env.VERIF, "known_findings.json")


class Violation(Exception):
    """The property is broken in this run."""

    def __init__(self, kind, message):
        super().__init__(message)
        self.kind = kind
        self.message = message


class Context:
    """What a run reports back; it never draws randomness or reads a clock."""

    def __init__(self, scratch):
        self.scratch = scratch
        self.log = []
        self.nlog = 0
        self.hash = hashlib.sha256()
        self.faults = {}
        self.probes = {}
        self.states = set()
        self.counters = {}
        self.sim_time = 0.0
        self.nontrivial = False

    def event(self, *parts):
        line = " ".join(str(p) for p in parts)
        self.hash.update(line.encode() + b"\n")
        self.nlog += 1
        if len(self.log) < 400:
            self.log.append(line)

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def state(self, *sig):
        self.states.add(
            hashlib.sha256("|".join(str(s) for s in sig).encode()).hexdigest()[
                :12
            ]
        )

    def fail(self, kind, message):
        raise Violation(kind, str(message)[:1500])


def from_package(ex):
    """Was the exception raised while code of the package was running?"""
    tb = ex.__traceback__
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(PKG):
            return True
        tb = tb.tb_next
    return False


# Failures of the environment. Any other exception outside the package is client
# code of the run that could not go on with what the package gave it.
HARNESS = (OSError, MemoryError, KeyboardInterrupt, SystemExit, ImportError, SyntaxError, NameError)


# Execution of one case =======================================================
def _execute(prop, case, scratch):
    ctx = Context(scratch)
    out = {"status": "ok", "kind": None, "message": None}
    try:
        prop.run(case, ctx)
    except Violation as ex:
        out.update(status="violation", kind=ex.kind, message=ex.message)
        ctx.event("VIOLATION", ex.kind)
    except BaseException as ex:
        text = "".join(traceback.format_exception(ex))[-4000:]
        inside = from_package(ex)
        if inside or not isinstance(ex, HARNESS):  # a step that has to succeed was refused
            kind = ("unexpected-" if inside else "client-") + type(ex).__name__
            out.update(status="violation", kind=kind, message=text[-1800:])
            ctx.event("VIOLATION", kind)
        else:  # an error of the harness
            out.update(status="error", kind=type(ex).__name__, message=text)
    out.update(
        hash=ctx.hash.hexdigest()[:20],
        events=ctx.nlog,
        log=ctx.log if out["status"] != "ok" or case.get("_log") else [],
        faults=ctx.faults,
        probes=ctx.probes,
        counters=ctx.counters,
        states=sorted(ctx.states),
        sim_time=ctx.sim_time,
        nontrivial=bool(ctx.nontrivial or ctx.faults),
    )
    return out


def run_forked(prop, case, scratch_root, timeout=None):
    """Run one case in a forked child; returns its result dictionary."""
    if timeout is None:
        timeout = RUN_TIMEOUT
    scratch = tempfile.mkdtemp(prefix="run", dir=scratch_root)
    rfd, wfd = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(rfd)
            os.setpgid(0, 0)
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 1)
            os.dup2(null, 2)
            sys.stdout = io.TextIOWrapper(io.FileIO(null, "w"), write_through=True)
            sys.stderr = sys.stdout
            os.chdir(scratch)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            signal.signal(signal.SIGTERM, signal.SIG_DFL)
            import numpy as np

            np.random.seed(derive("npglobal", case.get("cseed", 0)) % 2**32)
            np.seterr(all="ignore")
            out = _execute(prop, case, scratch)
            data = json.dumps(out).encode()
            view = memoryview(data)
            while view:
                n = os.write(wfd, view)
                view = view[n:]
        except BaseException:
            code = 70
        finally:
            os._exit(code)
    os.close(wfd)
    chunks = []
    deadline = time.monotonic() + timeout
    timed_out = False
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            timed_out = True
            break
        ready, _, _ = select.select([rfd], [], [], left)
        if not ready:
            timed_out = True
            break
        buf = os.read(rfd, 1 << 16)
        if not buf:
            break
        chunks.append(buf)
    os.close(rfd)
    if timed_out:
        for target in (lambda: os.killpg(pid, signal.SIGKILL), lambda: os.kill(pid, signal.SIGKILL)):
            try:
                target()
            except OSError:
                pass
    _, status = os.waitpid(pid, 0)
    shutil.rmtree(scratch, ignore_errors=True)
    base = {
        "hash": "", "events": 0, "log": [], "faults": {}, "probes": {},
        "counters": {}, "states": [], "sim_time": 0.0, "nontrivial": False,
    }
    if timed_out:
        return dict(base, status="timeout", kind="hang", message="run did not end")
    try:
        return json.loads(b"".join(chunks).decode())
    except ValueError:
        return dict(
            base,
            status="error",
            kind="died",
            message=f"run died without a result (wait status {status})",
        )


def make_case(prop, seed, index, tier):
    r = Rng(seed, prop.ID, index)
    case = {
        "property": prop.ID,
        "seed": seed,
        "index": index,
        "cseed": derive(seed, prop.ID, index, "case"),
    }
    case.update(prop.gen(r, tier, index))
    return case


# Minimisation ================================================================
def _generic_shrinks(case):
    """Candidate smaller cases: drop steps and faults, in chunks then singly."""
    for key in ("faults", "steps", "schedule"):
        seq = case.get(key)
        if not isinstance(seq, list) or not seq:
            continue
        n = len(seq)
        size = n
        while size >= 1:
            for start in range(0, n, size):
                new = seq[:start] + seq[start + size :]
                if len(new) < n:
                    yield dict(case, **{key: new})
            if size == 1:
                break
            size = max(1, size // 2)


def minimise(prop, case, kind, scratch_root, attempts=160, wall=75.0):
    best, tried = case, 0
    t0 = time.monotonic()
    improved = True
    while improved:
        improved = False
        gens = [_generic_shrinks(best)]
        if hasattr(prop, "simplify"):
            gens.append(prop.simplify(best))
        for gen in gens:
            for cand in gen:
                if tried >= attempts or time.monotonic() - t0 > wall:
                    return best, tried
                tried += 1
                out = run_forked(prop, cand, scratch_root)
                if out["status"] == "violation" and out["kind"] == kind:
                    best = cand
                    improved = True
                    break
            if improved:
                break
    return best, tried


# Known findings ==============================================================
def load_findings(prop_id):
    try:
        with open(FINDINGS) as f:
            entries = json.load(f)["findings"]
    except (OSError, ValueError, KeyError):
        return []
    return [e for e in entries if e.get("property") == prop_id]


def matches_finding(entry, out):
    if entry.get("kind") != out["kind"]:
        return False
    return all(s in (out["message"] or "") for s in entry.get("contains", []))


# Batches =====================================================================
_STATE = {}


def _worker_init(prop_name, seed, tier, root):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    _STATE["prop"] = importlib.import_module(prop_name)
    _STATE["args"] = (seed, tier, root)


def _worker_run(index):
    prop = _STATE["prop"]
    seed, tier, root = _STATE["args"]
    case = make_case(prop, seed, index, tier)
    out = run_forked(prop, case, root)
    if out["status"] == "timeout":
        out = run_forked(prop, case, root, timeout=2 * RUN_TIMEOUT)
        if out["status"] == "timeout":
            out["status"] = "violation"
    out["index"] = index
    return out


def new_scratch():
    base = os.environ.get("VERIF_SCRATCH")
    if not base:
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    return tempfile.mkdtemp(prefix="opinfdst.", dir=base)


def run_batch(prop, seed, tier, nruns, jobs, wall, on_result, root):
    """Run cases 0..nruns-1, delivering results in index order."""
    ctxmp = mp.get_context("fork")
    t0 = time.monotonic()
    with ctxmp.Pool(
        jobs, _worker_init, (prop.__name__, seed, tier, root)
    ) as pool:
        it = pool.imap(_worker_run, range(nruns), chunksize=1)
        for _ in range(nruns):
            left = wall - (time.monotonic() - t0)
            if left <= 0:
                pool.terminate()
                return False
            try:
                out = it.next(timeout=left)
            except mp.TimeoutError:
                pool.terminate()
                return False
            if on_result(out):
                pool.terminate()
                return True
    return True


def write_replay(prop, case, out, note):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(
        REPLAYS, f"{prop.ID}-seed{case['seed']}-run{case['index']}.json"
    )
    clean = {k: v for k, v in case.items() if not k.startswith("_")}
    with open(path, "w") as f:
        json.dump(
            {
                "property": prop.ID,
                "kind": out["kind"],
                "message": out["message"],
                "event_hash": out["hash"],
                "minimisation": note,
                "case": clean,
                "events": out["log"],
            },
            f,
            indent=1,
        )
        f.write("\n")
    return path


def replay(prop, path, quiet=False):
    with open(path) as f:
        rec = json.load(f)
    root = new_scratch()
    try:
        case = dict(rec["case"], _log=True)
        out = run_forked(prop, case, root)
        if out["status"] == "timeout":
            out["status"] = "violation"
    finally:
        shutil.rmtree(root, ignore_errors=True)
    if not quiet:
        for line in out["log"]:
            print("  " + line)
    if out["status"] == "violation":
        same = out["kind"] == rec["kind"] and out["hash"] == rec["event_hash"]
        print(f"kind: {out['kind']}\n{out['message']}")
        print(f"event log hash {out['hash']} ({'identical' if same else 'DIFFERENT'})")
        print(f"VIOLATION property={prop.ID} replay={path}")
        return 1
    if out["status"] == "error":
        print(out["message"])
        return 70
    print("replay: no violation")
    return 0


def _fresh_replay(prop, path):
    """Replay in a fresh interpreter; True if it reproduces exactly."""
    res = subprocess.run(
        [sys.executable, os.path.join(env.VERIF, "check.py"), prop.ID, "--replay", path],
        capture_output=True,
        text=True,
        timeout=6 * RUN_TIMEOUT,
        cwd=env.VERIF,
    )
    return res.returncode == 1 and "(identical)" in res.stdout


def check(prop, seed, tier, nruns=None, jobs=8, wall=None):
    t0 = time.monotonic()
    nruns = nruns or prop.RUNS[tier]
    wall = wall or {"quick": 420.0, "thorough": 5400.0}[tier]
    print(f"VERIF_SEED={seed} property={prop.ID} tier={tier} runs={nruns} jobs={jobs}")
    sys.stdout.flush()
    findings = load_findings(prop.ID)
    seen_findings = {}
    agg = {
        "runs": 0, "faults": {}, "probes": {}, "counters": {}, "states": set(),
        "sim": 0.0, "hashes": set(), "nontrivial": set(), "events": 0,
        "errors": [], "violation": None, "digest": hashlib.sha256(),
    }
    samples = []

    def absorb(out):
        agg["runs"] += 1
        agg["digest"].update(f"{out['index']}:{out['hash']}\n".encode())
        for name in ("faults", "probes", "counters"):
            for k, v in out[name].items():
                agg[name][k] = agg[name].get(k, 0) + v
        agg["states"].update(out["states"])
        agg["sim"] += out["sim_time"]
        agg["events"] += out["events"]
        agg["hashes"].add(out["hash"])
        if out["nontrivial"]:
            agg["nontrivial"].add(out["hash"])
        if out["status"] == "error":
            agg["errors"].append(out)
            return len(agg["errors"]) >= 5
        if out["status"] == "violation":
            for i, entry in enumerate(findings):
                if matches_finding(entry, out):
                    seen_findings[i] = out["index"]
                    return False
            agg["violation"] = out
            return True
        return False

    root = new_scratch()
    replay_path = None
    reproduced = None
    try:
        # The listed findings are demonstrated on every run.
        for i, entry in enumerate(findings):
            if "case" in entry:
                out = run_forked(prop, entry["case"], root)
                if out["status"] == "violation" and matches_finding(entry, out):
                    seen_findings.setdefault(i, -1)
        complete = run_batch(prop, seed, tier, nruns, jobs, wall, absorb, root)
        viol = agg["violation"]
        if viol is not None:
            case = make_case(prop, seed, viol["index"], tier)
            note = "hang: not minimised"
            best = case
            if viol["kind"] != "hang":
                best, tried = minimise(prop, case, viol["kind"], root)
                note = f"{tried} candidate runs"
            out = run_forked(prop, dict(best, _log=True), root)
            if out["status"] != "violation" and viol["kind"] != "hang":
                best, out = case, run_forked(prop, dict(case, _log=True), root)
            if out["status"] != "violation":
                out = dict(viol)
            replay_path = write_replay(prop, best, out, note)
            if viol["kind"] != "hang":
                reproduced = _fresh_replay(prop, replay_path)
        for index in sorted({0, nruns // 2, nruns - 1}):
            if index >= agg["runs"]:
                continue
            c = make_case(prop, seed, index, tier)
            o = run_forked(prop, dict(c, _log=True), root)
            text = json.dumps({k: v for k, v in c.items()})
            samples.append(
                {
                    "case": c if len(text) < 4000 else text[:4000] + "...",
                    "event_hash": o["hash"],
                    "events": o["log"][:60],
                }
            )
    finally:
        shutil.rmtree(root, ignore_errors=True)

    elapsed = time.monotonic() - t0
    hours = max(elapsed, 1e-9) / 3600
    coverage = {
        "evaluations": agg["runs"],
        "distinct_nontrivial": len(agg["nontrivial"]),
        "rule": prop.RULE,
        "samples": samples,
        "seed_derivation": "sha256(VERIF_SEED, property, run index)",
        "simulated_runs_per_hour": round(agg["runs"] / hours),
        "seeds_per_hour": round(agg["runs"] / hours),
        "simulated_time_s": round(agg["sim"], 3),
        "simulated_events": agg["events"],
        "faults_injected": dict(sorted(agg["faults"].items())),
        "probes": dict(sorted(agg["probes"].items())),
        "counters": dict(sorted(agg["counters"].items())),
        "distinct_event_logs": len(agg["hashes"]),
        "distinct_states": len(agg["states"]),
        "distinct_states_measure": prop.STATES,
        "components_real": prop.REAL,
        "components_stubbed": prop.STUBS,
        "batch_complete": bool(complete),
        "batch_digest": agg["digest"].hexdigest(),
        "known_findings_seen": len(seen_findings),
    }
    violations = 1 if agg["violation"] is not None else 0
    evidence = {
        "property": prop.ID,
        "tier": tier,
        "seed": seed,
        "level": prop.LEVEL,
        "coverage": coverage,
        "assumptions": prop.ASSUMPTIONS,
        "wall_s": round(elapsed, 2),
        "violations": violations,
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, f"{prop.ID}.json"), "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")

    for i in sorted(seen_findings):
        print(f"KNOWN-FINDING: property={prop.ID} {findings[i]['what']}")
    print(
        f"{agg['runs']} runs in {elapsed:.1f} s, {agg['events']} events, "
        f"{len(agg['hashes'])} distinct logs, {len(agg['states'])} states, "
        f"faults {dict(sorted(agg['faults'].items()))}"
    )
    if agg["violation"] is not None:
        v = agg["violation"]
        print(f"run {v['index']}: {v['kind']}: {v['message']}")
        if reproduced is False:
            print("note: the replay in a fresh interpreter did not match exactly")
        print(f"VIOLATION property={prop.ID} replay={replay_path}")
        return 1
    if agg["errors"]:
        for out in agg["errors"]:
            print(f"HARNESS ERROR in run {out.get('index')}: {out['message']}")
        return 70
    if not complete:
        print("wall limit reached before the batch was complete")
        if agg["runs"] < max(10, nruns // 10):
            return 71
    return 0
