"""Writes MANIFEST.json from the property modules that exist."""
import json
import os
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
import dst.env  # noqa: E402,F401
import importlib  # noqa: E402

props = [json.loads(x) for x in open(os.path.join(here, "properties.jsonl"))]
NUMERIC = {
    "N04": "pure function of its input: a norm of an array, nothing for a simulator to schedule or fail",
    "N06": "accuracy of scipy's integrators, a numerical question outside what a simulator decides",
}
TECH = "deterministic simulation with fault injection: "
NOTE = {
    "P01": "seeded histories with disk faults between saves, same and new process, round trip oracle",
    "P02": "fault at a drawn disk operation, line or library call of a save, process death, old-or-new oracle",
    "P03": "seeded save/load sequences on paths, open files and groups with faults, byte and handle oracle",
    "P04": "damaged files and faults at drawn points of a load, complete-or-raise oracle",
    "H01": "seeded solver histories with faults and interrupts against an independent reference solver",
    "H02": "seeded fit histories with faults and interrupts against an independent reference regression",
    "H03": "seeded fit histories with faults and interrupts against independent reference statistics",
    "H04": "seeded fit histories with faults and interrupts against an independent reference SVD",
    "H05": "seeded histories of composite models with faults in callbacks against the composition of the parts",
    "H06": "seeded operator histories with faults and interrupts against an independent reference evaluation",
    "H07": "seeded query sequences with faults in library calls and callbacks, state oracle before and after",
    "H08": "verification runs with faults in a scratch directory, state and file system oracle",
    "H09": "seeded estimator histories with faults and interrupts against weights from polynomial exactness",
    "H10": "seeded lifting histories with faults and interrupts against independent powers",
    "H11": "seeded histories of two replicas with faults and single differences, equality against the answers of both",
    "C01": "seeded scheduler over real threads parked at every line of the package, sequential oracle",
    "C02": "seeded scheduler and interleaved histories over separate objects, isolation oracle",
    "G01": "seeded objective tables and optimiser faults against the best candidate",
    "G02": "seeded selections with faults in predictions and factories against direct fits of every candidate",
    "T01": "virtual clock and alarm signals, seeded delays, jumps and nested blocks",
    "T02": "virtual clock, seeded nesting and reuse with faults on standard output and log files",
    "R01": "the same seeded work in different orders, threads, processes and hash seeds",
}
checks, missing = [], []
for p in props:
    pid = p["id"]
    if pid in NUMERIC:
        missing.append({"property": pid, "reason": NUMERIC[pid]})
        continue
    if not os.path.exists(os.path.join(here, "dst", "props", pid.lower() + ".py")):
        missing.append({"property": pid, "reason": "the check is not built yet"})
        continue
    mod = importlib.import_module(f"dst.props.{pid.lower()}")
    checks.append({
        "property": pid,
        "quick_cmd": f"python3 check.py {pid} --tier quick",
        "thorough_cmd": f"python3 check.py {pid} --tier thorough",
        "technique": TECH + NOTE[pid],
        "level": mod.LEVEL,
        "level_note": f"seeded search: {mod.RUNS['quick']} simulated runs quick, {mod.RUNS['thorough']} thorough; samples, does not enumerate",
    })
out = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": missing}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(missing), "not applicable")
