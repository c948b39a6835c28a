"""T02: a timed block reports exactly once and hides nothing."""

from .. import clock  # noqa: F401  (before opinf)
from .. import timed

ID = "T02"
LEVEL = "exploration"
RUNS = {"quick": 10000, "thorough": 300000}
RULE = (
    "One evaluation is one simulated run of a drawn program of nested, repeated and reused timed blocks that print, fail, "
    "time out, run in other threads, add log files and change settings, on a virtual clock, with slow or failing standard "
    "output and slow or full log files. What arrived on standard output and in every log file is compared with what the "
    "blocks have to report, and the exceptions and the standard output after every block with those before. Non-trivial: "
    "an alarm arrived or a fault was injected; distinct by event log."
)
STATES = "depth x limit x message form x error of the body x error of the block x alarm pending before x rebuffer x log files x verbose"
REAL = ["opinf.utils.TimedBlock", "logging", "log files"]
STUBS = ["clocks", "sleep", "alarm signals and interval timers", "standard output", "bodies of the blocks"]
ASSUMPTIONS = [
    "an alarm does not become due between two lines of the block's own entry or exit code, or inside the logging package",
    "a block object is not entered again while it is active; blocks end in the reverse order of their beginning",
]


def gen(r, tier, index):
    knobs, steps = timed.gen_program(r, True)
    return {"knobs": knobs, "steps": steps}


simplify = timed.simplify


def run(case, ctx):
    timed.judge_reports(timed.execute(case, ctx, False, True))
