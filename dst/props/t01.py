"""T01: time limits fire in time, once, and only inside their block."""

from .. import clock  # noqa: F401  (before opinf)
from .. import timed

ID = "T01"
LEVEL = "exploration"
RUNS = {"quick": 12000, "thorough": 400000}
RULE = (
    "One evaluation is one simulated run of a drawn program of nested, repeated and reused timed blocks with work, sleeping, "
    "clock jumps, slow output, stalls at drawn lines of the package, errors, caught timeouts and alarms of the user, on a "
    "virtual clock with virtual alarm signals. Every alarm that arrives, the alarm and handler after every block, and the "
    "end of every body are judged. Non-trivial: an alarm arrived or a fault was injected; distinct by event log."
)
STATES = "depth x limit x message form x error of the body x error of the block x alarm pending before x rebuffer x log files x verbose"
REAL = ["opinf.utils.TimedBlock", "logging"]
STUBS = ["clocks", "sleep", "alarm signals and interval timers", "standard output", "bodies of the blocks"]
ASSUMPTIONS = [
    "an alarm does not become due between two lines of the block's own entry or exit code",
    "a block object is not entered again while it is active; blocks end in the reverse order of their beginning",
    "the user does not change alarms inside a block with a limit",
]


def gen(r, tier, index):
    knobs, steps = timed.gen_program(r, False)
    return {"knobs": knobs, "steps": steps}


simplify = timed.simplify


def run(case, ctx):
    timed.judge_alarms(timed.execute(case, ctx, True, False))
