"""Programs of timed blocks on a virtual clock, and what they did.

A program is a tree of operations: work, sleeping, clock jumps, output, errors,
caught errors, log files, settings, user alarms, and (nested, reused) blocks.
Running it records a history; the judges below read only that history, the text
that arrived on standard output, and the log files.
"""

import io
import logging
import os
import re
import signal
import sys
import threading

from . import clock as vclock
from .engine import Violation
from .inject import in_package

import opinf  # noqa: E402

SLACK = 0.02  # seconds of virtual time within which an alarm has to arrive
TOL = 1e-5


FATAL = (vclock.Killed, Violation)


class UserError(Exception):
    pass


class UserAbort(BaseException):
    pass


class UserTimeout(TimeoutError):
    pass


ERRORS = {
    "user": UserError, "value": ValueError, "interrupt": KeyboardInterrupt, "exit": SystemExit, "abort": UserAbort,
    "timeout": TimeoutError, "subtimeout": UserTimeout, "os": OSError, "stop": StopIteration, "empty": UserError,
}


# Drawing programs ============================================================
def gen_program(r, reports):
    """`reports`: emphasis on output and log files rather than on alarms."""
    names = iter(range(1, 10**6))
    pool = []  # blocks that exist already and can be used again

    def dt(limit=None):
        base = [0.001, 0.1, 0.25, 0.4, 0.5, 0.6, 0.9, 1.0, 1.4, 1.5, 2.0, 3.3]
        if limit is not None:
            lim = max(int(limit), 1)
            base += [lim - 0.01, lim + 0.01, lim - 0.3, lim + 0.6, lim * 0.5, lim * 3] * 2
        return round(max(r.pick(base), 0.0), 4)

    def body(depth, limits, n=None, in_thread=False):
        out = []
        for _ in range(r.weighted([(1, 3), (2, 3), (3, 2), (5, 1), (8, 1)]) if n is None else n):
            kinds = [("work", 3), ("sleep", 3), ("say", 2 if reports else 0.5), ("jump", 0.7), ("raise", 0.6)]
            if depth < 3:
                kinds += [("block", 4), ("catch", 1.2), ("loop", 0.7)]
            if reports and depth < 3:
                kinds += [("set", 0.8), ("logfile", 0.6)]
                if not limits and not in_thread:
                    kinds += [("thread", 0.4)]
            if not limits and not in_thread:
                kinds += [("alarm", 0.2 if reports else 1), ("handler", 0.2 if reports else 0.6)]
            op = r.weighted(kinds)
            lim = r.pick(limits) if limits else None
            if op in ("work", "sleep"):
                out.append({"op": op, "dt": dt(lim)})
            elif op == "say":
                out.append({"op": "say", "id": next(names), "end": r.pick(["\n", "\n", ""])})
            elif op == "jump":
                out.append({"op": "jump", "dt": r.pick([-3600.0, -5.0, -0.5, 0.5, 5.0, 86400.0])})
            elif op == "raise":
                out.append({"op": "raise", "what": r.pick(sorted(ERRORS)), "id": next(names)})
            elif op == "catch":
                out.append({"op": "catch", "what": r.pick(["timeout", "all", "all"]), "body": body(depth + 1, limits, None, in_thread)})
            elif op == "loop":
                out.append({"op": "loop", "n": r.pick([2, 3, 10]), "body": body(depth + 1, limits, 1, in_thread)})
            elif op == "set":
                out.append({"op": "set", "key": r.pick(["verbose", "rebuffer"]), "value": r.flag()})
            elif op == "logfile":
                out.append({"op": "logfile", "file": r.pick(["a.log", "b.log", "sub/c.log"]), "how": r.pick(["abs", "rel", "dots", "sub"])})
            elif op == "thread":
                out.append({"op": "thread", "body": body(depth + 1, limits, None, True)})
            elif op == "alarm":
                out.append({"op": "alarm", "dt": round(r.pick([0.5, 1, 2, 3, 5, 8, 20]) + r.pick([0, 0, 0.25, 0.7]), 3), "interval": r.pick([0, 0, 0, 1.5, 4.0])})
            elif op == "handler":
                out.append({"op": "handler", "what": r.pick(["record", "ignore", "default"])})
            else:
                limit = r.weighted([(None, 4 if reports else 1), (1, 2), (2, 2), (3, 2), (5, 2), (2.9, 1), (0.4, 1), (0, 0.3), (-1, 0.2), (60, 0.5)])
                if pool and r.flag(0.2):
                    n_, limit = r.pick(pool)
                else:
                    n_ = next(names)
                    pool.append((n_, limit))
                form = r.weighted([("plain", 6), ("newline", 1), ("return", 1), ("empty", 0.7), ("none", 0.5)])
                out.append({
                    "op": "block", "name": n_, "limit": limit, "form": form,
                    "body": body(depth + 1, limits + ([limit] if limit is not None else []), None, in_thread),
                })
        return out

    prog = body(0, [], r.pick([1, 2, 3, 5]))
    for attempt in range(4):
        if '"block"' in str(prog).replace("'", '"'):
            break
        prog = body(0, [], 3)
    knobs = {
        "verbose": not r.flag(0.15), "rebuffer": r.flag(0.25), "subclass": r.flag(0.15),
        "latency": r.pick([0, 0, 0, 0.01, 0.3, 0.8]) if r.flag(0.5) else 0,
        "loglatency": r.pick([0, 0.01, 0.3]) if r.flag(0.3) else 0,
        "stalls": [[r.int(0, 200), round(r.random() * 0.05, 3)] for _ in range(r.pick([0, 0, 1, 3, 8]))],
        "start": r.pick([0.0, 0.5, 1000.0, 123456.789]),
        "outfail": r.int(0, 12) if reports and r.flag(0.12) else None,
        "logfail": reports and r.flag(0.08),
        "logfirst": reports and r.flag(0.6),
    }
    return knobs, prog


def simplify(case):
    """Smaller programs: an operation less, a body in place of its block."""

    def variants(ops):
        for i, op in enumerate(ops):
            yield ops[:i] + ops[i + 1:]
            if "body" in op:
                yield ops[:i] + op["body"] + ops[i + 1:]
                for b in variants(op["body"]):
                    yield ops[:i] + [dict(op, body=b)] + ops[i + 1:]
                if op["op"] == "loop" and op["n"] > 2:
                    yield ops[:i] + [dict(op, n=2)] + ops[i + 1:]

    for key, val in (("latency", 0), ("loglatency", 0), ("stalls", []), ("outfail", None), ("logfail", False), ("logfirst", False), ("rebuffer", False), ("subclass", False), ("verbose", True), ("start", 0.0)):
        if case["knobs"][key] != val:
            yield dict(case, knobs=dict(case["knobs"], **{key: val}))
    for steps in variants(case["steps"]):
        yield dict(case, steps=steps)


# Running =====================================================================
class SimOut(io.TextIOBase):
    """Standard output: slow, or failing from some write on."""

    encoding = "utf-8"

    def __init__(self, sim):
        self.sim, self.parts, self.writes, self.failed = sim, [], 0, False

    def writable(self):
        return True

    def write(self, text):
        n, self.writes = self.writes, self.writes + 1
        at = self.sim.knobs["outfail"]
        if at is not None and n == at:
            self.failed = True
            self.sim.ctx.fault("standard output fails")
            raise BrokenPipeError("simulated: standard output is gone")
        self.parts.append(text)
        lat = self.sim.knobs["latency"]
        if lat and n % 3 == 0:
            self.sim.ctx.fault("slow output")
            self.sim.clock.advance(lat, cpu=False)
        return len(text)

    def flush(self):
        pass


class Use:
    """One execution of a block."""

    def __init__(self, op, tb, parent):
        self.op, self.tb, self.parent = op, tb, parent
        self.limit = None if op["limit"] is None else max(int(op["limit"]), 1)
        self.enter = self.begin = self.leave = self.exit = None
        self.body_error = self.error = None


class Sim:
    def __init__(self, case, ctx, alarms, reports):
        self.case, self.ctx, self.knobs = case, ctx, case["knobs"]
        self.alarms, self.reports = alarms, reports  # what is judged right after a block
        self.clock = vclock.Clock(self.knobs["start"])
        self.clock.note = lambda: tuple(self.stack)
        self.history = []  # (time, kind, ...)
        self.uses = []
        self.stack = []
        self.blocks = {}
        self.user = None  # [due, due at the latest, interval] of a user alarm
        self.tokens = []  # expected on standard output: (text, optional)
        self.logs = {}  # path -> expected records
        self.fuzzy = False  # an alarm or a failure cut a report short
        self.logfuzzy = False
        self.out = SimOut(self)
        self.cls = opinf.utils.TimedBlock
        self.on_alarm = self.handler  # one object
        self.lines = 0
        self.slack = SLACK  # and every stall so far
        self.seen = 0

    # time
    def advance(self, dt, cpu):
        before = self.clock.now
        self.clock.advance(dt, cpu)
        self.history.append((before, "pass", self.clock.now, tuple(self.stack)))

    def handler(self, signum, frame):
        self.history.append((self.clock.now, "fire", None, None))

    def stall(self, frame, event, arg):
        if not in_package(frame.f_code):
            return None
        if event == "line":
            n, self.lines = self.lines, self.lines + 1
            dt = self.stalls.get(n)
            if dt:
                due = self.clock.next_due()
                if due is None or due > self.clock.now + dt + 0.3:
                    self.ctx.fault("stall")
                    self.slack += dt
                    self.clock.advance(dt, cpu=False)
        return self.stall

    # operations
    def run_ops(self, ops):
        for op in ops:
            getattr(self, "op_" + op["op"])(op)

    def op_work(self, op):
        self.advance(op["dt"], True)

    def op_sleep(self, op):
        before = self.clock.now
        try:
            vclock.time.sleep(op["dt"])
        finally:
            self.history.append((before, "pass", self.clock.now, tuple(self.stack)))

    def op_jump(self, op):
        self.ctx.fault("clock jump")
        self.clock.jump(op["dt"])

    def op_say(self, op):
        text = f"say{op['id']}#"
        if not self.out.failed:
            self.tokens.append((text, False))
        try:
            print(text, end=op["end"])
        except OSError:
            self.fuzzy = True
        except TimeoutError:  # slow output and a time limit
            self.fuzzy = True
            raise

    def op_raise(self, op):
        cls = ERRORS[op["what"]]
        raise cls() if op["what"] == "empty" else cls(f"boom{op['id']}#")

    def op_catch(self, op):
        depth = len(self.stack)
        try:
            self.run_ops(op["body"])
        except BaseException as ex:
            if isinstance(ex, FATAL) or (op["what"] == "timeout" and not isinstance(ex, TimeoutError)):
                raise
            assert len(self.stack) == depth
            self.history.append((self.clock.now, "caught", type(ex).__name__, tuple(self.stack)))

    def op_loop(self, op):
        for _ in range(op["n"]):
            self.run_ops(op["body"])

    def op_set(self, op):
        setattr(self.cls, op["key"], op["value"])

    def op_alarm(self, op):
        if any(u.limit is not None for u in self.stack):
            return
        vclock.signal.signal(signal.SIGALRM, self.on_alarm)
        vclock.signal.setitimer(signal.ITIMER_REAL, op["dt"], op["interval"])
        self.history.append((self.clock.now, "user-alarm", op["dt"], op["interval"]))

    def op_handler(self, op):
        if any(u.limit is not None for u in self.stack):
            return
        if op["what"] != "record":
            vclock.signal.setitimer(signal.ITIMER_REAL, 0)
            self.history.append((self.clock.now, "user-alarm", None, 0))
        h = {"record": self.on_alarm, "ignore": signal.SIG_IGN, "default": signal.SIG_DFL}[op["what"]]
        vclock.signal.signal(signal.SIGALRM, h)

    def op_logfile(self, op):
        path = os.path.join(self.ctx.scratch, op["file"])
        os.makedirs(os.path.dirname(path), exist_ok=True)
        given = path
        cwd = os.getcwd()
        if op["how"] == "rel":
            os.chdir(os.path.dirname(path))
            given = os.path.basename(path)
        elif op["how"] == "dots":
            given = os.path.join(os.path.dirname(path), ".", "..", os.path.basename(os.path.dirname(path)), os.path.basename(path))
        elif op["how"] == "sub":
            os.chdir(self.ctx.scratch)
            given = op["file"]
        verbose = self.cls.verbose
        try:
            if verbose:
                self.tokens.append((re.compile(r"(Logging to|Already logging to) .*\n"), self.out.failed))
            self.cls.add_logfile(given)
        except (OSError, TimeoutError) as ex:
            if isinstance(ex, TimeoutError) or isinstance(ex, BrokenPipeError):
                self.fuzzy = True
                self.logfuzzy = True
            raise
        finally:
            os.chdir(cwd)
        self.logs.setdefault(path, [])

    def op_thread(self, op):
        stack, err = list(self.stack), []

        def target():
            try:
                self.run_ops(op["body"])
            except BaseException as ex:
                err.append(ex)

        before = self.clock.now
        self.ctx.probe("block in another thread")
        t = threading.Thread(target=target)
        t.start()
        t.join()
        self.stack[:] = stack
        self.history.append((before, "thread", self.clock.now))
        self.clock.advance(0.0)  # what became due meanwhile
        if err and isinstance(err[0], FATAL):
            raise err[0]

    def op_block(self, op):
        key = op["name"]
        if key not in self.blocks or any(u.tb is self.blocks[key] for u in self.stack):
            msg = {"plain": f"msg{key}#", "newline": f"msg{key}#\n", "return": f"\rmsg{key}#", "empty": "", "none": None}[op["form"]]
            self.blocks[key] = self.cls(msg) if op["limit"] is None else self.cls(msg, op["limit"])
            self.blocks[key].asked = op["limit"]  # (a note of the simulator)
        tb = self.blocks[key]
        use = Use(op, tb, self.stack[-1] if self.stack else None)
        use.limit = tb.timelimit
        want = None if tb.asked is None else max(int(tb.asked), 1)
        main = threading.current_thread() is threading.main_thread()
        if use.limit != want:
            self.ctx.fail("limit", f"the limit {tb.asked} became {use.limit}")
        out0, handler0, timer0 = sys.stdout, vclock.signal.getsignal(signal.SIGALRM), self.clock.remaining(signal.ITIMER_REAL)
        use.enter = use.since = self.clock.now
        use.timer0 = timer0
        use.verbose0 = self.cls.verbose
        self.uses.append(use)
        msg = tb.message
        if use.verbose0:
            header = len(self.tokens)
            self.tokens.append((f"{msg}...", True))
        mark = self.out.writes
        try:
            with tb as got:
                if got is not tb:
                    self.ctx.fail("as", "the context manager did not return itself")
                use.begin = self.clock.now
                if use.verbose0 and not self.out.failed:
                    self.tokens[header] = (f"{msg}...", False)
                self.history.append((use.begin, "begin", use))
                self.stack.append(use)
                try:
                    self.run_ops(op["body"])
                except BaseException as ex:
                    use.body_error = ex
                    raise
                finally:
                    use.leave = self.clock.now
                    use.stdout_in = sys.stdout
                    self.history.append((use.leave, "leave", use))
                    self.stack.remove(use)
                    use.verbose1 = self.cls.verbose
                    if use.limit is None:  # what the body left behind stays
                        handler0, timer0 = vclock.signal.getsignal(signal.SIGALRM), self.clock.remaining(signal.ITIMER_REAL)
                        use.since = self.clock.now
        except BaseException as ex:
            use.error = ex
        use.exit = self.clock.now
        self.history.append((use.exit, "exit", use))
        self.after(use, out0, handler0, timer0, main)
        if use.error is not None:
            raise use.error

    # what has to be true right after a block
    def after(self, use, out0, handler0, timer0, main):
        ctx, err, body = self.ctx, use.error, use.body_error
        if isinstance(err, FATAL):
            return
        where = f"block {use.op['name']} (limit {use.limit}, body {use.begin}..{use.leave}, body raised {body!r})"
        if self.reports and sys.stdout is not out0:
            ctx.fail("stdout", f"{where}: standard output is not what it was before: {sys.stdout!r}, raised {err!r}")
        main_alarms = main and self.alarms
        if main_alarms and vclock.signal.getsignal(signal.SIGALRM) is not handler0:
            ctx.fail("handler", f"{where}: the alarm handler is {vclock.signal.getsignal(signal.SIGALRM)!r}, before it was {handler0!r}")
        left = self.clock.remaining(signal.ITIMER_REAL)
        spent = self.clock.now - use.since
        if main_alarms:
            if timer0[0] == 0:
                if left[0] != 0:
                    ctx.fail("alarm-left", f"{where}: an alarm in {left[0]} s is left behind")
            elif left[0] == 0:
                if timer0[0] > spent + self.slack or timer0[1] or self.user_alarm():
                    if not (timer0[1] == 0 and any(use.since - self.slack <= t <= use.exit + self.slack for t, *_ in self.clock.delivered)):
                        ctx.fail("alarm-lost", f"{where}: the alarm that was due in {timer0[0]} s is gone after {spent} s")
            else:
                fired = any(use.since - TOL <= t <= use.exit + TOL for t, *_ in self.clock.delivered)
                want = timer0[0] - spent
                if want > self.slack and not fired and abs(left[0] - want) > TOL + self.slack - SLACK:
                    ctx.fail("alarm-changed", f"{where}: an alarm was due in {timer0[0]} s, {spent} s later it is due in {left[0]} s")
                if want <= self.slack and not fired and left[0] > 1 + self.slack:
                    ctx.fail("alarm-changed", f"{where}: an overdue alarm is due in {left[0]} s")
                if left[1] != timer0[1]:
                    ctx.fail("alarm-changed", f"{where}: the interval of the alarm was {timer0[1]}, now {left[1]}")
        self.outcome(use, where, main)

    def user_alarm(self):
        return any(h[1] == "user-alarm" for h in self.history) and not any(u.limit is not None for u in self.stack)

    def outer_due(self, use):
        u = use.parent
        while u is not None:
            if u.limit is not None and u.begin is not None and self.clock.now >= u.enter + u.limit - TOL:
                return True
            u = u.parent
        return False

    def outcome(self, use, where, main):
        ctx, err, body, tb = self.ctx, use.error, use.body_error, use.tb
        msg = tb.message
        cut = isinstance(err, TimeoutError) and self.outer_due(use)
        broken = isinstance(err, BrokenPipeError) and self.out.failed
        if use.begin is None:  # the block was never entered
            if not main and use.limit is not None and isinstance(err, ValueError):
                return
            if not (cut or broken):
                ctx.fail("enter", f"{where}: could not be entered: {err!r}")
            self.fuzzy = True
            return
        if body is None:
            if err is not None:
                if not (cut or broken):
                    ctx.fail("success", f"{where}: the body succeeded, but the block raised {err!r}")
                self.fuzzy = self.logfuzzy = True
                return
            lo, hi = use.leave - use.begin, use.exit - use.enter
            if self.reports and (not isinstance(tb.elapsed, float) or not lo - TOL <= tb.elapsed <= hi + TOL):
                ctx.fail("elapsed", f"{where}: took {lo} s ({hi} s with reports), but elapsed is {tb.elapsed!r}")
            if use.verbose1 and msg and not self.out.failed:
                self.tokens.append((f"done in {tb.elapsed:.2f} s.", False))
            self.expect_log(rf"{re.escape(msg)}\.\.\.done in {tb.elapsed:.6f} s\.")
            return
        if err is None and (self.reports or type(body) is TimeoutError):
            ctx.fail("swallowed", f"{where}: the exception of the body was swallowed")
        if broken and err is not body:
            self.fuzzy = self.logfuzzy = True
            return
        if type(body) is TimeoutError and use.limit is not None:
            if not isinstance(err, TimeoutError):
                ctx.fail("kind", f"{where}: the time limit was reported as {err!r}")
            if err is not body and not re.search(r"\d", str(err)) and not cut:
                ctx.fail("kind", f"{where}: the time limit was reported as {err!r}")
            if cut and err is not body and not str(err).startswith("TIMED OUT"):
                self.fuzzy = self.logfuzzy = True
                return
            self.expect_log(rf"{re.escape(msg)}\.\.\.TIMED OUT after \d+\.\d+ s\.")
            m = re.fullmatch(r"TIMED OUT after (\d+\.\d+) s\.", str(err))
            if self.reports and m and not use.leave - use.begin - 0.006 <= float(m.group(1)) <= use.exit - use.enter + 0.006:
                ctx.fail("elapsed", f"{where}: reported {err}")
            return
        if err is not body:
            if not cut and self.reports:
                ctx.fail("kind", f"{where}: came out as {err!r}")
            self.fuzzy = self.logfuzzy = True
            return
        if not self.out.failed:
            text = f"{type(body).__name__}: {body}".rstrip()
            self.tokens.append((text, not use.verbose1))
        self.expect_log(re.escape(msg))
        self.expect_log(rf"\({type(body).__name__}\) {re.escape(str(body))} \(raised after \d+\.\d+ s\)")

    def expect_log(self, pattern):
        for records in self.logs.values():
            records.append(pattern)


# Judges ======================================================================
def judge_alarms(sim):
    """Deliveries against the limits of the blocks they arrived in."""
    ctx, cls = sim.ctx, sim.cls
    arrived = [(t, stack) for t, sig, h, stack in sim.clock.delivered if sig == signal.SIGALRM and h is not sim.on_alarm]
    mine = [t for t, _ in arrived]
    # Build the timeline of entered blocks.
    limited = [u for u in sim.uses if u.limit is not None and u.begin is not None]
    for u in limited:
        u.early, u.late = u.enter + u.limit, u.begin + u.limit
        u.pending, u.direct = True, []

    def inside(u, t):
        return u.begin - TOL <= t <= u.leave + TOL

    def chain(u):
        while u is not None:
            if u.limit is not None and u.begin is not None:
                yield u
            u = u.parent

    for t, stack in arrived:
        here = [u for u in stack if u.limit is not None]
        if not here:
            ctx.fail("stray", f"an alarm of a block arrived at {t}, outside of every block with a limit")
        deepest = here[-1]
        ok = [u for u in here if u.early - TOL <= t and u.pending]
        if not ok:
            ctx.fail("early", f"an alarm arrived at {t} in blocks {[(u.op['name'], u.begin, u.limit) for u in here]}: nothing was due")
        for u in ok:
            u.pending = u is not deepest
        deepest.direct.append(t)
    for u in limited:
        if u.leave <= u.late + sim.slack:
            continue
        if any(u.early - TOL <= t <= u.late + sim.slack for t in mine if inside(u, t)):
            continue
        if any(t < u.late for t in u.direct):  # the limit of an outer block arrived here first
            continue
        # A nested block whose own limit was used up may hold it back.
        at, moved = u.late, True
        while moved:
            moved = False
            for v in limited:
                if v is not u and u in list(chain(v)) and v.begin - TOL <= at <= v.exit + TOL and (at >= v.leave - TOL or any(inside(v, t) and t <= at + TOL for t in mine)) and v.exit > at + TOL:
                    at, moved = v.exit, True
        if u.leave <= at + sim.slack or any(u.late - TOL <= t <= at + sim.slack for t in mine):
            continue
        ctx.fail("late", f"block {u.op['name']} with limit {u.limit} ran from {u.begin} to {u.leave} ({u.leave - u.begin} s) without a timeout")
    # Alarms of the user.
    due = late = interval = None
    events = [(h[0], h[1], h[2], h[3]) for h in sim.history if h[1] in ("fire", "user-alarm", "pass")]
    spans = [(u.enter, u.exit) for u in sim.uses if u.limit is not None]
    spans += [(h[0], h[2]) for h in sim.history if h[1] == "thread"]

    def latest(t):
        moved = True
        while moved:
            moved = False
            for a, b in spans:
                if b is not None and a - TOL <= t < b:
                    t, moved = b, True
        return t + sim.slack

    for t, what, a, b in events:
        if what in ("fire", "user-alarm") and due is not None and t > late + TOL:
            ctx.fail("user-late", f"the alarm of the user was due at {due} (at the latest {late}), at {t} it had not arrived")
        if what == "user-alarm":
            due, interval = (None, 0) if a is None else (t + a, b)
            late = None if due is None else latest(due)
        elif what == "fire":
            if due is None or t < due - TOL:
                ctx.fail("user-early", f"the alarm of the user was due at {due} and arrived at {t}")
            due, late = (due + interval, latest(t + interval)) if interval else (None, None)
        elif due is not None and a > late + TOL:
            ctx.fail("user-lost", f"the alarm of the user was due at {due} (at the latest {late}), at {a} it had not arrived")


def judge_reports(sim):
    ctx = sim.ctx
    text = "".join(sim.out.parts)
    if not sim.fuzzy and not sim.out.failed:
        pos = 0
        rest = []
        for token, optional in sim.tokens:
            if isinstance(token, str):
                at, end = text.find(token, pos), 0
                end = at + len(token)
            else:
                m = token.search(text, pos)
                at, end = (-1, 0) if m is None else m.span()
            if at < 0:
                if optional:
                    continue
                ctx.fail("missing", f"standard output lacks {token!r} (in this order) after {text[max(0, pos - 60):pos]!r}: {text[pos:pos + 200]!r}")
            if optional and text[pos:at].strip():
                continue
            rest.append(text[pos:at])
            pos = end
        rest.append(text[pos:])
        extra = "|".join(x.strip() for x in rest if x.strip())
        if extra:
            ctx.fail("extra", f"standard output has more than the reports: {extra[:300]!r} in {text[-600:]!r}")
    if sim.knobs["logfail"]:
        return
    for path, records in sim.logs.items():
        with open(path, newline="") as f:
            lines = [x.split("\t", 1)[-1] for x in f.read().split("\n") if x]
        if sim.logfuzzy:
            continue
        for i, (line, pat) in enumerate(zip(lines, records)):
            if not re.fullmatch(pat, line):
                ctx.fail("log", f"record {i} of {os.path.basename(path)} is {line!r}, expected {pat!r}; all: {lines}")
        if len(lines) != len(records):
            ctx.fail("log", f"{os.path.basename(path)} has {len(lines)} records, expected {len(records)}: {lines} / {records}")


def execute(case, ctx, alarms, reports):
    """Run a program; returns the simulation for the judges."""
    sim = Sim(case, ctx, alarms, reports)
    k = sim.knobs
    saved_out, saved_err = sys.stdout, sys.stderr
    root = logging.getLogger()
    if k["subclass"]:
        sim.cls = type("Mine", (opinf.utils.TimedBlock,), {})
    opinf.utils.TimedBlock.verbose, opinf.utils.TimedBlock.rebuffer = k["verbose"], k["rebuffer"]
    sim.stalls = {}
    for at, dt in k["stalls"]:
        sim.stalls[at] = dt
    logging.raiseExceptions = False
    emit = logging.StreamHandler.flush

    def flush(handler):
        if isinstance(handler, logging.FileHandler):
            if k["logfail"]:
                ctx.fault("log file fails")
                raise OSError(28, "simulated: no space left on device")
            due = sim.clock.next_due()
            if k["loglatency"] and (due is None or due > sim.clock.now + k["loglatency"] + 0.3):
                ctx.fault("slow log")
                sim.clock.advance(k["loglatency"], cpu=False)
        return emit(handler)

    logging.StreamHandler.flush = flush
    sys.stdout, sys.stderr = sim.out, io.StringIO()
    escaped = None
    try:
        with vclock.running(sim.clock):
            if sim.stalls:
                sys.settrace(sim.stall)
            try:
                first = [{"op": "logfile", "file": "a.log", "how": "abs"}] if k["logfirst"] else []
                for op in first + case["steps"]:
                    try:
                        sim.run_ops([op])
                    except FATAL:
                        raise
                    except BaseException as ex:
                        sim.history.append((sim.clock.now, "top", type(ex).__name__))
                for _ in range(4):  # whatever is left over arrives now
                    sim.advance(40.0, False)
            except vclock.Killed as ex:
                escaped = ex
            finally:
                sys.settrace(None)
        left = sys.stdout
    finally:
        sys.stdout, sys.stderr = saved_out, saved_err
        logging.StreamHandler.flush = emit
        for h in list(root.handlers):
            h.close()
    if escaped is not None and alarms:
        ctx.fail("killed", f"an alarm nobody handles would have ended the process: {escaped}")
    if reports and left is not sim.out:
        ctx.fail("stdout", f"standard output was left as {left!r}")
    ctx.sim_time += sim.clock.spent
    for h in sim.history:
        if h[1] in ("begin", "leave", "exit"):
            ctx.event(h[1], h[2].op["name"], round(h[0], 6), type(h[2].error).__name__ if h[1] == "exit" else "")
        elif h[1] not in ("pass", "fire"):
            ctx.event(*h[1:2], round(h[0], 6), *[x for x in h[2:] if not isinstance(x, tuple)])
    for t, sig, h, _ in sim.clock.delivered:
        ctx.event("alarm", round(t, 6), "user" if h == sim.on_alarm else "block")
        ctx.fault("alarm of the user" if h == sim.on_alarm else "time limit reached")
    for u in sim.uses:
        depth, p = 0, u.parent
        while p is not None:
            depth, p = depth + 1, p.parent
        ctx.state(depth, u.limit is None, u.op["form"], type(u.body_error).__name__, type(u.error).__name__, u.timer0[0] > 0, k["rebuffer"], len(sim.logs), k["verbose"])
    return sim
