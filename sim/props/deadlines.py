"""T01, T02: time limits (`timeout`) on a simulated clock and alarm."""
import contextlib
import copy
import os
import signal
import sys

from sim import env
from sim.core import InjectedError, InjectedInterrupt, Prop, SimClock, Violation, Discard

TIE = 1e-3
TOL = 1e-4


class SimAlarm:
    """SIGALRM and ITIMER_REAL of a simulated process, on the simulated clock."""

    def __init__(self, w, clock):
        self.w = w
        self.clock = clock
        self.handler = signal.SIG_DFL
        self.deadline = None
        self.delivered = []  # times

    # the functions of `signal`
    def signal(self, signum, handler):
        if signum != signal.SIGALRM:
            raise Violation("foreign-signal", "handler of signal {} changed".format(signum))
        old, self.handler = self.handler, handler
        return old

    def getsignal(self, signum):
        return self.handler

    def setitimer(self, which, seconds, interval=0.0):
        old = self.getitimer(which)
        self.deadline = self.clock.now + seconds if seconds > 0 else None
        return old

    def getitimer(self, which):
        if self.deadline is None:
            return (0.0, 0.0)
        return (max(self.deadline - self.clock.now, 1e-9), 0.0)

    def alarm(self, seconds):
        old = self.getitimer(None)[0]
        self.setitimer(None, seconds)
        return int(old + 0.5) if old == 0 else max(1, int(old + 0.5))

    NAMES = ("signal", "getsignal", "setitimer", "getitimer", "alarm")

    def install(self):
        self.saved = {n: getattr(signal, n) for n in self.NAMES}
        for n in self.NAMES:
            setattr(signal, n, getattr(self, n))

    def remove(self):
        for n, f in self.saved.items():
            setattr(signal, n, f)

    # the program
    def deliver(self, frame=None):
        self.deadline = None
        self.delivered.append(self.clock.now)
        if not callable(self.handler):
            raise Violation(
                "killed-by-alarm", "SIGALRM with the default action: the process dies"
            )
        self.w.fault("alarm delivered")
        self.handler(signal.SIGALRM, frame or sys._getframe(1))

    def work(self, d, interruptible):
        end = self.clock.now + d
        while True:
            self.w.step()
            if interruptible:
                if self.deadline is not None and self.deadline <= end:
                    self.clock.advance(max(self.deadline - self.clock.now, 0))
                    self.deliver()
                    continue
                self.clock.advance(max(end - self.clock.now, 0))
                return
            # e.g. inside of the NLP solver: delivered when it returns to Python
            if end > self.clock.now:
                self.clock.advance(end - self.clock.now)
            if self.deadline is not None and self.deadline <= self.clock.now:
                self.w.fault("alarm delivered late")
                self.deliver()
                continue
            return


class Stall:
    """The process stalls at the n-th executed line of the code of the limits; alarms that are
    due by then are delivered there."""

    def __init__(self, w, alarm, n, d):
        self.w, self.alarm, self.n, self.d = w, alarm, n, d
        self.count = 0
        self.file = os.path.join(os.path.realpath(env.REPO), "yaocptool", "util", "timeout.py")
        self.known = {}

    def _global(self, frame, event, arg):
        name = frame.f_code.co_filename
        if name not in self.known:
            self.known[name] = os.path.realpath(name) == self.file
        return self._local if self.known[name] else None

    def _local(self, frame, event, arg):
        if event == "line":
            self.count += 1
            if self.count == self.n:
                self.w.fault("stall inside of a limit")
                a = self.alarm
                a.clock.advance(self.d)
                if a.deadline is not None and a.deadline <= a.clock.now:
                    self.w.probe("alarm while a limit is entered or left")
                    a.deliver(frame)
        return self._local

    def __enter__(self):
        self._old = sys.gettrace()
        sys.settrace(self._global)

    def __exit__(self, *a):
        sys.settrace(self._old)
        return False


class UserAlarm(Exception):
    pass


class Expired(Exception):
    """Reference: the limit of block `bid` expired (bid "user": the alarm of the caller)."""

    def __init__(self, bid):
        self.bid = bid


class Wrapped(Exception):
    pass


class Reference:
    """What has to happen: absolute deadlines, each enforced at the first moment that the
    program can be interrupted."""

    def __init__(self):
        self.now = 0.0
        self.active = []  # [bid, deadline]
        self.log = []
        self.caught = set()  # limits whose interruption was caught by the work itself

    def close(self, a, b):
        if abs(a - b) < TIE:
            raise Discard("tie")

    def pending(self, t):
        due = []
        for bid, deadline in self.active:
            if deadline is None:
                continue
            self.close(deadline, t)
            if deadline <= t:
                due.append((deadline, bid))
        for _, d in self.active:
            for _, e in self.active:
                if d is not None and e is not None and d is not e and d != e:
                    self.close(d, e)
        return sorted(due)

    def work(self, d, interruptible):
        end = self.now + d
        due = self.pending(end)
        if due:
            deadline, bid = due[0]
            self.now = max(self.now, deadline) if interruptible else end
            for a in self.active:
                if a[0] == bid:
                    a[1] = None
            raise Expired(bid)
        self.now = end

    def run(self, prog, timers):
        for st in prog:
            op = st[0]
            if op == "work":
                self.work(st[1], True)
            elif op == "native":
                self.work(st[1], False)
            elif op in ("jump", "make"):
                pass
            elif op == "raise":
                raise st_exc(st[1])
            elif op == "wrap":
                try:
                    self.run(st[1], timers)
                except Exception as e:
                    raise Wrapped() from e
            elif op in ("handle", "swallow"):
                try:
                    self.run(st[1], timers)
                except Exception as e:
                    if isinstance(root(e), Expired):
                        self.caught.add(root(e).bid)
                    if op == "handle":
                        raise InjectedError("while handling another one")
            elif op == "user":
                entry = ["user", self.now + st[1]]
                self.active.append(entry)
                try:
                    self.run(st[2], timers)
                except BaseException as e:
                    if not (isinstance(root(e), Expired) and root(e).bid == "user"):
                        raise
                    self.log.append(("user alarm", round(self.now, 3)))
                finally:
                    self.active.remove(entry)
            elif op == "block":
                _, tid, body = st
                seconds, raise_exc, bid = timers[tid][0], timers[tid][1], tid
                entry = [bid, self.now + seconds if seconds > 0 else None]
                for a in self.active:
                    if a[1] is not None and entry[1] is not None:
                        self.close(a[1], entry[1])
                self.active.append(entry)
                self.caught.discard(bid)
                outcome = "done"
                try:
                    try:
                        self.run(body, timers)
                    finally:
                        self.active.remove(entry)
                except BaseException as e:
                    r = root(e)
                    if isinstance(r, Expired) and r.bid == bid:
                        outcome = "timed out"
                        if raise_exc:
                            outcome = "raised timeout" if e is r else "raised wrapped"
                    elif isinstance(r, Expired):
                        self.log.append(("exit", bid, "other", False, round(self.now, 3)))
                        raise
                    else:
                        self.log.append(("exit", bid, "other", None if bid in self.caught else False, round(self.now, 3)))
                        raise
                flag = None if outcome == "done" and bid in self.caught else outcome != "done"
                self.log.append(("exit", bid, outcome, flag, round(self.now, 3)))


def root(e):
    while e.__cause__ is not None:
        e = e.__cause__
    return e


def st_exc(kind):
    if kind == "TimeoutError":
        return TimeoutError("of the body, not of the block")
    if kind == "interrupt":
        return InjectedInterrupt()
    return InjectedError("body fails")


class Real:
    def __init__(self, w, plan):
        from yaocptool.util import timeout

        self.w = w
        self.clock = SimClock(w)
        self.alarm = SimAlarm(w, self.clock)
        self.t0 = self.clock.now
        self.log = []
        self.timers = plan["timers"]
        self.make = lambda i: timeout(seconds=self.timers[i][0], raise_exc=self.timers[i][1], error_message="limit {}".format(i))
        self.obj = [None if plan.get("lazy") else self.make(i) for i in range(len(self.timers))]

        self.stall = plan["stall"][1] if plan.get("stall") else 0.0
        self.active = []  # [what, last moment]

    def now(self):
        return round(self.clock.now - self.t0, 3)

    def not_late(self):
        """(with a stall there is no exact reference)"""
        for what, last in self.active:
            if self.stall and self.clock.now > last + self.stall + 2 * TIE:
                raise Violation("not-interrupted", "{} expired {:.3f} s ago".format(what, self.clock.now - last))

    def run(self, prog):
        w = self.w
        for st in prog:
            op = st[0]
            if op == "work":
                self.alarm.work(st[1], True)
                self.not_late()
            elif op == "native":
                self.alarm.work(st[1], False)
                self.not_late()
            elif op == "jump":
                w.fault("wall clock jump")
                self.clock.jump_wall(st[1])
            elif op == "raise":
                w.fault("body raises " + st[1])
                raise st_exc(st[1])
            elif op == "wrap":
                try:
                    self.run(st[1])
                except Exception as e:
                    w.probe("exception wrapped")
                    raise Wrapped() from e
            elif op in ("handle", "swallow"):
                try:
                    self.run(st[1])
                except Exception as e:
                    w.probe("interruption caught by the work" if isinstance(root(e), (TimeoutError, UserAlarm)) else "exception wrapped")
                    if op == "handle":
                        raise InjectedError("while handling another one")
            elif op == "make":
                if self.obj[st[1]] is None:
                    self.obj[st[1]] = self.make(st[1])
            elif op == "user":
                self.user(st)
            elif op == "block":
                self.block(st)

    def user(self, st):
        def handler(signum, frame):
            raise UserAlarm()

        prev = signal.signal(signal.SIGALRM, handler)
        remaining = signal.getitimer(signal.ITIMER_REAL)[0]
        if remaining:
            raise Violation("timer-left-armed", "{} s left, outside of every limit".format(remaining))
        signal.setitimer(signal.ITIMER_REAL, st[1])
        start = self.clock.now
        entry = ["the caller's alarm", start + st[1]]
        self.active.append(entry)
        try:
            self.run(st[2])
        except BaseException as e:
            if not isinstance(root(e), UserAlarm):
                raise
            if self.clock.now < start + st[1] - TIE:
                raise Violation("too-early", "the caller's alarm after {:.3f} of {} s".format(self.clock.now - start, st[1]))
            self.log.append(("user alarm", self.now()))
        else:
            left = signal.getitimer(signal.ITIMER_REAL)[0]
            want = max(start + st[1] - self.clock.now, 0)
            if abs(left - want) > TIE + self.stall or signal.getsignal(signal.SIGALRM) is not handler:
                raise Violation(
                    "callers-alarm-lost",
                    "the caller's alarm had {:.3f} s left, after the limits it has {:.3f}".format(
                        want, left
                    ),
                )
        finally:
            self.active.remove(entry)
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, prev)

    def block(self, st):
        w = self.w
        _, tid, body = st
        if self.obj[tid] is None:
            self.obj[tid] = self.make(tid)
        t = self.obj[tid]
        raise_exc = self.timers[tid][1]
        handler_before = self.alarm.handler
        armed_before = self.alarm.deadline
        ended = False
        seconds, start = self.timers[tid][0], self.clock.now
        entry = ["limit {}".format(tid), None]
        try:
            try:
                with t:
                    if seconds > 0:
                        entry[1] = self.clock.now + seconds
                        self.active.append(entry)
                    self.run(body)
                    ended = True
            finally:
                if entry[1] is not None:
                    self.active.remove(entry)
            outcome = "done" if ended else "timed out"
            if not ended and self.clock.now < start + seconds - TIE:
                raise Violation("too-early", "limit {} after {:.3f} of {} s".format(tid, self.clock.now - start, seconds))
        except TimeoutError as e:
            if str(e) == "limit {}".format(tid):
                if ended or not raise_exc:
                    raise Violation("raised", "limit {}: {}".format(tid, "the work had finished" if ended else "it is to be silent"))
                if self.clock.now < start + seconds - TIE:
                    raise Violation("too-early", "limit {} after {:.3f} of {} s".format(tid, self.clock.now - start, seconds))
            if str(e) != "limit {}".format(tid) or not t.timedout:
                self.leave(tid, "other", handler_before, armed_before)
                raise
            outcome = "raised timeout"
        except Wrapped:
            if not t.timedout:
                self.leave(tid, "other", handler_before, armed_before)
                raise
            outcome = "raised wrapped"
        except Violation:
            raise
        except BaseException:
            self.leave(tid, "other", handler_before, armed_before)
            raise
        self.leave(tid, outcome, handler_before, armed_before)

    def leave(self, tid, outcome, handler_before, armed_before):
        self.log.append(("exit", tid, outcome, bool(self.obj[tid].timedout), self.now()))
        self.w.event(*self.log[-1])
        if self.alarm.handler is not handler_before and self.alarm.handler != handler_before:
            raise Violation("handler-not-restored", "after limit {}".format(tid))
        if self.stall and armed_before is not None and not any(t >= armed_before - TIE for t in self.alarm.delivered):
            left = self.alarm.deadline
            if left is None or abs(left - armed_before) > self.stall + TIE:
                raise Violation("enclosing-limit-changed", "after limit {}: expires at {} instead of {}".format(tid, left and left - self.t0, armed_before - self.t0))
        if armed_before is None and self.alarm.deadline is not None:
            raise Violation(
                "timer-left-armed",
                "after limit {} ({}) an alarm remains in {:.3f} s".format(
                    tid, outcome, self.alarm.deadline - self.clock.now
                ),
            )


class TimeLimits(Prop):
    quick_runs = 40000
    thorough_runs = 400000
    chunk = 250
    nested = False
    rule = (
        "One run is a random program of limited blocks executed with the real context"
        " manager on a simulated clock/alarm and compared with a reference that has one"
        " absolute deadline per block."
    )
    assumptions = [
        "limits are whole seconds; programs where two deadlines, or a deadline and the"
        " end of a piece of work, coincide within 1 ms are discarded",
        "whether a limit counts as expired when the work itself caught its interruption is not judged",
        "with nested limits the work does not catch an interruption and carry on",
        "with a stall inside of the code of a limit, deadlines may be late by the length of the stall",
        "an alarm of the caller that is already running when a limit is entered raises",
    ]
    components = {
        "real": ["yaocptool.util.timeout"],
        "simulated": ["SIGALRM/ITIMER_REAL", "time.*", "the limited work"],
    }
    faults = [
        "alarm delivered",
        "alarm delivered late",
        "body raises TimeoutError",
        "body raises error",
        "body raises interrupt",
        "wall clock jump",
        "stall inside of a limit",
    ]
    probes = ["exception wrapped", "nested limit expired", "enclosing limit expired first"]
    shrink_lists = ("prog",)

    def gen(self, rng, tier):
        timers = []

        made = []  # created, to be used later
        lazy = rng.random() < 0.5

        def timer():
            timers.append([rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 6, 8, 0.35, 0.8, 2.6]), rng.random() < 0.5])
            return len(timers) - 1

        def dur():
            return rng.randrange(1, rng.choice([9000, 9000, 900])) / 1000 + 0.0001 * rng.randrange(1, 9)

        def seq(depth, n):
            out = []
            for _ in range(rng.randrange(1, n + 1)):
                r = rng.random()
                if r < 0.38:
                    out.append(["work", dur()])
                elif r < 0.5:
                    out.append(["native", dur()])
                elif r < 0.57:
                    out.append(["jump", rng.choice([-86400, -3600, -5, -2, 2, 30, 7200, 1e6])])
                elif r < 0.63 and depth:
                    out.append(["raise", rng.choice(["TimeoutError", "error", "interrupt"])])
                elif r < 0.7 and depth:
                    inner = seq(depth, 2)
                    for _ in range(rng.choice([0, 0, 1, 2])):
                        inner = [["wrap", inner]]
                    out.append(["wrap", inner])
                elif r < 0.76 and depth:
                    out.append(["handle" if self.nested else rng.choice(["handle", "swallow"]), seq(depth, 2)])
                elif r < 0.8 and lazy:
                    made.append(timer())
                    out.append(["make", made[-1]])
                elif depth < (4 if self.nested else 1):
                    if made and rng.random() < 0.6 and depth == 0:
                        tid = made.pop()
                    elif rng.random() < (0.4 if self.nested else 0.2) and timers and depth == 0:
                        tid = rng.randrange(len(timers))  # the same object again
                    else:
                        tid = timer()
                    out.append(["block", tid, seq(depth + 1, 4)])
                else:
                    out.append(["work", dur()])
            return out

        prog = []
        for _ in range(rng.randrange(1, 5)):
            part = seq(0, 3)
            if self.nested and rng.random() < 0.3:
                part = [["user", rng.choice([rng.randrange(1, 20) + 0.5, 0.45, 0.93]), part]]
            prog.append(["try", part])
        stall = None
        if rng.random() < 0.3:
            stall = [rng.randrange(1, rng.choice([20, 120])), rng.choice([0.2, 1.3, 4.7, 9.1])]
            drop = lambda q: [[x[0] if x[0] not in ("handle", "swallow") else "wrap"] + x[1:-1] + [drop(x[-1])] if isinstance(x[-1], list) else x for x in q]
            prog = [[p[0], drop(p[1])] for p in prog]
        return {"timers": timers, "prog": prog, "stall": stall, "lazy": lazy}

    def simplify(self, plan):
        def shrink(seq):
            for i, st in enumerate(seq):
                yield seq[:i] + seq[i + 1 :]
                if isinstance(st[-1], list):
                    yield seq[:i] + st[-1] + seq[i + 1 :]
                    for s in shrink(st[-1]):
                        yield seq[:i] + [st[:-1] + [s]] + seq[i + 1 :]

        for i, st in enumerate(plan["prog"]):
            for s in shrink(st[1]):
                new = copy.deepcopy(plan)
                new["prog"][i][1] = s
                yield new

    def run(self, plan, w):
        stall = plan.get("stall")
        ref = Reference()
        for _, part in [] if stall else plan["prog"]:
            try:
                ref.run(part, plan["timers"])
                ref.log.append(("end", "ok"))
            except BaseException as e:
                if isinstance(e, Discard):
                    raise
                ref.log.append(("end", type(e).__name__))
        real = Real(w, plan)
        real.alarm.install()
        try:
            with real.clock.installed():
                stalls = Stall(w, real.alarm, *stall) if stall else contextlib.nullcontext()
                for _, part in plan["prog"]:
                    try:
                        with stalls:
                            real.run(part)
                        real.log.append(("end", "ok"))
                    except Violation:
                        raise
                    except (InjectedError, InjectedInterrupt, Wrapped, TimeoutError) as e:
                        real.log.append(("end", type(e).__name__))
                    if real.alarm.deadline is not None:
                        raise Violation("timer-left-armed", "after a part of the program")
        finally:
            real.alarm.remove()
        if stall:
            return
        for i, (a, b) in enumerate(zip(ref.log, real.log)):
            if a[0] == "exit" and a[3] is None:
                b = b[:3] + (None,) + b[4:]  # the work caught it: either answer is right
            same = a[:-1] == b[:-1] and (
                a[-1] == b[-1] if isinstance(a[-1], str) else abs(a[-1] - b[-1]) < 0.002
            )
            if not same:
                raise Violation("wrong-outcome", "expected {} got {}".format(a, b))
        w.require(len(ref.log) == len(real.log), "wrong-outcome", "{} {}".format(ref.log, real.log))
        for e in ref.log:
            if e[0] == "exit" and e[2] != "done":
                w.probe("nested limit expired" if self.nested else "limit expired")
            if e[0] == "exit" and e[2] == "other":
                w.probe("exception passed through a limit")


class T01(TimeLimits):
    pid = "T01"
    probes = ["exception wrapped", "limit expired", "interruption caught by the work", "alarm while a limit is entered or left"]


class T02(TimeLimits):
    pid = "T02"
    nested = True
    probes = ["exception wrapped", "nested limit expired", "interruption caught by the work", "alarm while a limit is entered or left"]


PROPS = {"T01": T01, "T02": T02}
