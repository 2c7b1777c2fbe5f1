"""S01: symbolic expressions sent between processes."""
import contextlib
import io
import multiprocessing as mp
import multiprocessing.reduction  # noqa
import pickle
import threading

from sim.core import InjectedError, Prop, Violation
from sim.sched import Sched

HOOK = threading.local()


def rebuild(k):
    f = getattr(HOOK, "load", None)
    if f:
        f(k)
    return Marker(k)


class Marker:
    """Part of a message at which the sender (or receiver) can be preempted or fail."""

    def __init__(self, k):
        self.k = k

    def __reduce__(self):
        f = getattr(HOOK, "dump", None)
        if f:
            f(self.k)
        return rebuild, (self.k,)


OPS = ["+", "*", "sin", "/", "if", "cat", "call", "-"]


def build(spec):
    """Symbols and expressions (numbers in the spec refer to earlier ones)."""
    from casadi import MX, SX, Function, if_else, sin, vertcat

    T = SX if spec["type"] == "SX" else MX
    pool = [T.sym("s{}".format(i % spec["names"]), r) for i, r in enumerate(spec["sym"])]
    n = len(pool)
    z = SX.sym("z")
    f = Function("f", [z], [z * z + 0.5])
    for op, a, b in spec["expr"]:
        x, y = pool[a % len(pool)], pool[b % len(pool)]
        if op == "cat":
            e = vertcat(x, y)
        else:
            x, y = x[0], y[-1]
            e = {
                "+": lambda: x + y, "-": lambda: x - 2 * y, "*": lambda: x * y, "sin": lambda: sin(x) + y,
                "/": lambda: x / (2 + y**2), "if": lambda: if_else(x > y, x, sin(y)), "call": lambda: f(x) + y,
            }[op]()
        pool.append(e)
    return pool, n


def values(pool, n):
    """The numbers that the expressions take: an error when symbols got lost or mixed up."""
    from casadi import DM, Function

    point = [DM([0.31 + 0.17 * i + 0.05 * j for j in range(s.numel())]) for i, s in enumerate(pool[:n])]
    f = Function("check", pool[:n], pool[n:] or pool[:1])
    r = f(*point)
    r = r if isinstance(r, tuple) else (r,)
    return [[float(v) for v in e.full().flatten()] for e in r]


class S01(Prop):
    pid = "S01"
    quick_runs = 10000
    thorough_runs = 100000
    chunk = 40
    rule = "One run is a set of messages with expressions, encoded and decoded by several threads (preempted inside of messages), some lost, repeated, reordered, truncated or failing half way; each message received is evaluated and compared with the original."
    faults = ["message repeated", "message lost", "message truncated", "encoding fails half way", "decoding fails half way", "message reordered"]
    probes = ["preemption", "preempted inside of a message", "shared subexpression", "symbols with the same name", "complete message after a broken one"]
    shrink_lists = ("messages", "faults")
    components = {"real": ["yaocptool.util.serializer", "casadi serialisation", "pickle"], "simulated": ["pipe between the processes", "thread scheduling inside of encoding/decoding"]}
    assumptions = ["identity of symbols is only kept within a message, as in the code: different messages are independent"]

    def gen(self, rng, tier):
        messages = []
        for _ in range(rng.randrange(1, 6)):
            kind = rng.choice(["SX", "MX"])
            parts = []
            for t in [kind] if rng.random() < 0.7 else ["SX", "MX"]:
                ns = rng.randrange(1, 4)
                parts.append({
                    "type": t,
                    "names": rng.choice([1, 2, 9]),
                    "sym": [rng.choice([1, 1, 2, 3]) for _ in range(ns)],
                    "expr": [[rng.choice(OPS), rng.randrange(12), rng.randrange(12)] for _ in range(rng.randrange(0, 6))],
                })
            messages.append({
                "parts": parts,
                "layout": rng.choice(["flat", "nested", "reverse", "twice"]),
                "markers": rng.sample(range(12), rng.choice([0, 1, 2, 4])),
                "sender": rng.randrange(3),
                "receivers": [rng.randrange(3) for _ in range(rng.choice([0, 1, 1, 1, 2, 3]))],
            })
        faults = []
        for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
            faults.append([rng.randrange(len(messages)), rng.choice(["dump", "load", "cut"]), rng.randrange(1, 100)])
        return {"messages": messages, "faults": faults, "order": rng.random() < 0.5}

    def run(self, plan, w):
        sink = io.StringIO()
        with contextlib.redirect_stdout(sink):  # the code prints about failures
            self._run(plan, w)

    def _run(self, plan, w):
        import yaocptool.util.serializer  # noqa: it installs itself

        objs, want = [], []
        for k, m in enumerate(plan["messages"]):
            flat, expect = [], []
            for p in m["parts"]:
                pool, n = build(p)
                flat.append((n, pool))
                expect.append(values(pool, n))
                if len(p["expr"]) > 1:
                    w.probe("shared subexpression")
                if p["names"] < len(p["sym"]):
                    w.probe("symbols with the same name")
            objs.append(self.layout(m, flat, k))
            want.append(expect)
        sched = Sched(w)
        broken = {}
        for k, kind, where in plan["faults"]:
            if k < len(objs):
                broken.setdefault(k, {})[kind] = where
        inbox = [[] for _ in range(3)]
        state = {"encoded": {}, "received": 0}

        def hook(k, kind):
            def f(mk):
                sched.point(kind)
                w.probe("preempted inside of a message")
                if kind in broken.get(k, ()) and mk == plan["messages"][k]["markers"][0]:
                    w.fault("encoding fails half way" if kind == "dump" else "decoding fails half way")
                    raise InjectedError(kind)
            return f

        def sender(i):
            for k, m in enumerate(plan["messages"]):
                if m["sender"] != i:
                    continue
                w.event("encode", k)
                HOOK.dump = hook(k, "dump")
                w.step()
                try:
                    data = bytes(mp.reduction.ForkingPickler.dumps(objs[k]))
                except InjectedError:
                    w.event("encode failed", k)
                    continue
                finally:
                    HOOK.dump = None
                state["encoded"][k] = data
                sched.point("send")
                if not m["receivers"]:
                    w.fault("message lost")
                for j, r in enumerate(m["receivers"]):
                    if j:
                        w.fault("message repeated")
                    box = inbox[r]
                    pos = len(box)
                    if plan["order"] and box:
                        pos = w.choose(len(box) + 1, "position")
                        if pos < len(box):
                            w.fault("message reordered")
                    box.insert(pos, (k, data))

        def receive(i, k, data):
            w.step()
            w.event("decode", i, k)
            cut = broken.get(k, {}).get("cut")
            if cut is not None:
                w.fault("message truncated")
                data = data[: max(len(data) * cut // 101, 1)]
            HOOK.load = hook(k, "load")
            try:
                got = pickle.loads(data)
            except InjectedError:
                return "failed"
            except Exception as e:
                if cut is not None:
                    return "failed"
                raise Violation("message-not-decoded", "message {} in receiver {}: {!r}".format(k, i, e))
            finally:
                HOOK.load = None
            if cut is not None:
                raise Violation("truncated-message-accepted", str(k))
            self.judge(w, plan["messages"][k], got, want[k], k)
            state["received"] += 1
            return "ok"

        def receiver(i):
            last = "ok"
            idle = 0
            while idle < 12:
                if not inbox[i]:
                    idle += 1
                    sched.point("idle")
                    continue
                k, data = inbox[i].pop(0)
                r = receive(i, k, data)
                if r == "ok" and last == "failed":
                    w.probe("complete message after a broken one")
                last = r
                sched.point("received")

        for i in range(3):
            sched.spawn("send{}".format(i), lambda i=i: sender(i))
            sched.spawn("recv{}".format(i), lambda i=i: receiver(i))
        sched.run()
        for t in sched.tasks:
            if t["error"] is not None:
                raise t["error"]
        # what was not received yet, in the same process and thread
        for i in range(3):
            for k, data in inbox[i]:
                receive(i, k, data)
        for k, data in state["encoded"].items():
            if "cut" not in broken.get(k, ()) and "load" not in broken.get(k, ()):
                receive("end", k, data)
        w.event("received", state["received"])

    def layout(self, m, flat, k):
        items = []
        for n, pool in flat:
            items.append(n)
            items.extend(pool)
        marks = {p % (len(items) + 1) for p in m["markers"][1:]}
        if m["markers"]:
            items.insert(len(items) // 2, Marker(m["markers"][0]))
        for p in sorted(marks, reverse=True):
            items.insert(p, Marker(100 + p))
        if m["layout"] == "reverse":
            return ("reverse", items[::-1])
        if m["layout"] == "nested":
            h = len(items) // 2
            return {"a": items[:h], "b": ({"c": tuple(items[h:])},)}
        if m["layout"] == "twice":
            return [items, items]
        return items

    def judge(self, w, m, got, want, k):
        if m["layout"] == "reverse":
            lists = [got[1][::-1]]
        elif m["layout"] == "nested":
            lists = [list(got["a"]) + list(got["b"][0]["c"])]
        elif m["layout"] == "twice":
            lists = got
        else:
            lists = [got]
        for items in lists:
            items = [v for v in items if not isinstance(v, Marker)]
            out = []
            try:
                while items:
                    n = items[0]
                    j = next((j for j in range(1, len(items)) if isinstance(items[j], int)), len(items))
                    out.append(values(items[1:j], n))
                    items = items[j:]
            except Exception as e:
                raise Violation("symbols-lost", "message {}: {!r}".format(k, e))
            if out != want:
                raise Violation("wrong-expression", "message {}: {} expected {}".format(k, out, want))


PROPS = {"S01": S01}
