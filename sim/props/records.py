"""R01: DataSet is a faithful record. R02: saving is all or nothing."""
import builtins
import errno
import io
import math
import os
import pickle
import shutil
import tempfile

from sim.core import InjectedInterrupt, Prop, SimCrash, Violation
from sim.sched import Sched


def columns(dm):
    return [tuple(float(dm[r, c]) for r in range(dm.shape[0])) for c in range(dm.shape[1])]


class Model:
    """Reference: entry -> [size, names, style, [(t, column)]]."""

    def __init__(self):
        self.data = {}

    def copy(self):
        m = Model()
        m.data = {k: [v[0], list(v[1]), v[2], list(v[3])] for k, v in self.data.items()}
        return m

    def create(self, e, size, names, style):
        self.data[e] = [size, names or ["{}_{}".format(e, i) for i in range(size)], style, []]

    def insert(self, e, times, cols):
        self.data[e][3].extend(zip(times, cols))

    def sort(self, entries=None):
        for e in self.data if entries is None else entries:
            self.data[e][3].sort(key=lambda p: p[0])


def compare(w, ds, model, where):
    w.require(
        sorted(ds.data) == sorted(model.data),
        "record-differs",
        "{}: entries {} expected {}".format(where, sorted(ds.data), sorted(model.data)),
    )
    for e, (size, names, style, points) in model.data.items():
        t, v = ds.get_entry(e)
        w.require(ds.get_entry_size(e) == size, "record-differs", "{}: size of {}".format(where, e))
        w.require(list(ds.get_entry_names(e)) == list(names), "record-differs", "{}: names of {}".format(where, e))
        w.require(ds.data[e].plot_style == style, "record-differs", "{}: style of {}".format(where, e))
        got_t = [float(x) for x in t.nz] if t.numel() else []
        w.require(
            got_t == [p[0] for p in points],
            "record-differs",
            lambda: "{}: times of {} are {} expected {}".format(where, e, got_t, [p[0] for p in points]),
        )
        if size:
            cols = columns(v)
            w.require(
                cols == [p[1] for p in points],
                "record-differs",
                lambda: "{}: values of {} are {} expected {}".format(where, e, cols, [p[1] for p in points]),
            )


def to_dm(cols, size):
    from casadi import DM, horzcat

    if not cols:
        return DM.zeros(size, 0)
    return horzcat(*[DM(list(c)) if size else DM.zeros(0, 1) for c in cols])


class R01(Prop):
    pid = "R01"
    quick_runs = 6000
    thorough_runs = 120000
    chunk = 50
    rule = "One run is a random history of operations on up to three records, compared with a list based reference after every operation."
    assumptions = [
        "values are finite; data frames are compared when times are unique within an entry",
        "data of the wrong height is only offered to entries that already have data",
    ]
    components = {"real": ["yaocptool.modelling.DataSet", "SimulationResult", "pickle"], "simulated": ["the sequence of writers and the rejected writes"]}
    faults = ["rejected insert", "rejected extend", "unknown entry", "reload"]
    probes = ["out of order insert", "copy then change", "extend with itself", "dataframe compared", "changed in place"]
    shrink_lists = ("ops",)

    def gen(self, rng, tier):
        ops = []
        sizes = {e: rng.choice([0, 1, 1, 2, 3]) for e in "abcd"}
        for d in range(3):
            for e in "abcd":
                if rng.random() < 0.6:
                    size = sizes[e] if rng.random() < 0.9 else rng.choice([1, 2, 3])
                    ops.append(["create", d, e, size, rng.random() < 0.3, rng.choice(["plot", "step"])])
        val = lambda: rng.choice([0.0, -0.0, 1.0, -1.5]) if rng.random() < 0.2 else round(rng.uniform(-50, 50), 4)
        for _ in range(rng.randrange(1, 25 if tier == "quick" else 60)):
            d, e = rng.randrange(3), rng.choice("abcd")
            r = rng.random()
            if r < 0.5:
                n = rng.choice([0, 1, 1, 1, 2, 3, 5])
                form = rng.choice(["scalar", "int", "list", "dm"])
                if form in ("scalar", "int"):
                    n = 1
                if n == 0:
                    form = "dm"
                ts = [float(rng.randrange(-3, 12)) if rng.random() < 0.5 or form == "int" else round(rng.uniform(-3, 12), 3) for _ in range(n)]
                ops.append(["insert", d, e, form, ts, [[val() for _ in range(3)] for _ in range(n)]])
            elif r < 0.6:
                ops.append(["bad", d, e, rng.choice(["cols", "rows", "entry"]), round(rng.uniform(0, 9), 2)])
            elif r < 0.72:
                ops.append(["extend", d, rng.randrange(3)])
            elif r < 0.82:
                ops.append(["copy", d, rng.randrange(3)])
            elif r < 0.86:
                ops.append(["poke", d, e, rng.choice(["value", "value", "time", "name"]), rng.randrange(30), val()])
            elif r < 0.91:
                ops.append(["sort", d, rng.choice([None, [e]])])
            elif r < 0.95:
                ops.append(["reload", d])
            else:
                ops.append(["frame", d])
        return {"ops": ops, "kind": rng.choice(["DataSet", "SimulationResult"])}

    def run(self, plan, w):
        from casadi import DM
        from yaocptool.modelling import DataSet
        from yaocptool.modelling.simulation_result import SimulationResult

        def new(i):
            m = Model()
            if plan["kind"] == "SimulationResult":
                ds = SimulationResult(2, 1, 1, name="r")
                for e, s in (("x", 2), ("y", 1), ("u", 1)):
                    m.create(e, s, None, "plot")
                return ds, m
            return DataSet("d{}".format(i)), m

        sets = [list(new(i)) for i in range(3)]
        for k, op in enumerate(plan["ops"]):
            w.step()
            w.event(*op[:3])
            ds, m = sets[op[1]]
            name = op[0]
            if name == "create":
                _, _, e, size, named, style = op
                names = ["{}{}".format(e, "xyz"[i]) for i in range(size)] if named else None
                ds.create_entry(e, size, names=names, plot_style=style)
                m.create(e, size, names, style)
            elif name == "insert":
                _, _, e, form, ts, vals = op
                if e not in m.data:
                    continue
                size = m.data[e][0]
                cols = [tuple(v[:size]) for v in vals]
                t = {"scalar": lambda: ts[0], "int": lambda: int(ts[0]), "list": lambda: list(ts), "dm": lambda: DM(ts).T if ts else DM.zeros(1, 0)}[form]()
                if m.data[e][3] and ts and ts[0] < m.data[e][3][-1][0]:
                    w.probe("out of order insert")
                keep = (list(t) if isinstance(t, list) else t)
                v = to_dm(cols, size)
                before = columns(v)
                ds.insert_data(e, t, v)
                m.insert(e, ts, cols)
                w.require(not isinstance(t, list) or keep == t, "argument-changed", "time list")
                w.require(columns(v) == before, "argument-changed", "values")
            elif name == "bad":
                _, _, e, kind, t = op
                if kind == "entry":
                    call = lambda: ds.insert_data("nope", t, DM(1.0))
                    w.fault("unknown entry")
                else:
                    if e not in m.data or not m.data[e][3] or m.data[e][0] == 0:
                        continue
                    size = m.data[e][0]
                    w.fault("rejected insert")
                    if kind == "cols":
                        call = lambda: ds.insert_data(e, [t, t + 1], DM.ones(size, 1))
                    else:
                        call = lambda: ds.insert_data(e, t, DM.ones(size + 1, 1))
                try:
                    call()
                except Exception:
                    pass
                else:
                    raise Violation("bad-data-accepted", "op {} {}".format(k, op))
            elif name == "extend":
                other, om = sets[op[2]]
                clash = [e for e in om.data if e in m.data and m.data[e][0] != om.data[e][0]]
                if clash:
                    w.fault("rejected extend")
                    try:
                        ds.extend(other)
                    except ValueError:
                        pass
                    else:
                        raise Violation("bad-data-accepted", "extend of {} with another size".format(clash))
                else:
                    if other is ds:
                        w.probe("extend with itself")
                    ds.extend(other)
                    src = om.copy()
                    for e, (size, names, style, pts) in src.data.items():
                        if e not in m.data:
                            m.data[e] = [size, names, style, []]
                        m.data[e][3].extend(pts)
                    m.sort()
            elif name == "copy":
                w.probe("copy then change")
                sets[op[2]] = [ds.get_copy(), m.copy()] if op[1] != op[2] else sets[op[2]]
            elif name == "poke":
                # the user changes a record in place
                _, _, e, what, i, v = op
                if e not in m.data or not m.data[e][0]:
                    continue
                entry, mine = ds.data[e], m.data[e]
                if what == "name":
                    mine[1] = list(mine[1])
                    mine[1][i % mine[0]] = entry.names[i % mine[0]] = "new{}".format(k)
                elif mine[3]:
                    c = i % len(mine[3])
                    t, col = mine[3][c]
                    if what == "time":
                        entry.time[c] = v
                        mine[3][c] = (v, col)
                    else:
                        entry.values[i % mine[0], c] = v
                        mine[3][c] = (t, tuple(v if j == i % mine[0] else q for j, q in enumerate(col)))
                w.probe("changed in place")
            elif name == "sort":
                if op[2] is not None and op[2][0] not in m.data:
                    continue
                ds.sort(op[2]) if op[2] is not None else ds.sort()
                m.sort(op[2])
            elif name == "reload":
                w.fault("reload")
                scratch = tempfile.mkdtemp(prefix="verif_r01_")
                try:
                    path = os.path.join(scratch, "sub", "x.p")
                    ds.save(path)
                    with open(path, "rb") as f:
                        sets[op[1]][0] = pickle.load(f)
                finally:
                    shutil.rmtree(scratch)
                w.require(sets[op[1]][0].name == ds.name and type(sets[op[1]][0]) is type(ds), "record-differs", "name or type after reloading")
            elif name == "frame":
                self.frame(w, ds, m)
            for i, (d, mm) in enumerate(sets):
                compare(w, d, mm, "op {} {} record {}".format(k, op[:3], i))

        for ds, m in sets:
            self.frame(w, ds, m)

    def frame(self, w, ds, m):
        entries = {e: v for e, v in m.data.items() if v[0]}
        for v in entries.values():
            ts = [p[0] for p in v[3]]
            if len(set(ts)) != len(ts):
                return
        df = ds.as_dataframe()
        w.probe("dataframe compared")
        times = sorted({p[0] for v in entries.values() for p in v[3]})
        w.require(
            sorted(map(tuple, df.columns)) == sorted((e, n) for e, v in entries.items() for n in v[1]),
            "dataframe-differs",
            "columns {}".format(list(df.columns)),
        )
        w.require(df.index.name == "time", "dataframe-differs", "name of the index {}".format(df.index.name))
        w.require(sorted(float(t) for t in df.index) == times, "dataframe-differs", "index {} {}".format(list(df.index), times))
        for e, (size, names, _, pts) in entries.items():
            for r in range(size):
                col = df[(e, names[r])]
                known = {p[0]: p[1][r] for p in pts}
                for t in times:
                    got = float(col.loc[t])
                    ok = got == known[t] if t in known else math.isnan(got)
                    w.require(ok, "dataframe-differs", "{} {} at {}: {}".format(e, names[r], t, got))


# ------------------------------------------------------------------------ R02
class SimFile:
    """A file whose buffer is lost when its process dies, with faults at each operation."""

    def __init__(self, fs, raw, path):
        self.fs, self.raw, self.path = fs, raw, path
        self.buf = bytearray()
        self.limit = fs.buffer_size
        self.closed = False
        self.name = path

    def write(self, data):
        data = bytes(data)
        self.buf += data
        while len(self.buf) >= self.limit:
            self._push(self.limit)
        return len(data)

    def _push(self, n):
        part = bytes(self.buf[:n])
        kind = self.fs.op("write", self.path)
        if kind in ("enospc", "eio", "torn"):
            keep = len(part) // 2 if kind == "torn" else (len(part) // 3 if kind == "enospc" else 0)
            self.fs.raw_write(self.raw, part[:keep])
            del self.buf[:]
            raise OSError(errno.EIO if kind == "eio" else errno.ENOSPC, "injected", self.path)
        if kind == "crash":
            self.fs.raw_write(self.raw, part[: len(part) // 2])
            raise SimCrash()
        if kind == "interrupt":
            raise InjectedInterrupt()
        self.fs.raw_write(self.raw, part)
        del self.buf[:n]

    def flush(self):
        if self.fs.dead():
            return
        while self.buf:
            self._push(min(len(self.buf), self.limit))

    def close(self):
        if self.closed:
            return
        self.closed = True
        try:
            if not self.fs.dead():
                self.flush()
                self.fs.simple("close", self.path)
        finally:
            self.raw.close()

    def seek(self, *a):
        self.flush()
        return self.raw.seek(*a)

    def tell(self):
        self.flush()
        return self.raw.tell()

    def read(self, *a):
        self.flush()
        return self.raw.read(*a)

    def readline(self, *a):
        self.flush()
        return self.raw.readline(*a)

    def truncate(self, *a):
        self.flush()
        return self.raw.truncate(*a)

    def fileno(self):
        return self.raw.fileno()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class SimDisk:
    """The I/O functions of a few simulated processes, inside of one scratch directory."""

    PATCHED = ("replace", "rename", "link", "remove", "unlink", "makedirs", "mkdir", "fsync", "truncate")

    def __init__(self, w, root, faults, buffer_size):
        self.w, self.root = w, os.path.realpath(root)
        self.sched = Sched(w)
        self.count = {}
        self.plan = {(p, k): kind for p, k, kind in faults}
        self.deadprocs = set()
        self.buffer_size = buffer_size
        self.real = {n: getattr(os, n) for n in self.PATCHED}
        self.real_open = builtins.open
        self.real_getpid = os.getpid
        self.pids = {}
        self.fired = {}
        self.cleanup_failed = False

    def proc(self):
        return self.sched.name()

    def dead(self):
        return self.proc() in self.deadprocs

    def op(self, what, path):
        """Counts an operation; returns the fault that happens here."""
        p = self.proc()
        if p is None:
            return None
        if p in self.deadprocs:
            raise SimCrash()
        self.sched.point(what)
        k = self.count.get(p, 0)
        self.count[p] = k + 1
        self.w.step()
        rel = os.path.relpath(os.path.realpath(str(path)), self.root)
        self.w.event(p, what, rel.split(os.sep)[-1].split(".")[0] if self.inside(path) else "outside")
        kind = self.plan.get((p, k))
        if kind:
            self.fired[p] = self.fired.get(p, 0) + 1
            self.cleanup_failed |= what in ("remove", "unlink")
            self.w.fault("{} at {}".format(kind, what))
            if kind == "crash":
                self.deadprocs.add(p)
        return kind

    def simple(self, what, path):
        kind = self.op(what, path)
        if kind == "crash":
            raise SimCrash()
        if kind == "interrupt":
            raise InjectedInterrupt()
        if kind:
            raise OSError(errno.ENOSPC if kind != "eio" else errno.EIO, "injected", str(path))

    def raw_write(self, raw, data):
        raw.write(data)
        raw.flush()

    def inside(self, path):
        try:
            return os.path.realpath(os.fspath(path)).startswith(self.root)
        except TypeError:
            return False

    def open(self, path, mode="r", *a, **k):
        if self.proc() is None or isinstance(path, int) or not self.inside(path):
            return self.real_open(path, mode, *a, **k)
        self.simple("open", path)
        raw = self.real_open(path, mode, *a, **k)
        if "b" in mode and any(c in mode for c in "wax+"):
            return SimFile(self, raw, path)
        return raw

    def wrap(self, name):
        real = self.real[name]

        def f(*a, **k):
            if self.proc() is not None:
                if self.dead():
                    raise SimCrash()
                self.simple(name, a[0])
            return real(*a, **k)

        return f

    def getpid(self):
        p = self.proc()
        return self.real_getpid() if p is None else self.pids[p]

    def __enter__(self):
        builtins.open = self.open
        io.open = self.open
        os.getpid = self.getpid
        for n in self.PATCHED:
            setattr(os, n, self.wrap(n))
        return self

    def __exit__(self, *a):
        builtins.open = self.real_open
        io.open = self.real_open
        os.getpid = self.real_getpid
        for n in self.PATCHED:
            setattr(os, n, self.real[n])


class R02(Prop):
    pid = "R02"
    quick_runs = 4500
    thorough_runs = 80000
    chunk = 50
    rule = "One run is a set of simulated processes that save different records to the same file (and read it) under one schedule, with I/O faults, crashes and interrupts at chosen operations."
    assumptions = [
        "a crash is the death of the process (its buffers are lost); what was given to the operating system survives; power failures are not claimed",
        "renaming within a directory is atomic, as POSIX requires",
    ]
    components = {"real": ["yaocptool.modelling.DataSet.save", "pickle", "a scratch directory on the real file system"], "simulated": ["open/write/close/replace/... (faults, buffers)", "processes as deterministic threads with their own pids"]}
    faults = ["crash at write", "crash at replace", "enospc at write", "torn at write", "eio at write", "interrupt at write", "crash at open", "enospc at open", "crash at close"]
    probes = ["preemption", "save failed with an error", "process died while saving", "reader saw the old record", "reader saw a new record"]
    shrink_lists = ("faults",)
    shrink_ints = (("rows", 1),)

    def gen(self, rng, tier):
        n = rng.choice([1, 1, 2, 3])
        faults = []
        for p in range(n):
            if rng.random() < 0.75:
                faults.append(["p{}".format(p), rng.randrange(0, 9), rng.choice(["crash", "crash", "enospc", "eio", "torn", "interrupt"])])
            if rng.random() < 0.2:
                faults.append(["p{}".format(p), rng.randrange(4, 20), rng.choice(["crash", "enospc", "eio"])])
        return {
            "writers": n,
            "saves": rng.choice([1, 1, 2]),
            "readers": rng.choice([0, 1, 2]),
            "old": rng.random() < 0.8,
            "subdir": rng.random() < 0.3,
            "faults": faults,
            "rows": rng.choice([1, 20, 300]),
            "buffer": rng.choice([16, 256, 4096, 1 << 20]),
        }

    def run(self, plan, w):
        from casadi import DM
        from yaocptool.modelling import DataSet

        def record(tag):
            ds = DataSet("rec{}".format(tag))
            ds.create_entry("x", 2)
            n = plan["rows"] + tag % 7
            ds.insert_data("x", DM(range(n)).T, DM([[tag + i * 0.5 for i in range(n)], [tag * 2.0] * n]))
            return ds

        def same(a, tag):
            b = record(tag)
            return a.name == b.name and columns(a.data["x"].values) == columns(b.data["x"].values)

        scratch = tempfile.mkdtemp(prefix="verif_r02_")
        disk = None
        try:
            path = os.path.join(scratch, "results", "deep", "r.p") if plan["subdir"] and not plan["old"] else os.path.join(scratch, "r.p")
            versions = set()
            if plan["old"]:
                record(0).save(path)
                versions.add(0)
            disk = SimDisk(w, scratch, plan["faults"], plan["buffer"])
            started, finished, failed = set(versions), [], []
            last_ok = {}

            def writer(i):
                def fn():
                    for s in range(plan["saves"]):
                        tag = 1 + i * 10 + s
                        ds = record(tag)
                        started.add(tag)
                        me = "p{}".format(i)
                        before = disk.fired.get(me, 0)
                        try:
                            ds.save(path)
                        except (OSError, InjectedInterrupt) as e:
                            w.require(
                                disk.fired.get(me, 0) > before,
                                "save-failed-without-fault",
                                repr(e).replace(scratch, ""),
                            )
                            failed.append((i, tag))
                            w.probe("save failed with an error")
                            w.require(
                                columns(ds.data["x"].values) == columns(record(tag).data["x"].values),
                                "record-changed",
                                "by a failed save",
                            )
                        else:
                            finished.append(tag)
                            w.event("saved", tag)

                return fn

            def check_file(where):
                try:
                    with disk.real_open(path, "rb") as f:
                        got = pickle.load(f)
                except FileNotFoundError:
                    w.require(not plan["old"] and not finished, "file-lost", where)
                    return None
                except Exception as e:
                    raise Violation("file-corrupted", "{}: {!r}".format(where, e))
                match = [t for t in started if same(got, t)]
                w.require(match, "file-mixed", "{}: not any of the saved records".format(where))
                return match[0]

            def reader(i):
                def fn():
                    for _ in range(4):
                        disk.sched.point("read")
                        got = check_file("reader")
                        w.event("read", got)
                        w.probe("reader saw the old record" if got == 0 else "reader saw a new record")

                return fn

            with disk:
                for i in range(plan["writers"]):
                    disk.pids["p{}".format(i)] = 5000 + i
                    disk.sched.spawn("p{}".format(i), writer(i))
                for i in range(plan["readers"]):
                    disk.pids["r{}".format(i)] = 6000 + i
                    disk.sched.spawn("r{}".format(i), reader(i))
                disk.sched.run()
            for t in disk.sched.tasks:
                if isinstance(t["error"], SimCrash):
                    w.probe("process died while saving")
                elif t["error"] is not None:
                    raise t["error"]
            got = check_file("at the end")
            w.event("final", got)
            if plan["writers"] == 1 and not disk.deadprocs:
                want = finished[-1] if finished else (0 if plan["old"] else None)
                w.require(got == want, "wrong-version", "file has {} expected {}".format(got, want))
            if finished:
                w.require(got != 0, "save-lost", "a save finished but the file still has the previous record")
            if not disk.deadprocs and not disk.cleanup_failed and os.path.isdir(os.path.dirname(path)):
                left = [f for f in os.listdir(os.path.dirname(path)) if f != os.path.basename(path)]
                w.require(not left, "files-left-behind", lambda: str(len(left)))
        finally:
            shutil.rmtree(scratch)


PROPS = {"R01": R01, "R02": R02}
