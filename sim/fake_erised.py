"""Stand-in for `erised` (worker processes reached through proxies).

Real `erised` starts one process per Proxy, with a copy of the object, and sends it
pickled tasks through a pipe, which it executes in order. Here a worker is an isolated
deep copy of the object with a FIFO of pickled tasks, and the simulated cluster decides
which worker executes its next task whenever the driver blocks (or sends something).
"""
import concurrent.futures
import copy
import io
import multiprocessing as mp
import multiprocessing.reduction  # noqa
import pickle
import types

from sim.core import InjectedError, InjectedInterrupt

CLUSTER = None  # the cluster of the current simulation


class WorkerDied(ConnectionError):
    pass


def _dumps(obj):
    return bytes(mp.reduction.ForkingPickler.dumps(obj))


class SimFuture(concurrent.futures.Future):
    def __init__(self, worker):
        super().__init__()
        self._worker = worker

    def result(self, timeout=None):
        self._worker.cluster.drive(self)
        return super().result(0)

    def exception(self, timeout=None):
        self._worker.cluster.drive(self)
        return super().exception(0)


class Worker:
    def __init__(self, cluster, index, obj):
        self.cluster = cluster
        self.index = index
        self.obj = copy.deepcopy(obj)
        self.label = getattr(obj, "name", str(index))
        self.queue = []
        self.executed = 0
        self.dead = False
        self.crashed_in = None
        self.terminated = 0
        self.terminate_calls = 0
        self.futures = []
        self.outstanding_solves = 0

    def submit(self, kind, path, args, kwargs):
        c = self.cluster
        c.w.step()
        if self.terminated:
            c.used_after_terminate.append(self.label)
            raise RuntimeError("worker {} was terminated".format(self.label))
        fut = SimFuture(self)
        self.futures.append(fut)
        msg = _dumps((kind, path, args, kwargs))
        c.w.event("send", self.label, kind, ".".join(path))
        if self.dead:
            fut.set_exception(WorkerDied("worker {} died".format(self.label)))
            return fut
        is_solve = kind == "call" and path[-1] == "solve"
        if is_solve:
            self.outstanding_solves += 1
            c.on_solve_submitted(self)
        self.queue.append((msg, fut, is_solve))
        # the worker (or others) can make progress before the driver continues
        while c.w.choose(3, "eager") == 1 and c.runnable():
            c.run_one()
        return fut

    def run_next(self):
        c = self.cluster
        msg, fut, is_solve = self.queue.pop(0)
        k = self.executed
        self.executed += 1
        crash = c.crash.get((self.index, k))
        if crash:
            self.crashed_in = pickle.loads(msg)[0]
        if crash == "before":
            c.w.fault("worker crash before task")
            self.die(fut)
            return
        kind, path, args, kwargs = pickle.loads(msg)
        c.w.event("exec", self.label, kind, ".".join(path))
        try:
            target = self.obj
            for name in path[:-1] if kind != "get" else path:
                target = getattr(target, name)
            if kind == "call":
                value = getattr(target, path[-1])(*args, **kwargs)
            elif kind == "set":
                setattr(target, path[-1], args[0])
                value = None
            else:
                value = target
            payload = _dumps(value)
        except Exception as e:
            if is_solve:
                self.outstanding_solves -= 1
            fut.set_exception(e)
            return
        if crash == "after":
            c.w.fault("worker crash before reply")
            self.die(fut)
            return
        if is_solve:
            self.outstanding_solves -= 1
        fut.set_result(pickle.loads(payload))

    def die(self, fut):
        self.dead = True
        self.outstanding_solves = 0
        err = "worker {} died".format(self.label)
        fut.set_exception(WorkerDied(err))
        for _, f, _ in self.queue:
            f.set_exception(WorkerDied(err))
        self.queue = []


class Cluster:
    def __init__(self, world, faults=None):
        faults = faults or {}
        self.w = world
        self.workers = []
        self.spawn_fail = faults.get("spawn_fail")
        self.interrupt_at = faults.get("interrupt_at")
        self.crash = {(a, b): c for a, b, c in faults.get("crash", [])}
        self.stall = {a: b for a, b in faults.get("stall", [])}
        self.waits = 0
        self.spawns = 0
        self.used_after_terminate = []
        self.on_solve_submitted = lambda worker: None
        self.max_parallel = 0

    def spawn(self, obj):
        self.w.step()
        k = self.spawns
        self.spawns += 1
        if self.spawn_fail is not None and k == self.spawn_fail:
            self.w.fault("spawn failure")
            raise OSError(11, "injected: cannot start another process")
        worker = Worker(self, k, obj)
        self.workers.append(worker)
        self.w.event("spawn", worker.label)
        return worker

    def runnable(self):
        ready = [x for x in self.workers if x.queue and not x.terminated]
        self.max_parallel = max(self.max_parallel, len(ready))
        if not ready:
            return []
        awake = [x for x in ready if not self.stall.get(x.index)]
        if not awake:  # everybody stalls: the first to wake up
            return ready
        for x in ready:
            if self.stall.get(x.index):
                self.stall[x.index] -= 1
                self.w.fault("worker stall")
        return awake

    def run_one(self):
        ready = self.runnable()
        worker = ready[self.w.choose(len(ready), "worker")]
        worker.run_next()

    def drive(self, fut):
        """The driver waits for `fut`."""
        k = self.waits
        self.waits += 1
        if self.interrupt_at is not None and k == self.interrupt_at:
            self.w.fault("interrupt while waiting")
            raise InjectedInterrupt()
        while not fut.done():
            self.w.step()
            if not self.runnable():
                raise RuntimeError("deadlock: waiting for a task that nobody will run")
            self.run_one()


class Attr:
    def __init__(self, worker, path):
        object.__setattr__(self, "_worker", worker)
        object.__setattr__(self, "_path", path)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return Attr(self._worker, self._path + (name,))

    def __setattr__(self, name, value):
        self._worker.submit("set", self._path + (name,), (value,), {})

    def __call__(self, *args, **kwargs):
        return self._worker.submit("call", self._path, args, kwargs)

    def retrieve(self):
        return self._worker.submit("get", self._path, (), {})


class Proxy(Attr):
    def __init__(self, obj):
        Attr.__init__(self, CLUSTER.spawn(obj), ())

    def wait_all_futures(self):
        for fut in self._worker.futures:
            if not fut.done():
                self._worker.cluster.drive(fut)

    def terminate(self):
        worker = self._worker
        worker.terminate_calls += 1
        worker.cluster.w.event("terminate", worker.label)
        if worker.dead:
            worker.terminated = True
            worker.cluster.w.fault("terminate of a dead worker fails")
            raise BrokenPipeError("worker {} is dead".format(worker.label))
        worker.terminated = True
        worker.queue = []


def module():
    m = types.ModuleType("erised")
    m.Proxy = Proxy
    p = types.ModuleType("erised.proxy")
    p.Proxy = Proxy
    m.proxy = p
    return m


def install(cluster):
    global CLUSTER
    CLUSTER = cluster
