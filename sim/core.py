"""Core of the simulator: seeds, recorded choices, event log, faults, violations."""
import contextlib
import hashlib
import json
import random
import time as _time
import sys


class Violation(BaseException):
    """The property does not hold on this run."""

    def __init__(self, kind, detail=""):
        super().__init__("{}: {}".format(kind, detail))
        self.kind = kind
        self.detail = str(detail)


class Discard(BaseException):
    """The generated case is outside of the domain of the property (counted, not judged)."""


class StepBudget(BaseException):
    """Raised inside of the code under test when it uses more steps than it can need."""


class InjectedError(RuntimeError):
    """A fault: an ordinary error of a collaborator (solver, integrator, sensor, worker)."""


class InjectedInterrupt(KeyboardInterrupt):
    """A fault: the user (or a signal) interrupts the program."""


class SimCrash(BaseException):
    """A fault: the simulated process dies here."""


def derive(*parts):
    h = hashlib.sha256("/".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], "big")


class World:
    """One simulated execution. Everything that is not determined by the plan is
    asked to `choose`, which records the answers so they can be replayed/shrunk."""

    def __init__(self, plan, max_steps=200000):
        self.plan = plan
        self.rng = random.Random(plan.get("seed", 0))
        self.script = plan.get("sched")
        self.choices = []
        self.arity = []
        self.events = []
        self._h = hashlib.sha256()
        self.faults = {}
        self.probes = {}
        self.steps = 0
        self.max_steps = max_steps
        self.sim_time = 0.0
        self.nontrivial = False

    # --- choices
    def choose(self, n, label=""):
        """An integer in [0, n)."""
        if n <= 1:
            return 0
        i = len(self.choices)
        if self.script is not None:
            v = self.script[i] % n if i < len(self.script) else 0
        else:
            v = self.rng.randrange(n)
        self.choices.append(v)
        self.arity.append(n)
        return v

    # --- log
    def event(self, *fields):
        s = "|".join(str(f) for f in fields)
        self._h.update(s.encode())
        self._h.update(b"\n")
        if len(self.events) < 4000:
            self.events.append(s)

    def digest(self):
        return self._h.hexdigest()[:16]

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n
        self.nontrivial = True
        self.event("fault", kind)

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def step(self, n=1):
        self.steps += n
        if self.steps > self.max_steps:
            raise StepBudget("more than {} steps".format(self.max_steps))

    def require(self, cond, kind, detail=""):
        if not cond:
            raise Violation(kind, detail() if callable(detail) else detail)


class SimClock:
    """The only clock that the code under test can read while it is installed."""

    def __init__(self, world, start=1000.0):
        self.w = world
        self.now = float(start)
        self.wall_offset = 1.6e9
        self._saved = None

    def advance(self, d):
        self.now += d
        self.w.sim_time += d

    def jump_wall(self, d):
        self.wall_offset += d

    # functions that replace the ones of `time`
    def time(self):
        return self.now + self.wall_offset

    def monotonic(self):
        return self.now

    def sleep(self, d):
        self.advance(max(d, 0))

    @contextlib.contextmanager
    def installed(self, extra_modules=()):
        names = {
            "time": self.time,
            "monotonic": self.monotonic,
            "perf_counter": self.monotonic,
            "process_time": self.monotonic,
            "sleep": self.sleep,
            "time_ns": lambda: int(self.time() * 1e9),
            "monotonic_ns": lambda: int(self.monotonic() * 1e9),
            "perf_counter_ns": lambda: int(self.monotonic() * 1e9),
        }
        saved = {n: getattr(_time, n) for n in names}
        for n, f in names.items():
            setattr(_time, n, f)
        # `from time import time`, `from timeit import default_timer` in the code
        by_id = {id(v): n for n, v in saved.items()}
        patched = []
        for mod_name in list(sys.modules):
            if not (mod_name.startswith("yaocptool") or mod_name == "timeit"):
                continue
            mod = sys.modules[mod_name]
            for attr, val in list(vars(mod).items()):
                if id(val) in by_id:
                    patched.append((mod, attr, val))
                    setattr(mod, attr, names[by_id[id(val)]])
        try:
            yield self
        finally:
            for mod, attr, val in patched:
                setattr(mod, attr, val)
            for n, f in saved.items():
                setattr(_time, n, f)


class Prop:
    pid = None
    title = ""
    quick_runs = 100
    thorough_runs = 1000
    chunk = 1
    level = "exploration"
    technique = "deterministic simulation with fault injection, seeded search"
    rule = ""
    assumptions = []
    components = {}
    faults = []  # fault kinds that the workload can inject
    probes = []  # rare conditions that should be reached
    shrink_lists = ()  # plan keys with lists that can be shortened
    shrink_ints = ()  # plan keys with integers that can be lowered (key, minimum)
    max_steps = 200000
    hang_s = 150.0

    def gen(self, rng, tier):
        raise NotImplementedError

    def run(self, plan, w):
        raise NotImplementedError

    def simplify(self, plan):
        """Property specific simpler plans."""
        return ()


def plan_key(plan):
    return json.dumps(plan, sort_keys=True)
