"""Executes batches of runs in forked children, minimises, writes replays and evidence."""
import importlib
import json
import os
import pickle
import random
import select
import signal
import sys
import time
import traceback

from sim import core
from sim.core import Discard, StepBudget, Violation, World, derive

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAYS = os.path.join(HERE, "out", "replays")
EVIDENCE = os.path.join(HERE, "evidence")
KNOWN = os.path.join(HERE, "KNOWN_FINDINGS.txt")

MODULES = {
    "D": "sim.props.distributed",
    "S": "sim.props.transport",
    "T": "sim.props.deadlines",
    "M": "sim.props.mpc",
    "P": "sim.props.plant",
    "E": "sim.props.estimators",
    "R": "sim.props.records",
    "L": "sim.props.solver",
    "A": "sim.props.auglag",
    "O": "sim.props.optimization",
    "Q": "sim.props.building",
    "N": "sim.props.networks",
}

real_time = time.time
real_monotonic = time.monotonic


def get_prop(pid):
    mod = importlib.import_module(MODULES[pid[0]])
    return mod.PROPS[pid]()


def blames_repo(exc):
    from sim import env

    tb = exc.__traceback__
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if os.path.realpath(f).startswith(os.path.realpath(env.REPO) + os.sep):
            return True
        tb = tb.tb_next
    cause = exc.__cause__ or exc.__context__
    return blames_repo(cause) if cause is not None else False


def execute(prop, plan):
    """One run: a pure function of the plan and of the code in /repo."""
    w = World(plan, max_steps=prop.max_steps)
    from sim import env

    env.reseed(plan.get("seed", 0))
    out = {"status": "ok", "kind": "", "detail": ""}
    try:
        prop.run(plan, w)
    except Violation as v:
        out.update(status="violation", kind=v.kind, detail=v.detail)
    except Discard as d:
        out.update(status="discard", detail=str(d))
    except StepBudget as e:
        out.update(status="violation", kind="no-progress", detail=str(e))
    except (Exception, KeyboardInterrupt, core.SimCrash) as e:
        text = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
        if blames_repo(e):
            out.update(
                status="violation",
                kind="unexpected-{}".format(type(e).__name__),
                detail=text,
            )
        elif isinstance(e, (MemoryError, OSError, ImportError)):
            out.update(status="harness", kind=type(e).__name__, detail=text)
        else:
            # on a correct tree the judges can use everything that they are given
            out.update(
                status="violation",
                kind="unusable-answer-{}".format(type(e).__name__),
                detail=text,
            )
    w.event("end", out["status"], out["kind"])
    out.update(
        digest=w.digest(),
        faults=w.faults,
        probes=w.probes,
        steps=w.steps,
        sim_time=w.sim_time,
        nontrivial=bool(w.nontrivial or w.faults),
        choices=w.choices,
        n_choices=len(w.choices),
        events=w.events,
    )
    return out


def make_plan(prop, base_seed, idx, tier):
    seed = derive(base_seed, prop.pid, idx)
    plan = prop.gen(random.Random(seed), tier)
    plan["seed"] = seed % (2**31)
    return json.loads(json.dumps(plan))


# --------------------------------------------------------------------- children
def _child(fd, fn):
    devnull = os.open(os.devnull, os.O_WRONLY)
    keep = os.environ.get("VERIF_DEBUG")
    if not keep:
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
    try:
        with os.fdopen(fd, "wb") as f:
            for item in fn():
                pickle.dump(item, f)
                f.flush()
    except BaseException:
        if keep:
            traceback.print_exc()
        os._exit(3)
    os._exit(0)


class Pool:
    """Runs jobs (generator functions) in forked children, a few at a time."""

    def __init__(self, workers):
        self.workers = workers

    def run(self, jobs):
        """jobs: iterable of (key, fn, limit_s). Yields (key, items, how) in the order
        of completion, how in ok | died | hang."""
        jobs = iter(jobs)
        active = {}
        exhausted = False
        while True:
            while not exhausted and len(active) < self.workers:
                try:
                    key, fn, limit = next(jobs)
                except StopIteration:
                    exhausted = True
                    break
                r, wfd = os.pipe()
                sys.stdout.flush()
                sys.stderr.flush()
                pid = os.fork()
                if pid == 0:
                    os.close(r)
                    for info in active.values():
                        os.close(info["fd"])
                    signal.signal(signal.SIGINT, signal.SIG_DFL)
                    _child(wfd, fn)
                os.close(wfd)
                active[pid] = {
                    "fd": r,
                    "key": key,
                    "buf": bytearray(),
                    "deadline": real_monotonic() + limit,
                }
            if not active:
                return
            fds = {info["fd"]: pid for pid, info in active.items()}
            ready, _, _ = select.select(list(fds), [], [], 1.0)
            for fd in ready:
                info = active[fds[fd]]
                data = os.read(fd, 1 << 20)
                if data:
                    info["buf"] += data
                else:
                    pid = fds[fd]
                    os.close(fd)
                    _, status = os.waitpid(pid, 0)
                    del active[pid]
                    how = "ok" if status == 0 else "died"
                    yield info["key"], _unpickle(info["buf"]), how
            now = real_monotonic()
            for pid, info in list(active.items()):
                if now > info["deadline"]:
                    os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                    os.close(info["fd"])
                    del active[pid]
                    yield info["key"], _unpickle(info["buf"]), "hang"


def _unpickle(buf):
    import io

    items = []
    f = io.BytesIO(bytes(buf))
    while True:
        try:
            items.append(pickle.load(f))
        except Exception:
            return items


def run_plan_isolated(prop, plan):
    """Executes one plan in a fresh child. A reproducible death/hang is a violation."""

    def fn():
        yield execute(prop, plan)

    for attempt in range(2):
        for _, items, how in Pool(1).run([(0, fn, prop.hang_s)]):
            if items:
                return items[0]
            last = how
    kind = "process-died" if last == "died" else "hang"
    return {
        "status": "violation",
        "kind": kind,
        "detail": "the process running the simulation {} (twice)".format(
            "died" if last == "died" else "did not finish in {} s".format(prop.hang_s)
        ),
        "digest": kind,
        "faults": {},
        "probes": {},
        "steps": 0,
        "sim_time": 0.0,
        "nontrivial": True,
        "choices": [],
        "n_choices": 0,
        "events": [],
    }


# --------------------------------------------------------------------- minimise
def _variants(prop, plan):
    for key in ("sched",) + tuple(prop.shrink_lists):
        lst = plan.get(key)
        if not isinstance(lst, list) or not lst:
            continue
        n = len(lst)
        size = n
        while size >= 1:
            for start in range(0, n, size):
                cand = lst[:start] + lst[start + size :]
                if key == "sched":
                    # a shorter schedule means default choices afterwards
                    cand = lst[:start] + [0] * len(lst[start : start + size]) + lst[
                        start + size :
                    ]
                    while cand and cand[-1] == 0:
                        cand.pop()
                    if cand == lst:
                        continue
                new = dict(plan)
                new[key] = cand
                yield new
            size //= 2
    for key, minimum in prop.shrink_ints:
        v = plan.get(key)
        if isinstance(v, int) and v > minimum:
            for nv in sorted({minimum, (v + minimum) // 2, v - 1}):
                new = dict(plan)
                new[key] = nv
                yield new
    for new in prop.simplify(json.loads(json.dumps(plan))):
        yield new


def minimise(prop, plan, first, budget=60, budget_s=60.0):
    """Greedy shrinking while the same kind of violation remains."""
    kind = first["kind"]
    best, best_out = plan, first
    if first["choices"] and kind not in ("hang", "process-died"):
        cand = dict(plan)
        cand["sched"] = list(first["choices"])
        out = run_plan_isolated(prop, cand)
        if out["status"] == "violation" and out["kind"] == kind:
            best, best_out = cand, out
    if kind == "hang":
        return best, best_out, 0
    used = 0
    end = real_monotonic() + budget_s
    improved = True
    seen = {core.plan_key(best)}
    while improved and used < budget and real_monotonic() < end:
        improved = False
        for cand in _variants(prop, best):
            k = core.plan_key(cand)
            if k in seen:
                continue
            seen.add(k)
            if used >= budget or real_monotonic() > end:
                break
            used += 1
            out = run_plan_isolated(prop, cand)
            if out["status"] == "violation" and out["kind"] == kind:
                best, best_out = cand, out
                improved = True
                break
    return best, best_out, used


# --------------------------------------------------------------------- findings
def known_findings(pid):
    """Lines `known: property=<id> sig=<kind>:<text in detail> <what fails>`."""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            if line.startswith("known: property={} ".format(pid)):
                rest = line.split(" ", 2)[2].strip()
                sig, _, what = rest.partition(" ")
                out.append((sig.replace("sig=", "", 1), what))
    return out


def signature_matches(sig, out):
    kind, _, text = sig.partition(":")
    return out["kind"] == kind and text.replace("_", " ") in out["detail"].replace(
        "_", " "
    )


# --------------------------------------------------------------------- check
def write_replay(prop, plan, out, seed, tier, idx):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, "{}-{}-{}.json".format(prop.pid, seed, idx))
    with open(path, "w") as f:
        json.dump(
            {
                "property": prop.pid,
                "base_seed": seed,
                "run": idx,
                "tier": tier,
                "plan": plan,
                "kind": out["kind"],
                "detail": out["detail"],
                "digest": out["digest"],
                "faults": out["faults"],
                "trace": out["events"][-400:],
            },
            f,
            indent=1,
        )
    return path


def batch(prop, seed, tier, n_runs, workers, stop_on_violation=True):
    """Yields (idx, plan, out) for every run, in order of completion."""
    chunks = [
        list(range(i, min(i + prop.chunk, n_runs))) for i in range(0, n_runs, prop.chunk)
    ]

    def job(chunk):
        def fn():
            for idx in chunk:
                plan = make_plan(prop, seed, idx, tier)
                out = execute(prop, plan)
                if out["status"] == "ok" and idx % 50:
                    out["events"] = []
                out["idx"] = idx
                yield out

        return fn

    redo = []
    for chunk, items, how in Pool(workers).run(
        (c, job(c), prop.hang_s) for c in chunks
    ):
        done = set()
        for out in items:
            done.add(out["idx"])
            yield out["idx"], out
        if how != "ok":
            redo.extend(i for i in chunk if i not in done)
    for idx in redo:
        plan = make_plan(prop, seed, idx, tier)
        out = run_plan_isolated(prop, plan)
        out["redone"] = True
        yield idx, out


def check(pid, tier, seed, workers=None, runs=None, verbose=False):
    from sim import env

    t0 = real_monotonic()
    env.load()
    prop = get_prop(pid)
    n_runs = runs or (prop.quick_runs if tier == "quick" else prop.thorough_runs)
    workers = workers or int(os.environ.get("VERIF_WORKERS", os.cpu_count() or 8))
    print("check {} tier={} seed={} runs={} workers={}".format(pid, tier, seed, n_runs, workers))
    sys.stdout.flush()
    stats = {
        "runs": 0,
        "ok": 0,
        "discard": 0,
        "violations": 0,
        "redone": 0,
        "steps": 0,
        "choices": 0,
        "sim_time": 0.0,
    }
    faults, probes, digests, nontrivial = {}, {}, set(), set()
    bad, harness, samples, known_hit = [], [], [], {}
    known = known_findings(pid)
    for idx, out in batch(prop, seed, tier, n_runs, workers):
        stats["runs"] += 1
        stats["redone"] += bool(out.get("redone"))
        stats["steps"] += out["steps"]
        stats["choices"] += out["n_choices"]
        stats["sim_time"] += out["sim_time"]
        for k, v in out["faults"].items():
            faults[k] = faults.get(k, 0) + v
        for k, v in out["probes"].items():
            probes[k] = probes.get(k, 0) + v
        if out["status"] == "ok":
            stats["ok"] += 1
            digests.add(out["digest"])
            if out["nontrivial"]:
                nontrivial.add(out["digest"])
        elif out["status"] == "discard":
            stats["discard"] += 1
        elif out["status"] == "harness":
            harness.append((idx, out))
        else:
            hit = [k for k in known if signature_matches(k[0], out)]
            if hit:
                known_hit.setdefault(hit[0], idx)
            else:
                bad.append((idx, out))
                if len(bad) >= 3:
                    break
        if len(harness) >= 5:
            break
        if out["status"] == "ok" and len(samples) < 2 and out["events"]:
            samples.append((idx, out["events"][:25]))
    for (sig, what), idx in known_hit.items():
        print("KNOWN-FINDING: property={} {} (run {})".format(pid, what, idx))

    replay = None
    if bad:
        bad.sort(key=lambda b: b[0])
        idx, out = bad[0]
        plan = make_plan(prop, seed, idx, tier)
        used = 0
        if os.environ.get("VERIF_MINIMISE", "1") != "0":
            plan, out, used = minimise(prop, plan, out)
        replay = write_replay(prop, plan, out, seed, tier, idx)
        again = run_plan_isolated(prop, plan)
        same = again["status"] == "violation" and again["kind"] == out["kind"]
        print("run {} violates {}: {}\n{}".format(idx, pid, out["kind"], out["detail"]))
        print(
            "minimised with {} executions; replaying the file reproduces it: {}".format(
                used, same
            )
        )
    wall = real_monotonic() - t0
    write_evidence(
        prop, tier, seed, stats, faults, probes, digests, nontrivial, samples, wall,
        len(bad), workers,
    )
    print(
        "{} runs ({} discarded), {} distinct, faults={} probes={} wall={:.1f}s".format(
            stats["runs"], stats["discard"], len(digests), faults, probes, wall
        )
    )
    if bad:
        print("VIOLATION property={} replay={}".format(pid, replay))
        return 1
    if harness:
        idx, out = harness[0]
        print("HARNESS ERROR in run {}: {}".format(idx, out["detail"]))
        return 2
    if stats["ok"] == 0:
        print("HARNESS ERROR: no run was judged")
        return 2
    return 0


def write_evidence(
    prop, tier, seed, stats, faults, probes, digests, nontrivial, samples, wall, nviol,
    workers,
):
    os.makedirs(EVIDENCE, exist_ok=True)
    cov = {
        "evaluations": stats["runs"],
        "distinct_nontrivial": len(nontrivial),
        "rule": prop.rule
        + " A run is non-trivial when a fault fired or the scheduler had a real choice;"
        " two runs are distinct when the hashes of their event logs differ.",
        "samples": [
            {"run": i, "plan": make_plan(prop, seed, i, tier), "first_events": ev}
            for i, ev in samples
        ],
        "distinct_event_logs": len(digests),
        "runs_judged_ok": stats["ok"],
        "runs_discarded": stats["discard"],
        "runs_redone_isolated": stats["redone"],
        "runs_per_hour": round(stats["runs"] / max(wall, 1e-6) * 3600),
        "scheduler_choices": stats["choices"],
        "simulator_steps": stats["steps"],
        "simulated_time_s": round(stats["sim_time"], 3),
        "faults_injected": dict(sorted(faults.items())),
        "fault_kinds_never_fired": [k for k in prop.faults if k not in faults],
        "probes": {**{p: 0 for p in prop.probes}, **dict(sorted(probes.items()))},
        "components": prop.components,
        "workers": workers,
    }
    if not cov["samples"]:
        cov["samples"] = [{"run": 0, "plan": make_plan(prop, seed, 0, tier)}]
    doc = {
        "property": prop.pid,
        "tier": tier,
        "seed": seed,
        "level": prop.level,
        "coverage": cov,
        "assumptions": list(prop.assumptions),
        "wall_s": round(wall, 3),
        "violations": nviol,
    }
    with open(os.path.join(EVIDENCE, prop.pid + ".json"), "w") as f:
        json.dump(doc, f, indent=1)


def replay(path):
    from sim import env

    env.load()
    doc = json.load(open(path))
    prop = get_prop(doc["property"])
    out = run_plan_isolated(prop, doc["plan"])
    for e in out["events"][-60:]:
        print("  ", e)
    print(out["status"], out["kind"], out["detail"])
    if out["status"] == "violation":
        print("same kind: {}; same event log: {}".format(out["kind"] == doc["kind"], out["digest"] == doc["digest"]))
        print("VIOLATION property={} replay={}".format(doc["property"], path))
        return 1
    return 0 if out["status"] in ("ok", "discard") else 2


def digests(pid, tier, seed, runs, workers):
    """The event log hash of every run, to prove determinism."""
    from sim import env

    env.load()
    prop = get_prop(pid)
    res = {}
    for idx, out in batch(prop, seed, tier, runs, workers):
        res[idx] = [out["status"], out["kind"], out["digest"]]
    return res


def determinism(pids, runs):
    """The same runs in other batches, processes and hash seeds must give the same event logs."""
    import subprocess

    pids = pids or sorted(p for m in MODULES.values() for p in importlib.import_module(m).PROPS)
    bad = 0
    for pid in pids:
        seen = []
        for hashseed, workers in (("0", 8), ("0", 3), ("77", 8)):
            e = dict(os.environ, VERIF_HASHSEED=hashseed)
            e.pop("PYTHONHASHSEED", None)
            seen.append(
                subprocess.run(
                    [sys.executable, "-B", "-m", "sim", "digests", pid, "--runs", str(runs), "--workers", str(workers)],
                    env=e, cwd=HERE, capture_output=True, text=True,
                ).stdout
            )
        same = len(set(seen)) == 1 and seen[0].strip() != ""
        bad += not same
        print(pid, "deterministic" if same else "DIFFERS", flush=True)
    return 1 if bad else 0
