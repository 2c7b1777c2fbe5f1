"""D01-D07: networks of problems solved by the distributed augmented Lagrangian."""
import copy

from sim import dalsim
from sim.core import InjectedError, InjectedInterrupt, Prop, Violation
from sim.dalsim import Simulation, maxabs
from sim.fake_erised import WorkerDied

REAL = [
    "yaocptool.methods.network.*",
    "yaocptool.methods.augmented_lagrangian",
    "yaocptool.methods.classic.*",
    "yaocptool.modelling.*",
    "casadi/ipopt",
]
SIM = [
    "worker processes of erised: isolated copies with pickled messages, scheduled by the simulator",
    "failing solvers: the real solver's answer replaced by garbage and success=False, or an error",
]


def close(a, b, tol):
    return abs(a - b) <= tol * (1 + abs(b))


class DProp(Prop):
    chunk = 2
    max_steps = 100000
    components = {"real": REAL, "simulated": SIM}
    shrink_lists = ("fails",)
    assumptions = [
        "NLP solutions are compared with tolerances well above the tolerance of ipopt",
        "erised delivers the tasks of one worker in order and exactly once, as documented for it",
    ]
    max_nodes = 4
    rules = ("constant", "bounded-increase", "primal-dual", "primal")
    classes = ("dal", "dal", "dal", "bipartite")
    fail_p = 0.5
    outer = (2, 5)
    inner = (1, 1, 1, 2, 3)
    choice = ("cyclic", "cyclic", "sample", "choices")
    distributed = (False, True)
    kinds = ("fail",)
    inter_p = 0.25

    def gen(self, rng, tier):
        cls = rng.choice(self.classes)
        inter = cls == "dal" and rng.random() < self.inter_p
        net = dalsim.gen_network(
            rng, self.max_nodes if tier == "quick" or inter else self.max_nodes + 1, multi=not inter
        )
        plan = {
            "net": net,
            "cls": cls,
            "inter": inter,
            "fe": rng.choice([2, 3, 4]) if rng.random() < 0.93 else rng.choice([1, 5, 11]),
            "deg": rng.choice([2, 2, 3]) if rng.random() < 0.95 else 4,
            "distributed": rng.choice(self.distributed),
            "opts": {
                "max_iter_outer": rng.randrange(self.outer[0], self.outer[1] + 1),
                "max_iter_inner": rng.choice(self.inner),
                "abs_tol": rng.choice([1e-6, 1e-4, 1e-2, 0.1]),
                "block_choice_method": rng.choice(self.choice),
            },
            "al": {
                "mu_0": rng.choice([0.5, 1.0, 2.0]),
                "beta": rng.choice([1.5, 2.0, 4.0]),
                "mu_max": rng.choice([4.0, 50.0]),
                "mu_update_rule": rng.choice(self.rules),
                "only_update_if_improve": rng.random() < 0.3,
            },
        }
        if rng.random() < 0.3:
            plan["opts"]["max_iter_inner_first"] = rng.choice([1, 2, 3])
        if rng.random() < 0.2:
            plan["opts"]["inner_loop_tol"] = rng.choice([0.0, 1e-2, 1.0])
        fails = []
        if rng.random() < self.fail_p:
            for _ in range(rng.randrange(1, 6)):
                fails.append(["n{}".format(rng.randrange(net["n"])), rng.randrange(0, 6), rng.choice(self.kinds)])
        plan["fails"] = fails
        return plan

    def simplify(self, plan):
        for k in range(1, plan["opts"]["max_iter_outer"]):
            new = copy.deepcopy(plan)
            new["opts"]["max_iter_outer"] = k
            yield new
        if plan["distributed"]:
            new = copy.deepcopy(plan)
            new["distributed"] = False
            yield new
        if plan["inter"]:
            new = copy.deepcopy(plan)
            new["inter"] = False
            yield new
        n = plan["net"]["n"]
        if n > 2:
            drop = n - 1
            new = copy.deepcopy(plan)
            keep = [i for i, e in enumerate(new["net"]["edges"]) if drop not in e[:2]]
            new["net"]["n"] = n - 1
            new["net"]["b"] = [new["net"]["b"][i] for i in keep]
            new["net"]["edges"] = [new["net"]["edges"][i] for i in keep]
            new["fails"] = [f for f in new["fails"] if f[0] != "n{}".format(drop)]
            if len({x for e in new["net"]["edges"] for x in e[:2]}) == n - 1:
                yield new

    def simulate(self, plan, w, distributed=None, cluster_faults=None, faults=None, setup=None):
        sim = Simulation(
            w,
            plan,
            plan["distributed"] if distributed is None else distributed,
            faults=plan["fails"] if faults is None else faults,
            cluster_faults=cluster_faults if cluster_faults is not None else {"stall": plan.get("stall", [])},
            cls=plan["cls"],
        )
        if setup:
            setup(sim)
        sim.run()
        if sim.cluster.max_parallel > 1:
            w.probe("several workers busy at once")
            w.nontrivial = True
        return sim

    def allowed(self, sim, w):
        """No node ever had a complete set of results: an explicit error is right."""
        if sim.error is None:
            return False
        ok = {s["node"] for s in sim.rec.solves if s["success"]}
        if isinstance(sim.error, ValueError) and "No error given" in str(sim.error):
            w.require(
                len(ok) < len(sim.node) or self.never_complete(sim),
                "unexpected-ValueError",
                "every node has a solution, but no result is given",
            )
            w.probe("explicit error without a result")
            return True
        raise sim.error

    def never_complete(self, sim):
        return False


class D01(DProp):
    pid = "D01"
    quick_runs = 360
    thorough_runs = 6000
    rules = ("constant", "bounded-increase", "primal-dual")
    rule = "One run solves the same random network twice, serially and with simulated workers under a random schedule, with the same solver failures, and compares everything that is returned."
    faults = ["solver fails", "worker stall"]
    probes = ["several workers busy at once", "stopped early"]

    def gen(self, rng, tier):
        plan = super().gen(rng, tier)
        plan["stall"] = [[rng.randrange(5), rng.randrange(1, 12)] for _ in range(rng.choice([0, 1, 2]))]
        return plan

    def run(self, plan, w):
        a = self.simulate(plan, w, distributed=False)
        b = self.simulate(plan, w, distributed=True)
        w.require(not a.cluster.workers, "worker-in-serial", "serial solving started a process")
        if a.error is not None or b.error is not None:
            w.require(
                type(a.error) is type(b.error),
                "serial-distributed-differ",
                "serial: {!r} distributed: {!r}".format(a.error, b.error),
            )
            self.allowed(a, w)
            return
        ra, rb = a.result, b.result
        w.require(
            dict(ra.number_of_iterations) == dict(rb.number_of_iterations),
            "serial-distributed-differ",
            "iterations {} {}".format(ra.number_of_iterations, rb.number_of_iterations),
        )
        if ra.number_of_iterations["outer"] < plan["opts"]["max_iter_outer"] - 1:
            w.probe("stopped early")
        w.require(
            close(float(ra.objective), float(rb.objective), 1e-5),
            "serial-distributed-differ",
            "objective {} {}".format(ra.objective, rb.objective),
        )
        va, vb = (sorted(float(v) for v in r.constraint_violations.values.flatten() if v == v) for r in (ra, rb))
        w.require(
            len(va) == len(vb) and all(close(x, y, 1e-5) for x, y in zip(va, vb)),
            "serial-distributed-differ",
            "violations {} {}".format(va, vb),
        )
        for name, nd in a.node.items():
            x, y = ra.results[nd], rb.results[b.node[name]]
            for attr in ("x_data", "y_data", "u_data"):
                for e, (p, q) in enumerate(zip(getattr(x, attr)["values"], getattr(y, attr)["values"])):
                    for i, (u, v) in enumerate(zip(p, q)):
                        d = max([abs(float(s)) for s in (u - v).full().flatten()], default=0)
                        w.require(
                            d < 1e-5,
                            "serial-distributed-differ",
                            "{} of {} element {} point {} by {:.2e}".format(attr, name, e, i, d),
                        )
            w.require(
                len(x.p.nz) == len(y.p.nz) and all(close(float(s), float(t), 1e-6) for s, t in zip(x.p.nz, y.p.nz)),
                "serial-distributed-differ",
                "penalties of {}: {} {}".format(name, x.p, y.p),
            )


class Tracker:
    """Reference of the state of the algorithm, fed with the solves of the nodes."""

    def __init__(self, sim):
        self.sim = sim
        self.last = {}  # node -> the last successful solve

    def feed(self, s):
        if s["success"]:
            self.last[s["node"]] = s

    def complete(self):
        return len(self.last) == len(self.sim.node)

    def traj(self, node, kind, name):
        return self.last[node]["traj"][kind][name]

    def mismatch(self, conn):
        a, y, b, u = conn
        ty = self.traj(a.name, "y", y)
        tu = self.traj(b.name, "u", u)
        return [[p - q for p, q in zip(eu, ey)] for eu, ey in zip(tu, ty)]


class D02(DProp):
    pid = "D02"
    quick_runs = 360
    thorough_runs = 8000
    outer = (2, 8)
    fail_p = 0.6
    rule = "One run solves a random network with solver failures and compares the claim of convergence and the reported violations/objective with the trajectories that are returned."
    faults = ["solver fails"]
    probes = ["stopped early", "stopped early after failures", "explicit error without a result"]

    def gen(self, rng, tier):
        plan = super().gen(rng, tier)
        plan["opts"]["abs_tol"] = rng.choice([1e-4, 1e-2, 0.05, 0.3, 10.0])
        return plan

    def run(self, plan, w):
        sim = self.simulate(plan, w)
        if self.allowed(sim, w):
            return
        r = sim.result
        tol = plan["opts"]["abs_tol"]
        half = 0.5 if plan["cls"] == "bipartite" else 1.0
        outer = r.number_of_iterations["outer"]
        stopped = outer < plan["opts"]["max_iter_outer"] - 1
        names = {nd.name for nd in r.results}
        if stopped:
            w.probe("stopped early")
            if w.faults.get("solver fails"):
                w.probe("stopped early after failures")
            w.require(names == set(sim.node), "early-stop-incomplete", "only {} have a solution".format(sorted(names)))
        mism = {}
        for c in sim.conns:
            if c[0] in r.results and c[2] in r.results:
                mism[c] = maxabs(sim.mismatch(r.results, c))
        if stopped:
            worst = max(mism.values()) * half
            w.require(
                worst < tol * (1 + 1e-6) + 1e-8,
                "false-convergence",
                "stopped with tolerance {} but the mismatch is {}".format(tol, worst),
            )
        # what is reported: one number per relaxed equation, both ends of each connection
        reported = sorted(float(v) for v in r.constraint_violations.values.flatten() if v == v)
        if names == set(sim.node):
            real = sorted([m * half for m in mism.values()] * 2)
            w.require(
                len(real) == len(reported) and all(abs(x - y) < 1e-7 + 1e-5 * abs(y) for x, y in zip(reported, real)),
                "violations-misreported",
                "reported {} real {}".format(reported, real),
            )
        total = sum(float(x.objective_opt_problem) for x in r.results.values())
        w.require(close(float(r.objective), total, 1e-9), "objective-misreported", "{} {}".format(r.objective, total))
        for nd, x in r.results.items():
            w.require(bool(x.success), "failed-result-returned", nd.name)
        moments = None
        for nd, x in r.results.items():
            # connected variables are compared at the same moments
            for data in (x.u_data, x.y_data):
                if not data["values"] or not data["values"][0] or not data["values"][0][0].numel():
                    continue
                t = [float(v) for el in data["time"] for v in el]
                w.require([len(el) for el in data["time"]] == [len(el) for el in data["values"]], "times-misreported", nd.name)
                moments = moments or t
                w.require(len(t) == len(moments) and all(close(a, b, 1e-9) for a, b in zip(t, moments)), "times-misreported", lambda: "{}: {} and {}".format(nd.name, t, moments))
            w.require(close(moments[-1], float(nd.problem.t_f), 1e-9), "times-misreported", "end")
        table = r.as_dataframe()
        want, got = [], []
        for x in r.results.values():
            for entry in x.dataset.data.values():
                rows = entry.values.full()
                for i, column in enumerate(entry.names):
                    want.append((column, sorted({(float(t), float(v)) for t, v in zip(entry.time.nz, rows[i])})))
        for k, label in enumerate(table.columns):
            c = table.iloc[:, k]
            got.append((label[1], sorted({(float(t), float(v)) for t, v in zip(c.index, c.values) if v == v})))
        w.require(sorted(got) == sorted(want), "table-misreported", lambda: "{} instead of {}".format(got, want))


class D03(DProp):
    pid = "D03"
    quick_runs = 480
    thorough_runs = 8000
    fail_p = 1.0
    choice = ("cyclic", "cyclic", "sample", "choices")
    rule = "One run solves a random network where solvers fail (reporting it, and returning garbage); every value that a node receives and the final result are compared with the last successful solutions."
    faults = ["solver fails"]
    probes = ["neighbour of a failed node used its previous solution", "explicit error without a result", "failed in its last solve"]

    def gen(self, rng, tier):
        plan = super().gen(rng, tier)
        for _ in range(rng.randrange(0, 6)):
            plan["fails"].append(["n{}".format(rng.randrange(plan["net"]["n"])), rng.randrange(0, 8), "fail"])
        return plan

    def run(self, plan, w):
        state = {}
        failed_x = {}

        def setup(sim):
            tr = Tracker(sim)
            state["tr"] = tr
            deg = plan["deg"]

            def on_solve(s):
                # expected neighbour values, per element
                node = sim.node[s["node"]]
                for el in range(plan["fe"]):
                    expected = []
                    relaxed = 0
                    for c in sim.conns:
                        a, y, b, u = c
                        if node is b:
                            relaxed += 1
                            expected.append((a.name, "y", y))
                            if plan["cls"] == "bipartite":
                                expected.append((b.name, "u", u))
                        if node is a:
                            relaxed += 1
                            expected.append((b.name, "u", u))
                            if plan["cls"] == "bipartite":
                                expected.append((a.name, "y", y))
                    values = []
                    for n, kind, name in expected:
                        if n in tr.last:
                            values.extend(tr.traj(n, kind, name)[el])
                        else:
                            values.extend([sim.guess(n, kind, name)] * deg)
                    got = list(s["theta"][el])
                    w.require(
                        len(got) == len(values) + relaxed * deg,
                        "wrong-inputs",
                        "{} got {} values, expected {} and {} multipliers".format(
                            s["node"], len(got), len(values), relaxed * deg
                        ),
                    )
                    for v in values:
                        best = min(range(len(got)), key=lambda i: abs(got[i] - v))
                        w.require(
                            abs(got[best] - v) < 1e-7 * (1 + abs(v)),
                            "wrong-inputs",
                            "solve {} of {}: the value {} of a neighbour (its last solution) is not in {}".format(
                                s["k"], s["node"], v, s["theta"][el]
                            ),
                        )
                        got.pop(best)
                if s["guess"] is not None:
                    for fx in failed_x.get(s["node"], []):
                        w.require(s["guess"] != fx, "failed-solution-used", "as initial guess of {}".format(s["node"]))
                if any(
                    frozenset((s["node"], n)) in sim.coupled and n in tr.last for n in failed_x
                ):
                    w.probe("neighbour of a failed node used its previous solution")
                tr.feed(s)
                if not s["success"]:
                    failed_x.setdefault(s["node"], []).append(s["x"])

            sim.rec.listeners.append(on_solve)

        sim = self.simulate(plan, w, setup=setup)
        if self.allowed(sim, w):
            return
        tr = state["tr"]
        for name, nd in sim.node.items():
            if name not in tr.last:
                w.require(nd not in sim.result.results, "failed-result-returned", name)
                continue
            got = [float(v) for v in sim.result.results[nd].raw_solution_dict["x"].full().flatten(order="F")]
            w.require(
                len(got) == len(tr.last[name]["x"]) and max(abs(p - q) for p, q in zip(got, tr.last[name]["x"])) < 1e-9,
                "failed-solution-used",
                "the result of {} is not its last successful solution".format(name),
            )
            if tr.last[name]["k"] != sim.rec.count[name] - 1:
                w.probe("failed in its last solve")


class D04(DProp):
    pid = "D04"
    quick_runs = 800
    thorough_runs = 12000
    outer = (1, 3)
    kinds = ("fail", "raise", "raise", "interrupt")
    distributed = (True, True, True, False)
    fail_p = 0.5
    rule = "One run solves a random network with simulated workers while workers crash, cannot be started, raise, stall, or the program is interrupted; afterwards every worker that was started must have been terminated."
    faults = ["worker crash before task", "worker crash before reply", "spawn failure", "interrupt while waiting", "solver raises", "interrupt in the solver", "terminate of a dead worker fails", "worker stall", "solver fails"]
    probes = ["error with several workers alive", "finished without error"]
    shrink_lists = ("fails", "crash", "stall")

    def gen(self, rng, tier):
        plan = super().gen(rng, tier)
        plan["opts"]["max_iter_inner"] = rng.choice([1, 1, 2])
        plan["crash"] = []
        plan["spawn_fail"] = plan["interrupt_at"] = None
        r = rng.random()
        if r < 0.4:
            for _ in range(rng.choice([1, 1, 2])):
                plan["crash"].append([rng.randrange(4), rng.randrange(8), rng.choice(["before", "after"])])
        elif r < 0.55:
            plan["spawn_fail"] = rng.randrange(5)
        elif r < 0.75:
            plan["interrupt_at"] = rng.randrange(20)
        plan["stall"] = [[rng.randrange(5), rng.randrange(1, 8)]] if rng.random() < 0.3 else []
        return plan

    def run(self, plan, w):
        cf = {k: plan[k] for k in ("crash", "spawn_fail", "interrupt_at", "stall")}
        sim = self.simulate(plan, w, cluster_faults=cf)
        workers = sim.cluster.workers
        if not plan["distributed"]:
            w.require(not workers, "worker-in-serial", "serial solving started a process")
        e = sim.error
        if e is not None:
            known = isinstance(e, (InjectedError, InjectedInterrupt, WorkerDied)) or (
                isinstance(e, OSError) and "injected" in str(e)
            )
            if not known:
                if not (isinstance(e, ValueError) and "No error given" in str(e)):
                    raise e
            alive = [x for x in workers if not x.dead]
            if len(alive) > 1:
                w.probe("error with several workers alive")
        else:
            w.probe("finished without error")
            # (nobody waits for the last assignment of a penalty, its loss changes nothing)
            w.require(
                not any(k.startswith(("spawn", "interrupt", "solver raises")) for k in w.faults)
                and not any(x.crashed_in in ("call", "get") for x in workers),
                "failure-hidden",
                "a worker failed ({}) and a result was returned".format(sorted(w.faults)),
            )
        for x in workers:
            w.require(
                x.terminate_calls >= 1,
                "worker-left-running",
                "worker of {} was never terminated (error: {!r})".format(x.label, e),
            )
        w.require(not sim.cluster.used_after_terminate, "used-after-terminate", sim.cluster.used_after_terminate)
        w.require(sim.cluster.spawns <= len(sim.node), "too-many-workers", "{} for {} nodes".format(sim.cluster.spawns, len(sim.node)))


class D05(DProp):
    pid = "D05"
    quick_runs = 560
    thorough_runs = 8000
    rule = "One run solves a random network and judges the order of all solves: which nodes are solved in each sweep, which ones at the same time, and how many sweeps are used."
    faults = ["solver fails", "worker stall"]
    probes = ["several workers busy at once", "sweep with a repeated block", "given blocks"]

    def gen(self, rng, tier):
        plan = super().gen(rng, tier)
        plan["opts"]["abs_tol"] = rng.choice([1e-6, 1e-3, 0.1])
        if not plan["inter"] and rng.random() < 0.3:
            order = ["n{}".format(i) for i in range(plan["net"]["n"])]
            rng.shuffle(order)
            coupled = {frozenset(e[:2]) for e in plan["net"]["edges"]}
            blocks = []
            for n in order:
                for b in blocks:
                    if rng.random() < 0.6 and not any(frozenset((int(n[1:]), int(o[1:]))) in coupled for o in b):
                        b.append(n)
                        break
                else:
                    blocks.append([n])
            plan["blocks"] = blocks
        plan["stall"] = [[rng.randrange(5), rng.randrange(1, 8)]] if rng.random() < 0.3 else []
        return plan

    def run(self, plan, w):
        def setup(sim):
            def submitted(worker):
                busy = [x.label for x in sim.cluster.workers if x is not worker and x.outstanding_solves]
                for o in busy:
                    w.require(
                        frozenset((o, worker.label)) not in sim.coupled,
                        "coupled-solved-together",
                        "{} and {} are connected and are being solved at the same time".format(o, worker.label),
                    )

            sim.cluster.on_solve_submitted = submitted

        sim = self.simulate(plan, w, setup=setup)
        if plan.get("blocks"):
            w.probe("given blocks")
        blocks = [sorted(nd.name for nd in b) for b in sim.solver.blocks.values()]
        everyone = sorted(n for b in blocks for n in b)
        w.require(everyone == sorted(sim.node), "blocks-wrong", "nodes {} blocks {}".format(sorted(sim.node), blocks))
        for b in blocks:
            for i, p in enumerate(b):
                for q in b[i + 1 :]:
                    w.require(frozenset((p, q)) not in sim.coupled, "coupled-solved-together", "block {}".format(b))
        done = self.allowed(sim, w)
        order = [s["node"] for s in sim.rec.solves]
        block_of = {n: i for i, b in enumerate(blocks) for n in b}
        # cut the sequence in blocks
        seq = []
        i = 0
        while i < len(order):
            b = block_of[order[i]]
            size = len(blocks[b])
            part = order[i : i + size]
            w.require(
                sorted(part) == blocks[b],
                "block-not-whole",
                "solved {} instead of the block {}".format(part, blocks[b]),
            )
            seq.append(b)
            i += size
        nb = len(blocks)
        w.require(len(seq) % nb == 0, "sweep-not-whole", "{} blocks solved, {} per sweep".format(len(seq), nb))
        sweeps = [seq[k : k + nb] for k in range(0, len(seq), nb)]
        method = plan["opts"]["block_choice_method"]
        for s in sweeps:
            if method != "choices":
                w.require(sorted(s) == list(range(nb)), "node-skipped", "sweep {} of blocks {}".format(s, nb))
            if method == "cyclic":
                w.require(s == sweeps[0], "order-changed", "sweeps {}".format(sweeps))
            if len(set(s)) < len(s):
                w.probe("sweep with a repeated block")
        if done:
            return
        it = sim.result.number_of_iterations
        n_outer = it["outer"] + 1
        w.require(1 <= n_outer <= plan["opts"]["max_iter_outer"], "iteration-bound", str(it))
        inner = plan["opts"]["max_iter_inner"]
        first = max(inner, plan["opts"].get("max_iter_inner_first") or 0)
        w.require(
            n_outer <= len(sweeps) <= first + (n_outer - 1) * inner,
            "iteration-bound",
            "{} sweeps in {} outer iterations (inner {} first {})".format(len(sweeps), n_outer, inner, first),
        )
        w.require(it["block_iterations"] == len(seq), "iterations-misreported", "{} blocks {}".format(it, len(seq)))


class D06(DProp):
    pid = "D06"
    quick_runs = 520
    thorough_runs = 10000
    outer = (3, 7)
    fail_p = 0.4
    classes = ("dal", "dal", "dal", "bipartite")
    rule = "One run solves a random network; the multipliers and penalties that every node uses in every solve are compared with a reference that follows the published update from the solutions alone."
    faults = ["solver fails"]
    probes = ["updates followed", "penalty increased", "node not solved between two updates", "multiplier kept: no improvement"]

    def run(self, plan, w):
        beta, mu_max = plan["al"]["beta"], plan["al"]["mu_max"]
        rule = plan["al"]["mu_update_rule"]
        improve = plan["al"]["only_update_if_improve"]
        half = 0.5 if plan["cls"] == "bipartite" else 1.0
        fe, deg = plan["fe"], plan["deg"]
        n_solves = {}
        state = {}

        def setup(sim):
            tr = Tracker(sim)
            conns = sim.conns
            zero = [[0.0] * deg for _ in range(fe)]
            # a hypothesis: what happened since the last update
            mu0 = plan["al"]["mu_0"]
            ends = [(i, e) for i in range(len(conns)) for e in (0, 1)]
            state["hyp"] = [
                {
                    "nu": {i: copy.deepcopy(zero) for i in range(len(conns))},
                    "mu": {k: mu0 for k in ends},
                    "err": None,
                    "updates": 0,
                    "since": 0,
                    "check": None,
                }
            ]
            state["tr"] = tr

            def updated(h):
                mis = {i: tr.mismatch(c) for i, c in enumerate(conns)}
                # the receiver measures input - output; the sender as well
                err = {i: maxabs(m) * half for i, m in mis.items()}
                nh = {"nu": {}, "mu": dict(h["mu"]), "err": err, "updates": h["updates"] + 1, "since": 0}
                for i in range(len(conns)):
                    keep = improve and rule != "primal-dual" and h["err"] is not None and not err[i] < h["err"][i]
                    m = h["mu"][(i, 0)]
                    nh["nu"][i] = (
                        h["nu"][i]
                        if keep
                        else [
                            [v + m * half * d for v, d in zip(ev, ed)]
                            for ev, ed in zip(h["nu"][i], mis[i])
                        ]
                    )
                    if keep:
                        w.probe("multiplier kept: no improvement")
                alts = []
                if rule == "constant":
                    alts = [dict(nh["mu"])]
                elif rule == "bounded-increase":
                    alts = [{k: min(mu_max, v * beta) for k, v in h["mu"].items()}]
                elif rule == "primal-dual":
                    alts = [
                        {k: v * f for k, v in h["mu"].items()}
                        for f in (1.0, beta, 1.0 / plan["al"].get("beta_decrease", 3.0))
                    ]
                else:  # primal
                    mu = {}
                    for (i, e), v in h["mu"].items():
                        if h["err"] is None or err[i] <= 0.5 * h["err"][i]:
                            mu[(i, e)] = v
                        else:
                            mu[(i, e)] = min(mu_max, v * beta)
                    if plan["distributed"]:
                        top = max(mu.values())
                        mu = {k: top for k in mu}
                    alts = [mu]
                for a in alts:
                    yield dict(nh, mu=a)

            def matches(h, s):
                node = sim.node[s["node"]]
                mine = [(i, e) for i, c in enumerate(conns) for e, nd in ((0, c[2]), (1, c[0])) if nd is node]
                if sorted(s["p"]) != sorted(s["p"]) or len(s["p"]) != len(mine):
                    return False
                want = sorted(h["mu"][k] for k in mine)
                if any(not close(x, y, 1e-9) for x, y in zip(sorted(s["p"]), want)):
                    return False
                for el in range(fe):
                    got = list(s["theta"][el])
                    scale = 1e-6 * (1 + max(h["mu"].values()))
                    for i, e in mine:
                        for v in h["nu"][i][el]:
                            best = min(range(len(got)), key=lambda q: abs(got[q] - v))
                            if abs(got[best] - v) > scale * (1 + abs(v)):
                                return False
                            got.pop(best)
                return True

            def on_solve(s):
                hyps = state["hyp"]
                # an update can only be between two sweeps
                boundary = self.boundary(n_solves, sim, s["node"])
                cands = []
                for h in hyps:
                    if boundary and tr.complete():
                        cands.extend(updated(h))
                        cands.append(h)
                    else:
                        cands.append(h)
                ok = [h for h in cands if matches(h, s)]
                if not ok:
                    h = cands[0]
                    node = sim.node[s["node"]]
                    mine = [(i, e) for i, c in enumerate(conns) for e, nd in ((0, c[2]), (1, c[0])) if nd is node]
                    raise Violation(
                        "wrong-multipliers",
                        "solve {} of {}: penalties {} and parameters {}; expected (one of {}) penalties {} and multipliers {}".format(
                            s["k"], s["node"], s["p"], s["theta"], len(cands),
                            [h["mu"][k] for k in mine], [h["nu"][i] for i, _ in mine],
                        ),
                    )
                state["hyp"] = ok[:64]
                tr.feed(s)

            sim.rec.listeners.append(on_solve)

        sim = self.simulate(plan, w, setup=setup)
        if self.allowed(sim, w):
            return
        best = max(state["hyp"], key=lambda h: h["updates"])
        w.probe("updates followed", best["updates"])
        if best["updates"]:
            if max(best["mu"].values()) > plan["al"]["mu_0"]:
                w.probe("penalty increased")
        least = min(h["updates"] for h in state["hyp"])
        w.require(
            least <= sim.result.number_of_iterations["outer"],
            "too-many-updates",
            "{} {}".format(least, sim.result.number_of_iterations),
        )
        if not w.faults and plan["opts"]["block_choice_method"] != "choices" and all(
            s["success"] for s in sim.rec.solves
        ):
            w.require(
                best["updates"] >= sim.result.number_of_iterations["outer"],
                "update-skipped",
                "{} updates in {}".format(best["updates"], sim.result.number_of_iterations),
            )

    def boundary(self, st, sim, node):
        """True when this solve is the first one of a sweep (but of the first sweep)."""
        if "size" not in st:
            st["size"] = {nd.name: len(b) for b in sim.solver.blocks.values() for nd in b}
            st["left"], st["blocks"] = 0, 0
        first = False
        if st["left"] == 0:
            first = st["blocks"] > 0 and st["blocks"] % len(sim.solver.blocks) == 0
            st["blocks"] += 1
            st["left"] = st["size"][node]
        st["left"] -= 1
        return first


class D07(DProp):
    pid = "D07"
    quick_runs = 220
    thorough_runs = 3000
    max_nodes = 3
    rules = ("constant", "bounded-increase", "primal")
    choice = ("cyclic", "sample")
    inner = (1, 2)
    fail_p = 0.8
    hang_s = 400.0
    rule = "One run solves a random convex network with solver failures that stop after the first sweeps, and compares the result with the centralized solution."
    faults = ["solver fails"]
    probes = ["converged by tolerance", "converged after failures", "composed with a node without connections"]

    def gen(self, rng, tier):
        plan = super().gen(rng, tier)
        plan["net"]["c"] = [0.0] * plan["net"]["n"]
        plan["iso"] = rng.choice([None, None, 1.0, -0.5])
        plan["fe"], plan["deg"] = rng.choice([2, 3]), rng.choice([2, 3])
        plan["opts"].update(max_iter_outer=60, abs_tol=2e-5, inner_loop_tol=1e-4)
        plan["al"].update(mu_0=rng.choice([1.0, 2.0]), beta=1.5, mu_max=rng.choice([5.0, 20.0]), only_update_if_improve=False)
        return plan

    def composition(self, plan, w, objective):
        """With a node without connections, and with intermediary nodes."""
        from yaocptool.methods import DirectMethod
        from yaocptool.modelling import OptimalControlProblem, SystemModel

        opts = dict(finite_elements=plan["fe"], degree=plan["deg"], degree_control=plan["deg"], nlpsol_opts={})
        m = SystemModel(name="alone")
        x, u = m.create_state("x"), m.create_control("u")
        m.include_equations(ode=[u - x])
        alone = DirectMethod(
            OptimalControlProblem(m, t_f=2.0, x_0=[plan["iso"]], L=x**2 + u**2), **opts
        ).solve()
        both = DirectMethod(dalsim.build(plan["net"], plan["inter"], plan["iso"]).get_problem(), **opts).solve()
        want = objective + float(alone.objective_opt_problem)
        w.require(
            bool(both.success) and close(float(both.objective_opt_problem), want, 1e-6),
            "composition-wrong",
            "objective {} instead of {}".format(both.objective_opt_problem, want),
        )
        w.probe("composed with a node without connections")

    def run(self, plan, w):
        from yaocptool.methods import DirectMethod

        net = dalsim.build(plan["net"])
        central = DirectMethod(
            net.get_problem(), finite_elements=plan["fe"], degree=plan["deg"], degree_control=plan["deg"], nlpsol_opts={}
        ).solve()
        w.require(bool(central.success), "central-failed", "centralized problem")
        if plan["iso"] is not None:
            self.composition(plan, w, float(central.objective_opt_problem))
        sim = self.simulate(plan, w)
        if sim.error is not None:
            raise sim.error
        r = sim.result
        worst = max(maxabs(sim.mismatch(r.results, c)) for c in sim.conns)
        outer = r.number_of_iterations["outer"]
        by_tol = outer < plan["opts"]["max_iter_outer"] - 1
        w.event("converged", by_tol)
        if by_tol:
            w.probe("converged by tolerance")
            if w.faults:
                w.probe("converged after failures")
        last = sim.rec.solves[-3 * len(sim.node) :]
        if not all(s["success"] for s in last):
            # the neighbours agreed with the stale solution of a failing node
            w.probe("faults did not stop")
            return
        obj, ref = float(r.objective), float(central.objective_opt_problem)
        w.require(worst < 2e-2, "no-consensus", "mismatch {} after {} outer iterations".format(worst, outer + 1))
        w.require(
            abs(obj - ref) < (3e-3 if by_tol else 3e-2) * (1 + abs(ref)) + 2 * worst,
            "not-the-optimum",
            "distributed {} centralized {} (mismatch {})".format(obj, ref, worst),
        )


PROPS = {c.pid: c for c in (D01, D02, D03, D04, D05, D06, D07)}
