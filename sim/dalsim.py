"""A network of optimal control problems solved by the real coordinator, on simulated workers."""
import contextlib
import random

from sim import fake_erised
from sim.core import InjectedError, InjectedInterrupt

REC = None  # the recorder of the current simulation


class Recorder:
    """Sees every solve of a node (at the public interface of the solution methods)."""

    def __init__(self, w, faults=()):
        self.w = w
        self.solves = []
        self.count = {}
        self.faults = {(n, k): kind for n, k, kind in faults}
        self.names = {}
        self.listeners = []

    def name(self, problem_name):
        return self.names[problem_name]

    def begin(self, problem_name):
        n = self.name(problem_name)
        k = self.count.get(n, 0)
        self.count[n] = k + 1
        self.w.step()
        kind = self.faults.get((n, k))
        return n, k, kind

    def end(self, node, k, kind, p, theta, guess, raw, result=None):
        s = {
            "node": node,
            "k": k,
            "fault": kind,
            "p": [float(x) for x in p.nz] if p is not None else [],
            "theta": {el: [float(x) for x in theta[el].full().flatten()] for el in theta} if theta else {},
            "guess": None if guess is None else [float(x) for x in guess.full().flatten()],
            "x": [float(v) for v in raw["x"].full().flatten(order="F")],
            "success": kind is None and bool(raw.get("stats", {"success": True})["success"]),
            "traj": None if result is None else {
                k: {
                    n: [[float(v[i]) for v in el] for el in d["values"]]
                    for i, n in enumerate(names)
                }
                for k, names, d in (
                    ("y", result.y_names, result.y_data),
                    ("u", result.u_names, result.u_data),
                )
            },
        }
        self.solves.append(s)
        self.w.event("solve", node, k, kind, "ok" if s["success"] else "failed")
        for f in self.listeners:
            f(s)
        return s


def _classes():
    """Created once, when the code under test is loaded."""
    from casadi import DM
    from yaocptool.methods import DirectMethod
    from yaocptool.methods.network.intermediary_node_solution_method import (
        IntermediaryNodeSolutionMethod,
    )

    class SimDirectMethod(DirectMethod):
        """The real direct method (and the real NLP solver) with solver faults."""

        def solve(self, initial_guess=None, p=None, theta=None, x_0=None, last_u=None, **kw):
            node, k, kind = REC.begin(self.problem.name)
            if kind == "raise":
                REC.w.fault("solver raises")
                raise InjectedError("solver of {} fails".format(node))
            if kind == "interrupt":
                REC.w.fault("interrupt in the solver")
                raise InjectedInterrupt()
            guess = DM(initial_guess) if initial_guess is not None else None
            result = super().solve(
                initial_guess=initial_guess, p=p, theta=theta, x_0=x_0, last_u=last_u, **kw
            )
            raw = result.raw_solution_dict
            if kind == "fail":
                REC.w.fault("solver fails")
                rng = random.Random(REC.count[node] * 31 + len(node))
                raw = dict(raw)
                raw["x"] = DM([rng.uniform(-1e3, 1e3) for _ in range(raw["x"].numel())])
                raw["f"] = DM(-1e9)
                raw["stats"] = dict(raw["stats"], success=False, return_status="Injected")
                result = self.create_optimization_result(raw, p if p is not None else DM(), theta or {}, x_0)
            REC.end(node, k, kind, p, theta, guess, raw, result)
            return result

    original = IntermediaryNodeSolutionMethod.solve

    def dummy_solve(self, *a, **kw):
        if REC is None:
            return original(self, *a, **kw)
        node, k, _ = REC.begin(self.problem.name)
        result = original(self, *a, **kw)
        REC.end(node, k, None, result.p, result.theta, None, result.raw_solution_dict, result)
        return result

    IntermediaryNodeSolutionMethod.solve = dummy_solve
    return SimDirectMethod


_CLS = None


def solver_class():
    global _CLS
    if _CLS is None:
        _CLS = _classes()
    return _CLS


def gen_network(rng, max_nodes=4, multi=True, fan=True):
    n = rng.randrange(2, max_nodes + 1)
    pairs = [(a, b) for a in range(n) for b in range(n) if a != b]
    rng.shuffle(pairs)
    # connected: a random tree first
    edges = []
    for i in range(1, n):
        j = rng.randrange(i)
        edges.append([i, j] if rng.random() < 0.5 else [j, i])
    extra = rng.choice([0, 0, 1, 1, 2])
    for a, b in pairs:
        if extra and [a, b] not in edges:
            edges.append([a, b])
            extra -= 1
    if multi and rng.random() < 0.25:
        edges.append(list(rng.choice(edges)))
    # output of node a used by the edge: a new one, or (fan out) the first one again
    out, outs = [], [0] * n
    for a, b in edges:
        if fan and outs[a] and rng.random() < 0.25 and not any(
            e[0] == a and e[1] == b for e in out
        ):
            out.append([a, b, rng.randrange(outs[a])])
        else:
            out.append([a, b, outs[a]])
            outs[a] += 1
    return {
        "n": n,
        "edges": out,
        "x0": [round(rng.uniform(-1, 1), 2) for _ in range(n)],
        "a": [round(rng.uniform(0.3, 1.5), 2) for _ in range(n)],
        "b": [round(rng.choice([-1, 1]) * rng.uniform(0.2, 0.6), 2) for _ in out],
        "c": [rng.choice([0.0, 0.0, 0.2]) for _ in range(n)],
        "q": [round(rng.uniform(0.5, 2), 2) for _ in range(n)],
        "umax": rng.choice([None, None, 0.6]),
        "t0": rng.choice([0.0, 0.0, 1.5, -2.5]),
        "z": [rng.choice([0, 0, 1, 2]) for _ in range(n)],
        "s": [rng.choice([0.0, 0.0, 1.0]) for _ in range(n)],
        "td": [rng.choice([0.0, 0.0, 0.2]) for _ in range(n)],
        "guess": rng.random() < 0.15,
    }


def build(spec, inter=False, iso=None):
    """iso: initial state of a node without connections."""
    from casadi import DM, sin
    from yaocptool.modelling import Network, OptimalControlProblem, SystemModel

    net = Network(name="net")
    n = spec["n"]
    n_out = [max([e[2] + 1 for e in spec["edges"] if e[0] == i], default=0) for i in range(n)]
    parts = []
    for i in range(n):
        m = SystemModel(name="m{}".format(i))
        x = m.create_state("x{}".format(i))
        u = m.create_control("u{}".format(i))
        ins = {}
        z = m.create_algebraic_variable("z{}".format(i)) if spec["z"][i] == 1 else None
        for k, e in enumerate(spec["edges"]):
            if e[1] == i:
                ins[k] = m.create_control("v{}_{}".format(i, k))
        outs = [m.create_algebraic_variable("y{}_{}".format(i, k)) for k in range(n_out[i])]
        rhs = -spec["a"][i] * x + u + spec["c"][i] * sin(x)
        for k, v in ins.items():
            rhs += spec["b"][k] * v
        alg = [y - x * (1 + 0.1 * k) for k, y in enumerate(outs)]
        if spec["z"][i] == 2:
            z = m.create_algebraic_variable("z{}".format(i))
        if z is not None:
            rhs += 0.3 * z
            alg.insert(0 if spec["z"][i] == 1 else len(alg), z - 0.5 * x - 0.2 * u)
        if spec["td"][i]:
            rhs += spec["td"][i] * m.t
        m.include_equations(ode=[rhs], alg=alg)
        p = OptimalControlProblem(
            m,
            name="p{}".format(i),
            t_0=spec["t0"],
            t_f=spec["t0"] + 2.0,
            x_0=[spec["x0"][i]],
            L=spec["q"][i] * x**2 + u**2,
            S=spec["s"][i] * x**2,
        )
        if spec["guess"]:
            p.y_guess = DM([0.1 * (j + 1) for j in range(m.n_y)])
            p.u_guess = DM([-0.1 * (j + 1) for j in range(m.n_u)])
        if spec["umax"]:
            p.u_max[0] = spec["umax"]
            p.u_min[0] = -spec["umax"]
        node = net.create_node(name="n{}".format(i), model=m, problem=p)
        parts.append((node, ins, outs))
    if iso is not None:
        m = SystemModel(name="mi")
        x, u = m.create_state("xi"), m.create_control("ui")
        m.include_equations(ode=[u - x])
        p = OptimalControlProblem(
            m, name="pi", t_0=spec["t0"], t_f=spec["t0"] + 2.0, x_0=[iso], L=x**2 + u**2
        )
        net.create_node(name="ni", model=m, problem=p)
    for k, (a, b, o) in enumerate(spec["edges"]):
        net.connect(parts[a][2][o], parts[b][1][k], parts[a][0], parts[b][0])
    if inter:
        net.insert_intermediary_nodes()
    return net


def connections(net):
    """[(sender node, y name, receiver node, u name)], one per connected variable."""
    out = []
    for a, b in net.graph.edges:
        e = net.graph.edges[a, b]
        for y, u in zip(e["y"].nz, e["u"].nz):
            out.append((a, y.name(), b, u.name()))
    return out


class Simulation:
    """Runs one distributed solve; afterwards holds everything that could be observed."""

    def __init__(self, w, plan, distributed, faults=(), cluster_faults=None, cls="dal", listeners=(), net=None):
        global REC
        from yaocptool.methods.network.bipartite_jacobi_admm import BipartiteJacobiADMM
        from yaocptool.methods.network.distributedaugmetedlagrangian import (
            DistributedAugmentedLagrangian,
        )

        self.w = w
        self.plan = plan
        self.net = net or build(plan["net"], plan.get("inter", False))
        self.conns = connections(self.net)
        self.node = {nd.name: nd for nd in self.net.nodes}
        self.coupled = {frozenset((a.name, b.name)) for a, _, b, _ in self.conns}
        self.rec = Recorder(w, faults)
        for nd in self.net.nodes:
            self.rec.names[nd.problem.name] = nd.name
        # before the coordinator changes the problems
        self.y_index = {(nd.name, s.name()): i for nd in self.net.nodes for i, s in enumerate(nd.model.y.nz)}
        self.guesses = {
            (nd.name, v.name()): float(g)
            for nd in self.net.nodes
            for vec, guess in ((nd.model.y, nd.problem.y_guess), (nd.model.u, nd.problem.u_guess))
            if guess is not None
            for v, g in zip(vec.nz, guess.nz)
        }
        REC = self.rec
        self.cluster = fake_erised.Cluster(w, cluster_faults)
        fake_erised.install(self.cluster)
        opts = dict(plan["opts"])
        opts["distributed"] = distributed
        opts["al_options"] = dict(plan["al"])
        self.fe, self.degree = plan["fe"], plan["deg"]
        opts.update(degree=self.degree, finite_elements=self.fe)
        blocks = None
        if plan.get("blocks"):
            blocks = {i: [self.node[n] for n in b] for i, b in enumerate(plan["blocks"])}
        self.solver = {"dal": DistributedAugmentedLagrangian, "bipartite": BipartiteJacobiADMM}[cls](
            self.net,
            solver_class(),
            solution_method_options=dict(
                finite_elements=self.fe,
                degree=self.degree,
                degree_control=self.degree,
                nlpsol_opts={},
            ),
            blocks=blocks,
            options=opts,
        )

    def guess(self, node, kind, name):
        """The value of a variable of a node without solution."""
        return self.guesses.get((node, name), 0.0)

    def run(self):
        """Returns the result; the error if there is one."""
        global REC
        random.seed(self.plan["seed"])
        self.error = None
        self.result = None
        try:
            self.result = self.solver.solve()
        except (Exception, KeyboardInterrupt) as e:
            self.error = e
        finally:
            REC = None
        return self.result

    # --- what the user sees
    def trajectory(self, result, kind, name):
        names = list(result.y_names if kind == "y" else result.u_names)
        data = result.y_data if kind == "y" else result.u_data
        i = names.index(name)
        return [[float(v[i]) for v in el] for el in data["values"]]

    def mismatch(self, results, conn):
        a, y, b, u = conn
        ty = self.trajectory(results[a], "y", y)
        tu = self.trajectory(results[b], "u", u)
        return [[p - q for p, q in zip(eu, ey)] for eu, ey in zip(tu, ty)]


def maxabs(traj):
    return max(abs(v) for el in traj for v in el)
