"""P01, P02: the simulated plant."""
import copy
import random

import numpy as np

from sim import linsys
from sim.core import Discard, InjectedError, InjectedInterrupt, Prop, Violation
from sim.props.mpc import flat, near

TOL = 2e-6
INTEGRATOR = {"abstol": 1e-10, "reltol": 1e-10}


def model_class(state):
    """A model whose integrator can fail (before or after its work)."""
    from yaocptool.modelling import SystemModel

    class Model(SystemModel):
        def simulate(self, *a, **k):
            n = state["calls"]
            state["calls"] += 1
            state["w"].step()
            kind = state["faults"].get(n)
            if kind == "raise":
                state["w"].fault("integrator fails")
                raise InjectedError("integrator")
            if kind == "interrupt":
                state["w"].fault("integrator interrupted")
                raise InjectedInterrupt()
            result = super().simulate(*a, **k)
            if kind == "late":
                state["w"].fault("interrupted after integrating")
                raise InjectedInterrupt()
            return result

    return Model


class P01(Prop):
    pid = "P01"
    quick_runs = 4500
    thorough_runs = 30000
    chunk = 10
    rule = "One run is a history of controls (values, functions of time, rejected ones) applied to a simulated plant with integrator failures; states, controls, measurements and times are compared with the exact solution."
    faults = ["integrator fails", "integrator interrupted", "interrupted after integrating", "control of a wrong size"]
    probes = ["failed between sub-samples", "continued after a failure", "control function", "measured twice"]
    shrink_lists = ("ops", "faults")
    components = {"real": ["yaocptool.mpc.PlantSimulation", "yaocptool.modelling.SystemModel.simulate", "cvodes/idas"], "simulated": ["failures of the integrator"]}
    assumptions = ["linear plants (with a sinusoidal disturbance): the reference is the exact solution, compared with tolerance 2e-6", "after a failure inside of a sample, the control and the measurement are only judged again after the next complete sample"]

    def gen(self, rng, tier):
        sys = linsys.gen(rng, large=0.08)
        ops = []
        for _ in range(rng.randrange(1, 7)):
            r = rng.random()
            u = [round(rng.uniform(-1, 1), 2) for _ in range(sys["nu"])]
            if r < 0.5:
                ops.append(["set", u, rng.choice(["list", "DM"] + (["float"] if sys["nu"] == 1 else []))])
            elif r < 0.8:
                ops.append(["function", u, [round(rng.uniform(-0.5, 0.5), 2) for _ in range(sys["nu"])]])
            elif r < 0.9:
                ops.append(["measure"])
            else:
                ops.append(["wrong", sys["nu"] + rng.choice([1, 2])])
        return {
            "sys": sys,
            "x0": [round(rng.uniform(-1, 1), 2) for _ in range(sys["nx"])],
            "u0": [round(rng.uniform(-1, 1), 2) for _ in range(sys["nu"])],
            "p": [round(rng.uniform(-1, 1), 2) for _ in range(sys["np"])],
            "t_0": rng.choice([0.0, 0.0, 1.0, -2.0, 3.3]),
            "t_s": rng.choice([0.1, 0.5, 1.0, 2.0]),
            "super": rng.choice([1, 2, 3, 4, [0.5, 1.0], [0.1, 0.6, 1.0], [1.0]]),
            "theta": round(rng.uniform(-1, 1), 2) if rng.random() < 0.3 else None,
            "meas": rng.choice(["default", "rows"]),
            "guess": rng.random() < 0.7,
            "C": [[round(rng.uniform(-1, 1), 2) for _ in range(sys["nx"] + sys["ny"])] for _ in range(rng.choice([1, 2]))],
            "ops": ops,
            "faults": [[rng.randrange(0, 12), rng.choice(["raise", "interrupt", "late"])] for _ in range(rng.choice([0, 0, 1, 1, 2]))],
        }

    def simplify(self, plan):
        for key, value in (("super", 1), ("meas", "default"), ("t_0", 0.0)):
            if plan[key] != value:
                new = copy.deepcopy(plan)
                new[key] = value
                yield new

    def run(self, plan, w):
        from casadi import DM, Function, SX
        from yaocptool.mpc import PlantSimulation

        ref = linsys.LinSys(plan["sys"])
        state = {"calls": 0, "faults": {k: kind for k, kind in plan["faults"]}, "w": w}
        par = list(plan["p"])
        if plan["theta"] is None:
            model = ref.model(model_class(state))
        else:
            # (as one more parameter)
            gain = [0.5] * ref.nx
            model = ref.model(model_class(state), theta=gain)
            spec = dict(plan["sys"], np=ref.np + 1, F=np.hstack([ref.F, np.array([gain]).T]).tolist())
            ref = linsys.LinSys(spec)
            par.append(plan["theta"])
        nx, nu, ny = ref.nx, ref.nu, ref.ny
        y0 = ref.algebraic(plan["x0"], plan["u0"])
        kw = {}
        C = np.eye(nx + ny)
        if plan["meas"] == "rows":
            C = np.array(plan["C"])
            kw["c_matrix"] = DM(C)
        plant = PlantSimulation(
            model,
            x_0=DM(plan["x0"]),
            u_0=DM(plan["u0"]),
            y_guess=DM(y0) if ny else (DM(0, 1) if plan["guess"] else None),
            t_0=plan["t_0"],
            t_s=plan["t_s"],
            super_samling=copy.deepcopy(plan["super"]),
            verbosity=0,
            integrator_options=dict(INTEGRATOR),
            **kw
        )
        if plan["p"]:
            plant.p = DM(plan["p"])
        if plan["theta"] is not None:
            plant.theta = {0: DM([plan["theta"]])}
        points = plan["super"] if isinstance(plan["super"], list) else [(i + 1) / plan["super"] for i in range(plan["super"])]
        t, x = plan["t_0"], np.array(plan["x0"])
        u = np.array(plan["u0"])
        y = y0
        rec = {"x": [(t, list(x))], "u": [(t, list(u))], "y": [(t, list(y))], "meas": [(t, list(C @ np.concatenate([x, y])))]}
        meas_ok = u_ok = True

        def judge(where):
            tm, meas, um = plant.get_measurement()
            w.require(abs(float(tm) - t) < 1e-9, "wrong-time", "{}: at {} expected {}".format(where, tm, t))
            w.require(near(flat(plant.x), list(x), TOL), "wrong-state", "{}: {} expected {}".format(where, flat(plant.x), list(x)))
            if meas_ok:
                w.require(near(flat(meas), rec["meas"][-1][1], TOL), "wrong-measurement", "{}: {} expected {}".format(where, flat(meas), rec["meas"][-1]))
            if u_ok:
                w.require(near(flat(um), list(u), 1e-9), "wrong-control", "{}: {} expected {}".format(where, flat(um), list(u)))
            again = plant.get_measurement()
            w.require(
                float(again[0]) == float(tm) and flat(again[1]) == flat(meas) and flat(again[2]) == flat(um),
                "measuring-changes-plant",
                where,
            )

        judge("start")
        for op in plan["ops"]:
            w.event(*op)
            if op[0] == "measure":
                w.probe("measured twice")
                judge("measure")
                continue
            if op[0] == "wrong":
                w.fault("control of a wrong size")
                calls = state["calls"]
                try:
                    plant.set_control(DM([0.1] * op[1]))
                except ValueError:
                    pass
                else:
                    raise Violation("wrong-size-accepted", str(op))
                w.require(state["calls"] == calls, "wrong-state", "the plant advanced with a rejected control")
                judge("rejected control")
                continue
            fired = sum(w.faults.values())
            n0 = state["calls"]
            try:
                if op[0] == "set":
                    plant.set_control({"list": list(op[1]), "DM": DM(op[1]), "float": op[1][0]}[op[2]])
                else:
                    s = SX.sym("t")
                    plant.set_control_function(Function("f", [s], [DM(op[1]) + DM(op[2]) * s]))
                    w.probe("control function")
                failed = False
            except (InjectedError, InjectedInterrupt):
                failed = True
            w.require(failed == (sum(w.faults.values()) > fired), "failure-hidden", "an integrator failed, and nothing was reported")
            done = len(points)
            if failed:
                # the failing call was the last one
                done = state["calls"] - n0 - 1
                if done:
                    w.probe("failed between sub-samples")
            else:
                w.require(state["calls"] - n0 == len(points), "wrong-sampling", "{} simulations for {} sub-samples".format(state["calls"] - n0, len(points)))
                if not meas_ok:
                    w.probe("continued after a failure")
            start = t
            for f in points[:done]:
                u = np.array(op[1]) if op[0] == "set" else np.array(op[1]) + np.array(op[2]) * t
                t_next = start + f * plan["t_s"]
                x = ref.step(x, u, t, t_next - t, par)
                t = t_next
                y = ref.algebraic(x, u)
                rec["x"].append((t, list(x)))
                rec["u"].append((t, list(u)))
                rec["y"].append((t, list(y)))
            if not failed:
                rec["meas"].append((t, list(C @ np.concatenate([x, y]))))
            meas_ok = u_ok = not failed
            judge("after {}".format(op[0]))
            w.event("t", round(t, 3), [round(v, 2) + 0.0 for v in x])
            w.sim_time = t - plan["t_0"]
        for name, size in (("x", nx), ("u", nu), ("y", ny), ("meas", len(C))):
            if not size:
                continue
            e = plant.dataset.data[name]
            times = flat(e.time)
            values = flat(e.values)
            want_t = [r[0] for r in rec[name]]
            want_v = [v for r in rec[name] for v in r[1]]
            w.require(near(times, want_t, 1e-9), "wrong-record", "times of {}: {} expected {}".format(name, times, want_t))
            w.require(near(values, want_v, TOL), "wrong-record", "{}: {} expected {}".format(name, values, want_v))
        w.nontrivial = w.nontrivial or len(plan["ops"]) > 1


class P02(Prop):
    pid = "P02"
    quick_runs = 600
    thorough_runs = 10000
    chunk = 5
    rule = "One run simulates several noisy plants, interleaved by the scheduler with each other and with other users of the random generators; twins with the same seed are compared, and the noise is extracted and compared with its covariance."
    faults = ["other code draws numbers", "other code reseeds", "another plant advances in between", "other code changes the state of the generator"]
    probes = ["process noise in one direction only", "no noise"]
    shrink_ints = (("n", 3),)
    components = {"real": ["yaocptool.mpc.PlantSimulation", "numpy.random"], "simulated": ["other users of the random generators", "order in which the plants advance"]}
    assumptions = ["the noise is extracted with the exact solution of linear plants"]

    def gen(self, rng, tier):
        sys = linsys.gen(rng, n_p=0, large=0.08)
        shift = round(max(np.linalg.eigvals(np.array(sys["A"])).real.max() + 0.1, 0), 2)
        for i in range(sys["nx"]):  # stable: there are long simulations
            sys["A"][i][i] = round(sys["A"][i][i] - shift, 2)
        m = rng.choice([1, 2])
        nx = sys["nx"]
        plants = []
        for i in range(rng.randrange(2, 4)):
            plants.append({"seed": rng.choice([0, 1, 7, 123456]), "noise": rng.random() < 0.85})
        plants.append(dict(rng.choice(plants)))  # a twin
        rv = [rng.choice([0.0, 1e-2, 0.25]) for _ in range(nx)]
        n = rng.choice([3, 6, 30, 60])
        if rng.random() < 0.1:  # few plants, many samples: sharp statistics
            plants, n = plants[:1] + plants[:1], 250
            plants[0]["noise"] = True
        return {
            "sys": sys,
            "x0": [round(rng.uniform(-1, 1), 2) for _ in range(nx)],
            "C": [[round(rng.uniform(-1, 1), 2) for _ in range(nx + sys["ny"])] for _ in range(m)],
            "rn": [rng.choice([1e-3, 0.04, 1.0]) for _ in range(m)],
            "corr": rng.choice([0.0, 0.0, 0.7, -0.5]),
            "rv": rv,
            "vcorr": rng.choice([0.0, 0.6, -0.8]),
            "t_s": rng.choice([0.1, 0.5, 0.5, 2.0]),
            "super": rng.choice([1, 1, 2, 3]),
            "plants": plants,
            "n": n,
            "foreign": rng.choice([0, 1, 2]),
        }

    def run(self, plan, w):
        try:
            self.simulate(plan, w)
        except RuntimeError as e:
            if "IDACalcIC" not in str(e):
                raise
            raise Discard("the numerical integrator gave up")  # (rare; nothing to do with the noise)

    def simulate(self, plan, w):
        from casadi import DM
        from yaocptool.mpc import PlantSimulation

        ref = linsys.LinSys(plan["sys"])
        nx, nu = ref.nx, ref.nu
        C = np.array(plan["C"])
        Rn = np.diag(plan["rn"])
        if len(Rn) == 2:
            Rn[0, 1] = Rn[1, 0] = plan["corr"] * np.sqrt(Rn[0, 0] * Rn[1, 1])
        Rv = np.diag(plan["rv"])
        cols = [j for j, var in enumerate(plan["rv"]) if var > 0]
        if len(cols) > 1:
            a, b = cols[:2]
            Rv[a, b] = Rv[b, a] = plan["vcorr"] * np.sqrt(Rv[a, a] * Rv[b, b])
        t_s = plan["t_s"]
        uk = lambda k: [0.3 * ((k * 7 + j) % 3 - 1) for j in range(nu)]

        def make(p):
            kw = {}
            if p["noise"]:
                kw["has_noise"] = True
            return PlantSimulation(
                ref.model(),
                x_0=DM(plan["x0"]),
                u_0=DM.zeros(nu),
                y_guess=DM(ref.algebraic(plan["x0"], [0] * nu)) if ref.ny else None,
                t_s=t_s,
                c_matrix=DM(C),
                r_n=DM(Rn),
                r_v=DM(Rv),
                noise_seed=p["seed"],
                super_samling=plan["super"],
                verbosity=0,
                integrator_options=dict(INTEGRATOR),
                **kw
            )

        def foreign():
            if plan["foreign"] == 0:
                return
            c = w.choose(4, "foreign")
            if c == 1:
                np.random.rand(3)
                random.random()
                w.fault("other code draws numbers")
            elif c == 2:
                np.random.seed(5)
                random.seed(5)
                w.fault("other code reseeds")
            elif c == 3 and plan["foreign"] == 2:
                np.random.set_state(np.random.RandomState(9).get_state())
                w.fault("other code changes the state of the generator")

        plants, steps = [], []
        todo = list(range(len(plan["plants"])))
        # creation is interleaved as well
        while todo:
            i = todo.pop(w.choose(len(todo), "create"))
            foreign()
            plants.append((i, make(plan["plants"][i])))
            steps.append(0)
        last = None
        while True:
            ready = [k for k in range(len(plants)) if steps[k] < plan["n"]]
            if not ready:
                break
            k = ready[w.choose(len(ready), "plant")]
            w.step()
            if last is not None and last != k:
                w.fault("another plant advances in between")
            last = k
            foreign()
            plants[k][1].set_control(uk(steps[k]))
            steps[k] += 1
        data = {}
        for i, p in plants:
            data[i] = {n: (flat(p.dataset.data[n].time), flat(p.dataset.data[n].values)) for n in ("x", "meas", "meas_wo_noise")}
            w.sim_time += plan["n"] * t_s
        ids = sorted(data)
        noisy_dims = any(v > 0 for v in plan["rv"])
        for a in ids:
            for b in ids:
                if a >= b:
                    continue
                pa, pb = plan["plants"][a], plan["plants"][b]
                if pa == pb or (not pa["noise"] and not pb["noise"]):
                    w.require(data[a] == data[b], "not-reproducible", "plants {} and {} with the same seed {} differ".format(a, b, pa["seed"]))
                elif pa["noise"] and pb["noise"]:
                    w.require(data[a]["meas"] != data[b]["meas"], "seed-ignored", "seeds {} {}".format(pa["seed"], pb["seed"]))
        for i in ids:
            p = plan["plants"][i]
            d = data[i]
            m = len(C)
            meas = np.array(d["meas"][1]).reshape(-1, m)
            clean = np.array(d["meas_wo_noise"][1]).reshape(-1, m)
            w.require(len(meas) == len(clean) == plan["n"] + 1, "wrong-record", "{} measurements".format(len(meas)))
            X = np.array(d["x"][1]).reshape(-1, nx)
            T = d["x"][0]
            # noise free measurement is that of the recorded state
            for k in range(plan["n"] + 1):
                x = X[k * plan["super"]]
                u = uk(k - 1) if k else [0] * nu
                w.require(near(list(clean[k]), list(C @ np.concatenate([x, ref.algebraic(x, u)])), 1e-3), "wrong-measurement", "sample {}".format(k)) if ref.ny == 0 else None
            v = meas - clean
            e = []
            for k in range(1, len(X)):
                u = uk((k - 1) // plan["super"])
                e.append(X[k] - ref.step(X[k - 1], u, T[k - 1], T[k] - T[k - 1]))
            e = np.array(e)
            if not p["noise"]:
                w.probe("no noise")
                w.require(np.abs(v).max() == 0 and np.abs(e).max() < 1e-4, "noise-when-off", "{} {}".format(np.abs(v).max(), np.abs(e).max()))
                continue
            w.require(np.abs(v).max() > 0, "noise-missing", "measurement noise")
            for j, var in enumerate(plan["rv"]):
                if var == 0:
                    w.require(np.abs(e[:, j]).max() < 1e-4, "wrong-covariance", "process noise in a state that has none")
                    if noisy_dims:
                        w.probe("process noise in one direction only")
            if plan["n"] >= 30:
                L = np.linalg.inv(np.linalg.cholesky(Rn))
                self.white(w, v @ L.T, "measurement noise")
                if cols:
                    L = np.linalg.inv(np.linalg.cholesky(Rv[np.ix_(cols, cols)]))
                    z = e[:, cols] @ L.T
                    self.white(w, z, "process noise")
                    for k in range(plan["super"]):
                        self.white(w, z[k :: plan["super"]], "process noise of sub-sample {}".format(k))

    def white(self, w, z, what):
        """Independent standard normal values (limits far outside of what chance gives)."""
        from scipy.stats import chi2

        for name, c in [("all", z)] + [(j, z[:, j]) for j in range(z.shape[1])]:
            n = c.size
            s = float((c**2).sum())
            lo, hi = chi2.ppf(1e-11, n), chi2.isf(1e-11, n)
            w.require(lo < s < hi, "wrong-covariance", "{} ({}): variance {} times the given one ({} values)".format(what, name, s / n, n))
            mean = float(c.sum()) / np.sqrt(n)
            w.require(abs(mean) < 7, "wrong-covariance", "{} ({}): mean {} sigma".format(what, name, mean))
        n = len(z)
        for i in range(z.shape[1]):
            for j in range(z.shape[1]):
                for lag in (0, 1):
                    if lag == 0 and i >= j:
                        continue
                    r = float((z[lag:, i] * z[: n - lag, j]).sum()) / np.sqrt(n)
                    w.require(abs(r) < 9, "wrong-covariance", "{}: components {} and {} correlated, lag {} ({} sigma)".format(what, i, j, lag, r))


class Sim:
    """One model (a linear system, with theta and maybe a feedback as parametrized control), and its exact solution."""

    def __init__(self, plan):
        from casadi import DM, SX, mtimes

        spec = copy.deepcopy(plan["sys"])
        base = linsys.LinSys(spec)
        self.th = np.array(plan["th"], float)
        F = np.array(spec["F"], float).reshape(base.nx, base.np)
        self.K = np.array(plan["K"], float) if plan["K"] else None
        m = base.model(theta=self.th if plan["theta"] else None)
        ext = dict(spec)
        if self.K is not None:  # u = K x + v
            v = SX.sym("v", base.nu)
            m.parametrize_control(m.u, mtimes(DM(self.K), m.x) + v, v)
            ext["A"] = (base.A + base.B @ self.K).tolist()
            ext["C1"] = (base.C1 + base.D1 @ self.K).tolist()
        ext["np"] = base.np + 1
        ext["F"] = np.hstack([F, self.th.reshape(-1, 1)]).tolist()
        self.ref = linsys.LinSys(ext)
        self.model = m
        self.nx, self.nu, self.ny = base.nx, base.nu, base.ny

    def step(self, x, v, t, dt, p, th):
        x1 = self.ref.step(x, v, t, dt, list(p) + [th])
        u = np.array(v) + (self.K @ x1 if self.K is not None else 0)
        return x1, self.ref.algebraic(x1, v), u


class P03(Prop):
    pid = "P03"
    quick_runs = 7000
    thorough_runs = 40000
    chunk = 10
    rule = "One run is a history of simulations of one model and of its copies (single and in sequences, continued, with failing integrators and interrupts at arbitrary lines, rejected calls) whose results are joined; all data is compared with the exact solution."
    faults = ["integrator fails", "integrator interrupted", "interrupted after integrating", "interrupt at a line", "rejected call"]
    probes = ["continued", "after a failure", "failed inside of a sequence", "joined", "copy of the model", "model and copy diverge", "feedback", "theta", "other integrator", "through a problem"]
    shrink_lists = ("ops",)
    components = {"real": ["yaocptool.modelling.SystemModel, DAESystem, SimulationResult", "cvodes/idas/collocation"], "simulated": ["failures of the integrator", "interrupts"]}
    assumptions = ["linear models (with a sinusoidal disturbance): the reference is the exact solution, compared with tolerance 2e-5"]
    TOL = 2e-5

    def gen(self, rng, tier):
        sys = linsys.gen(rng, large=0.08)
        nx, nu = sys["nx"], sys["nu"]
        u1 = lambda: round(rng.uniform(-1, 1), 2)
        ops = []
        for _ in range(rng.randrange(2, 8)):
            r = rng.random()
            if r < 0.62:
                n = rng.choice([1, 1, 2, 3, 4])
                fault = rng.choice([None, None, None, ["raise", rng.randrange(n)], ["interrupt", rng.randrange(n)], ["late", rng.randrange(n)], ["line", int(np.exp(rng.uniform(0, 6)))]])
                ops.append([
                    "sim",
                    {
                        "from": rng.choice(["start", "end", "end"]),
                        "t_0": rng.choice([0.0, 0.0, 1.5, -2.0]),
                        "x": [u1() for _ in range(nx)],
                        "steps": [rng.choice([0.1, 0.5, 1.0, 2.0]) for _ in range(n)],
                        "u": [[u1() for _ in range(nu)] for _ in range(n)],
                        "each": rng.random() < 0.6,
                        "p": [u1() for _ in range(sys["np"])],
                        "theta": [u1() for _ in range(n)],
                        "form": rng.choice(["list", "DM"]),
                        "type": rng.choice([None, None, None, "implicit", "cvodes", "idas", "collocation"]),
                        "single": rng.random() < 0.5,
                        "via": rng.choice([None, None, None, "arguments", "defaults", "elements"]),
                    },
                    fault,
                ])
            elif r < 0.78:
                ops.append(["join", rng.randrange(6), rng.randrange(6)])
            elif r < 0.88:
                ops.append(["copy", rng.choice(["shallow", "deep"]), rng.choice([None, "copy", "original"]), rng.choice(["equations", "state", "merge"])])
            else:
                ops.append(["bad", rng.choice(["same time", "controls", "integrator", "join"])])
        return {
            "sys": sys,
            "theta": rng.random() < 0.4,
            "th": [u1() for _ in range(nx)],
            "K": [[round(rng.uniform(-0.3, 0.3), 2) for _ in range(nx)] for _ in range(nu)] if rng.random() < 0.35 else None,
            "ops": ops,
        }

    def snapshot(self, r):
        return [float(r.t_0), float(r.t_f), r.finite_elements] + [
            (n, flat(r.data[n].time), flat(r.data[n].values), list(r.data[n].names)) for n in ("x", "y", "u")
        ]

    def run(self, plan, w):
        from casadi import DM
        from yaocptool.modelling import DAESystem

        sim = Sim(plan)
        models = [sim.model]
        if plan["K"]:
            w.probe("feedback")
        if plan["theta"]:
            w.probe("theta")
        results = []  # [result, expected rows, snapshot]
        state = {"n": 0, "fault": None}
        original = DAESystem.simulate

        def simulate(self, *a, **k):
            n, fault = state["n"], state["fault"]
            state["n"] += 1
            w.step()
            kind = fault[0] if fault and fault[0] != "line" and fault[1] == n else None
            if kind == "raise":
                w.fault("integrator fails")
                raise InjectedError("integrator")
            if kind == "interrupt":
                w.fault("integrator interrupted")
                raise InjectedInterrupt()
            r = original(self, *a, **k)
            if kind == "late":
                w.fault("interrupted after integrating")
                raise InjectedInterrupt()
            return r

        DAESystem.simulate = simulate
        try:
            self.history(plan, w, sim, models, results, state, DM)
        finally:
            DAESystem.simulate = original

    def history(self, plan, w, sim, models, results, state, DM):
        failed = False
        for op in plan["ops"]:
            w.event(op[0])
            model = models[-1]
            if op[0] == "copy":
                other = model.get_copy() if op[1] == "shallow" else model.get_deepcopy()
                w.probe("copy of the model")
                if op[2]:  # one of them is changed, the history goes on with the other one
                    changed, other = (other, model) if op[2] == "copy" else (model, other)
                    self.change(changed, op[3])
                    w.probe("model and copy diverge")
                models.append(other)
            elif op[0] == "join":
                if len(results) < 2:
                    continue
                a, b = results[op[1] % len(results)], results[op[2] % len(results)]
                if a is b:
                    continue
                a[0].extend(b[0])
                for n in ("x", "y", "u"):
                    a[1][n] = sorted(a[1][n] + b[1][n], key=lambda row: row[0])
                a[1]["span"] = (min(a[1]["span"][0], b[1]["span"][0]), max(a[1]["span"][1], b[1]["span"][1]))
                a[1]["elements"] += b[1]["elements"]
                self.judge(w, sim, a, "joined")
                a[2] = self.snapshot(a[0])
                w.probe("joined")
            elif op[0] == "bad":
                self.bad(w, sim, model, op[1], results, DM)
            else:
                failed = self.simulate(plan, w, sim, model, op, results, state, DM, failed)
            for r, _, snap in results:
                w.require(self.snapshot(r) == snap, "result-changed", "a result changed later ({})".format(op[0]))
        w.nontrivial = w.nontrivial or len(plan["ops"]) > 1

    def change(self, model, kind):
        from yaocptool.modelling import SystemModel

        if kind == "equations":
            model.replace_variable(model.x[0], 2 * model.x[0])
        elif kind == "state":
            v = model.create_state("extra")
            model.include_equations(ode=[-3 * v], x=v)
        else:
            extra = SystemModel(name="extra")
            v = extra.create_state("extra")
            q = extra.create_control("extra_control")
            extra.include_equations(ode=[q - v])
            model.merge([extra])
            model.connect(q, model.x[0])

    def bad(self, w, sim, model, kind, results, DM):
        x0 = DM([0.1] * sim.nx)
        kw = dict(x_0=x0, t_f=1.0, t_0=0.0, u=DM.zeros(sim.nu), y_0=DM.zeros(sim.ny))
        if model.n_p:
            kw["p"] = DM.zeros(model.n_p)
        if model.n_theta:
            kw["theta"] = {0: DM([0.0]), 1: DM([0.0]), 2: DM([0.0])}
        if kind == "same time":
            kw["t_0"] = 1.0
        elif kind == "controls":
            kw["t_f"] = [1.0, 2.0, 3.0]
            kw["u"] = {0: DM.zeros(sim.nu), 1: DM.zeros(sim.nu)}
        elif kind == "integrator":
            kw["integrator_type"] = "none of them"
        else:
            from yaocptool.modelling import SimulationResult

            if not results:
                return
            other = SimulationResult(n_x=sim.nx + 1, n_y=sim.ny, n_u=sim.nu)
            try:
                results[-1][0].extend(other)
            except Exception:
                w.fault("rejected call")
                return
            raise Violation("accepted", "results of different size were joined")
        w.fault("rejected call")
        try:
            model.simulate(**kw)
        except ValueError:
            return
        raise Violation("accepted", kind)

    def simulate(self, plan, w, sim, model, op, results, state, DM, failed):
        _, o, fault = op
        t, x = o["t_0"], np.array(o["x"])
        y = None
        if o["from"] == "end" and results:
            r = results[-1]
            end = r[0].final_condition()
            t, x = r[1]["x"][-1][0], np.array(flat(end["x"]))
            w.require(near(list(x), list(r[1]["x"][-1][1]), self.TOL), "wrong-result", "final condition {}".format(end))
            y = flat(end["y"])
            w.probe("continued")
        steps = o["steps"]
        if o["via"] == "elements":
            steps = [steps[0]] * len(steps)
        us = o["u"] if o["each"] else [o["u"][0]] * len(steps)
        times = [t + sum(steps[: i + 1]) for i in range(len(steps))]
        form = (lambda v: list(v)) if o["form"] == "list" else (lambda v: DM(v))
        v0 = us[0]
        y0 = list(sim.ref.algebraic(x, v0))
        kw = dict(x_0=form([float(v) for v in x]), t_0=t, t_f=times[0] if len(times) == 1 and o["single"] else list(times))
        kw["u"] = {i: DM(v) for i, v in enumerate(us)} if o["each"] else form(us[0])
        kw["integrator_options"] = {"abstol": 1e-10, "reltol": 1e-10}
        if o["type"]:
            kw["integrator_type"] = o["type"]
            w.probe("other integrator")
        if o["type"] == "cvodes" and sim.ny:
            kw["integrator_type"] = "idas"
        if o["type"] == "collocation":
            kw["integrator_options"] = {"number_of_finite_elements": 40}
        if sim.ny:
            kw["y_0"] = form(y0)
        if o["p"]:
            kw["p"] = form(o["p"])
        if plan["theta"]:
            kw["theta"] = {i: DM([v]) for i, v in enumerate(o["theta"])}
        call = model.simulate
        if o["via"]:
            call = self.problem(w, o, model, kw, times, DM)
        plain = lambda d: {k: ({i: flat(v) for i, v in a.items()} if k in ("u", "theta") and isinstance(a, dict) else (a if isinstance(a, (str, dict, float, int)) else flat(a))) for k, a in d.items()}
        before = copy.deepcopy(plain(kw))
        state["n"], state["fault"] = 0, fault
        fired = sum(w.faults.values())
        error = None
        from sim.lines import LineInterrupt

        try:
            if fault and fault[0] == "line":
                with LineInterrupt(w, ("modelling/system_model.py", "modelling/dae_system.py", "modelling/simulation_result.py", "modelling/dataset.py", "modelling/ocp.py"), fault[1]):
                    r = call(**kw)
            else:
                r = call(**kw)
        except (InjectedError, InjectedInterrupt) as e:
            error = e
        finally:
            state["fault"] = None
        w.require(plain(kw) == before, "arguments-changed", lambda: "{} {}".format(before, plain(kw)))
        w.require((error is not None) == (sum(w.faults.values()) > fired), "failure-hidden", "error {!r}".format(error))
        if error is not None:
            if state["n"] > 1:
                w.probe("failed inside of a sequence")
            return True
        if failed:
            w.probe("after a failure")
        rows = {"x": [(t, list(x))], "y": [], "u": [], "span": (t, times[-1]), "elements": len(times)}
        for i, t1 in enumerate(times):
            x, y, u = sim.step(x, us[i], t, t1 - t, o["p"], o["theta"][i] if plan["theta"] else 0.0)
            t = t1
            rows["x"].append((t, list(x)))
            rows["y"].append((t, list(y)))
            rows["u"].append((t, list(u)))
        item = [r, rows, None]
        self.judge(w, sim, item, "simulated")
        item[2] = self.snapshot(r)
        results.append(item)
        w.event("end", round(t, 3), [round(v, 2) + 0.0 for v in x])
        w.sim_time += rows["span"][1] - rows["span"][0]
        return failed

    def problem(self, w, o, model, kw, times, DM):
        """The same simulation through an optimal control problem."""
        from yaocptool.modelling import OptimalControlProblem

        w.probe("through a problem")
        own = o["via"] == "defaults"
        p = OptimalControlProblem(model, x_0=kw["x_0"] if own else DM.zeros(model.n_x), t_0=kw["t_0"] if own else 0.75, t_f=times[-1] if own else 9.0)
        if own:
            del kw["x_0"], kw["t_0"]
            if not o["each"]:
                p.u_guess = DM(kw.pop("u"))
            if "y_0" in kw:
                p.y_guess = DM(kw.pop("y_0"))
            if len(times) == 1:
                del kw["t_f"]
        elif o["via"] == "elements":
            kw["t_f"] = times[-1]
            kw["finite_elements"] = len(times)
        return p.simulate

    def judge(self, w, sim, item, where):
        r, rows, _ = item
        for name, size in (("x", sim.nx), ("y", sim.ny), ("u", sim.nu)):
            if not size:
                continue
            e = r.data[name]
            want_t = [q[0] for q in rows[name]]
            w.require(near(flat(e.time), want_t, 1e-9), "wrong-result", lambda: "{}: times of {}: {} expected {}".format(where, name, flat(e.time), want_t))
            # (samples at the same time may be in any order)
            got = np.array(flat(e.values)).reshape(-1, size)
            want = np.array([q[1] for q in rows[name]]).reshape(-1, size)
            for k, (g, v) in enumerate(zip(got, want)):
                same = [want[j] for j in range(len(want_t)) if abs(want_t[j] - want_t[k]) < 1e-9]
                w.require(any(near(list(g), list(c), self.TOL) for c in same), "wrong-result", lambda: "{}: {} at {}: {} expected {}".format(where, name, want_t[k], list(g), list(v)))
        w.require(abs(float(r.t_0) - rows["span"][0]) < 1e-9 and abs(float(r.t_f) - rows["span"][1]) < 1e-9, "wrong-result", "{}: from {} to {} expected {}".format(where, r.t_0, r.t_f, rows["span"]))
        w.require(r.finite_elements == rows["elements"], "wrong-result", "{}: {} elements expected {}".format(where, r.finite_elements, rows["elements"]))
        end = r.final_condition()
        if rows["x"]:
            w.require(flat(end["x"]) == flat(r.x[-1]), "wrong-result", "final condition")


PROPS = {"P01": P01, "P02": P02, "P03": P03}
