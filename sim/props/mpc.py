"""M01-M04: the control loop (measure, estimate, optimise, actuate)."""
import copy
import inspect

from sim.core import InjectedError, InjectedInterrupt, Prop, SimClock, Violation
from sim.lines import LineInterrupt

REAL = [
    "yaocptool.mpc.MPC",
    "yaocptool.mpc.PlantSimulation",
    "yaocptool.estimation.IdealEstimator, ExtendedKalmanFilter",
    "yaocptool.methods.DirectMethod",
    "yaocptool.modelling.*",
    "casadi/ipopt/cvodes",
]
SIM = ["the clock", "failures and interruptions of sensor, estimator, optimiser and actuator around the real ones"]


def flat(v):
    from casadi import DM

    return [float(x) for x in DM(v).full().flatten(order="F")]


def near(a, b, tol):
    return len(a) == len(b) and all(abs(x - y) <= tol * (1 + abs(y)) for x, y in zip(a, b))


class Loop:
    """One control loop with the observers and the faults."""

    def __init__(self, w, plan, faults=()):
        from casadi import DM, vertcat
        from yaocptool.estimation.estimator_abstract import EstimatorAbstract
        from yaocptool.estimation.ideal_estimator import IdealEstimator
        from yaocptool.methods import DirectMethod
        from yaocptool.modelling import OptimalControlProblem, SystemModel
        from yaocptool.mpc import MPC, PlantSimulation

        self.w, self.plan = w, plan
        self.log = []
        self.count = {}
        self.faults = {(s, k): kind for s, k, kind in faults}
        self.failed = 0
        self.clock = SimClock(w)
        loop = self
        spec = plan["sys"]
        nx, nu = spec["nx"], spec["nu"]

        def model():
            m = SystemModel(name="m")
            x = m.create_state("x", nx)
            u = m.create_control("u", nu)
            p = m.create_parameter("p", spec["np"]) if spec["np"] else None
            th = m.create_theta("th") if spec["th"] else None
            y = m.create_algebraic_variable("y") if spec["dae"] else None
            ode = []
            for i in range(nx):
                e = sum(spec["A"][i][j] * x[j] for j in range(nx)) + sum(spec["B"][i][j] * u[j] for j in range(nu))
                if y is not None and i == 0:
                    e = e - spec["c"] * y
                if th is not None and i == nx - 1:
                    e = e + spec["th"] * th
                ode.append(e)
            m.include_equations(ode=ode, alg=[y - 0.5 * x[0] - 0.1 * u[0]] if y is not None else None)
            return m, x, u, p

        m, x, u, p = model()
        cost = x.T @ x + spec["r"] * u.T @ u
        if p is not None:
            # the parameters move the set point
            cost = cost + 0.3 * sum((x[i % nx] - p[i]) ** 2 for i in range(spec["np"]))
        ocp = OptimalControlProblem(m, t_f=float(plan["fe"] * plan["t_s"]), x_0=[0.0] * nx, L=cost)
        if plan.get("umax"):
            ocp.u_max = list(plan["umax"])
            ocp.u_min = [-v for v in plan["umax"]]
        if plan.get("dumax"):
            ocp.delta_u_max = list(plan["dumax"])
            ocp.delta_u_min = [-v for v in plan["dumin"]]

        signature = inspect.signature(DirectMethod.solve)

        class Method(DirectMethod):
            def solve(self, *a, **k):
                bound = signature.bind(self, *a, **k).arguments
                args = {
                    n: None if bound.get(n) is None else flat(bound[n])
                    for n in ("x_0", "p", "last_u", "initial_guess")
                }
                args["theta"] = None if bound.get("theta") is None else [flat(bound["theta"][i]) for i in range(plan["fe"])]
                loop.stage("solve", args)
                loop.clock.advance(0.01)
                result = super().solve(*a, **k)
                loop.log[-1][1]["result"] = [flat(v) for v in result.u_data["values"][0]]
                loop.log[-1][1]["success"] = bool(result.success)
                loop.after("solve")
                return result

        class Plant(PlantSimulation):
            def get_measurement(self):
                loop.stage("measure", {})
                t, meas, uk = super().get_measurement()
                loop.log[-1][1].update(t=float(t), meas=flat(meas), u=flat(uk))
                loop.after("measure")
                return t, meas, uk

            def set_control_function(self, u_func):
                loop.stage("send", {"function": u_func, "t": float(self.t)})
                loop.log[-1][1]["values"] = [
                    flat(u_func(self.t + tau * self.t_s)) for tau in loop.taus()
                ]
                super().set_control_function(u_func)
                loop.log[-1][1]["t_after"] = float(self.t)
                loop.w.event("applied", [round(v, 2) + 0.0 for v in flat(self.u)])
                loop.after("send")

            def set_control(self, uk):
                loop.stage("send", {"fixed": flat(uk), "t": float(self.t)})
                super().set_control(uk)
                loop.log[-1][1]["t_after"] = float(self.t)
                loop.w.event("applied", [round(v, 2) + 0.0 for v in flat(self.u)])
                loop.after("send")

        class Ideal(IdealEstimator):
            def estimate(self, t_k, y_k, u_k):
                loop.stage("estimate", {"t": float(t_k), "meas": flat(y_k), "u": flat(u_k)})
                mean, cov = super().estimate(t_k, y_k, u_k)
                loop.log[-1][1].update(mean=flat(mean), cov=flat(cov))
                loop.after("estimate")
                return mean, cov

        class Filter(EstimatorAbstract):
            """With memory, and with a covariance."""

            k = 0

            def estimate(self, t_k, y_k, u_k):
                loop.stage("estimate", {"t": float(t_k), "meas": flat(y_k), "u": flat(u_k)})
                self.k += 1
                mean = DM(y_k)[:nx] * (1 - 0.2 / self.k)
                cov = DM.eye(nx) * (1.0 / self.k) + 0.01 * self.k
                loop.log[-1][1].update(mean=flat(mean), cov=flat(cov))
                loop.after("estimate")
                return mean, cov

        from yaocptool.estimation.extended_kalman_filter import ExtendedKalmanFilter

        class Kalman(ExtendedKalmanFilter):
            def estimate(self, t_k, y_k, u_k):
                loop.stage("estimate", {"t": float(t_k), "meas": flat(y_k), "u": flat(u_k)})
                mean, cov = super().estimate(t_k, y_k, u_k)
                loop.log[-1][1].update(mean=flat(mean), cov=flat(cov))
                loop.after("estimate")
                return mean, cov

        self.method = Method(
            ocp,
            finite_elements=plan["fe"],
            degree=plan["deg"],
            degree_control=plan["dc"],
            nlpsol_opts={"ipopt.tol": 1e-9},
            last_control_as_parameter=plan["lcp"],
        )
        pm, _, _, _ = model()
        noise = {}
        if plan["noise"]:
            noise = dict(has_noise=True, r_n=DM.eye(nx + spec["dae"]) * 1e-4, r_v=DM.eye(nx) * 1e-4, noise_seed=plan["noise"])
        self.plant = Plant(
            pm,
            x_0=DM(spec["x0"]),
            u_0=DM(spec["u0"]),
            y_guess=DM([0.5 * spec["x0"][0]]) if spec["dae"] else None,
            t_0=plan["t_0"],
            t_s=plan["t_s"],
            super_samling=plan["super"],
            verbosity=0,
            **noise
        )
        if spec["np"]:
            self.plant.p = DM.zeros(spec["np"])
        if spec["th"]:
            self.plant.theta = {0: DM([0.0])}
        kwargs = {}
        if plan["cost_state"]:
            kwargs["include_cost_in_state_vector"] = True
            if plan["rearrange"]:
                # the estimator gives the states in another order
                kwargs["state_rearrangement_function"] = lambda v: vertcat(v[0] * 2.0, v[1:])
        else:
            # the cost state is left to the rearrangement
            k = 2.0 if plan["rearrange"] else 1.0
            kwargs["state_rearrangement_function"] = lambda v: vertcat(v[0] * k, *[v[i] for i in range(1, nx)], 0)
        if plan["guess"] is not None:
            fe, deg = plan["fe"], plan["deg"]
            size = fe * (deg + 1) * (nx + 1) + fe * deg * spec["dae"] + fe * plan["dc"] * nu
            kwargs["initial_guess"] = DM([plan["guess"]] * size)
        if spec["th"]:
            kwargs["theta"] = {i: DM([v]) for i, v in enumerate(plan["theta"])}
        if spec["np"]:
            kwargs["p"] = DM(spec["p"])
            if plan["mean_p"]:
                kwargs["mean_as_parameter"] = True
                kwargs["mean_p_indices"] = [tuple(t) for t in plan["mean_p"]]
            if plan["cov_p"]:
                kwargs["covariance_as_parameter"] = True
                kwargs["cov_p_indices"] = [tuple(t) for t in plan["cov_p"]]
        if plan["estimator"] == "filter":
            kwargs["estimator"] = Filter(t_s=plan["t_s"], t=plan["t_0"])
        elif plan["estimator"] == "ekf":
            n_y = nx + spec["dae"]
            kwargs["estimator"] = Kalman(
                model()[0], t_s=plan["t_s"], t=plan["t_0"], x_mean=DM(spec["x0"]), p_k=DM.eye(nx) * 0.1,
                r_v=DM.eye(nx) * 1e-2, r_n=DM.eye(n_y) * 1e-2, c_matrix=DM.eye(n_y),
                y_guess=DM([0.5 * spec["x0"][0]]) if spec["dae"] else DM(0, 1),
            )
        elif plan["estimator"] == "ideal":
            kwargs["estimator"] = Ideal(t_s=plan["t_s"], t_0=plan["t_0"], n_x=nx)
        self.mpc = MPC(self.plant, self.method, verbosity=plan.get("verbosity", 0), **kwargs)
        self.sent = []

    def taus(self):
        dc = self.plan["dc"]
        if dc == 1:
            return [0.0, 0.37, 0.99]
        return self.method.collocation_points(dc, with_zero=False)

    def stage(self, name, data):
        k = self.count.get(name, 0)
        self.count[name] = k + 1
        self.log.append((name, data))
        self.w.step()
        self.w.event(name, k)
        kind = self.faults.get((name, k))
        if kind == "raise":
            self.w.fault(name + " raises")
            data["failed"] = True
            raise InjectedError(name)
        if kind == "interrupt":
            self.w.fault(name + " interrupted")
            data["failed"] = True
            raise InjectedInterrupt()

    def after(self, name):
        """An interruption when the stage has done its work (but of the actuator: it was applied)."""
        if self.faults.get((name, self.count[name] - 1)) == "late":
            self.w.fault(name + " interrupted when done")
            self.log[-1][1]["late"] = True
            raise InjectedInterrupt()

    # --- the iterations, from the log
    def iterations(self):
        """Splits the log at each measurement."""
        out = []
        for name, data in self.log:
            if name == "measure":
                out.append([])
            if not out:
                raise Violation("wrong-order", "{} before any measurement".format(name))
            out[-1].append((name, data))
        return out

    def do(self, op):
        """Returns the error, if there was one."""
        from casadi import DM

        try:
            with self.clock.installed():
                if op[0] == "run":
                    self.mpc.run(op[1])
                else:
                    u = op[2]
                    u = {"list": list(u), "DM": DM(u), "float": float(u[0])}[op[3]]
                    (self.mpc.run_fixed_control if op[0] == "fixed" else self.mpc.run_fixed_control_with_estimator)(u, op[1])
        except (InjectedError, InjectedInterrupt) as e:
            return e
        return None

    def trajectory(self):
        d = self.plant.dataset.data
        return {n: (flat(d[n].time), flat(d[n].values)) for n in ("x", "u", "meas")}


def gen_loop(rng, dc=(1, 1, 2, 3), lcp=None, np=True):
    nx = rng.choice([1, 2, 2, 3])
    nu = rng.choice([1, 1, 2])
    n_p = rng.choice([0, 0, 1, 2]) if np else 0
    spec = {
        "nx": nx,
        "nu": nu,
        "np": n_p,
        "dae": int(rng.random() < 0.3),
        "A": [[round(rng.uniform(-0.5, 0.5) - (1.0 if i == j else 0), 2) for j in range(nx)] for i in range(nx)],
        "B": [[round(rng.uniform(-1, 1), 2) for _ in range(nu)] for _ in range(nx)],
        "c": round(rng.uniform(-0.5, 0.5), 2),
        "r": rng.choice([0.1, 1.0]),
        "x0": [round(rng.uniform(-1, 1), 2) for _ in range(nx)],
        "u0": [round(rng.uniform(-0.3, 0.3), 2) for _ in range(nu)],
        "p": [round(rng.uniform(-1, 1), 2) for _ in range(n_p)],
        "th": rng.choice([0, 0, 0.3]),
    }
    estimator = rng.choice([None, "ideal", "filter", "ekf"])
    if estimator == "ekf" and (n_p or spec["th"]):
        estimator = "filter"
    mean_p, cov_p = [], []
    for i in range(n_p):
        r = rng.random()
        if r < 0.4:
            mean_p.append([rng.randrange(nx), i])
        elif r < 0.6 and estimator == "filter":
            cov_p.append([rng.randrange(nx * nx), i])
    degree_control = rng.choice(dc)
    fe = rng.choice([2, 3, 4])
    return {
        "sys": spec,
        "fe": fe,
        "theta": [round(rng.uniform(-1, 1), 2) for _ in range(fe)] if spec["th"] else None,
        "cost_state": rng.random() < 0.75,
        "guess": rng.choice([None, None, 0.1, 0.2]),
        # (a control with more freedom than the states have points is not determined)
        "deg": max(rng.choice([2, 3]), degree_control),
        "dc": degree_control,
        "lcp": rng.random() < 0.5 if lcp is None else lcp,
        "t_0": rng.choice([0.0, 0.0, 2.5]),
        "t_s": rng.choice([0.5, 1.0]),
        "super": rng.choice([1, 1, 2, 3, [0.5, 1.0]]),
        "noise": rng.choice([0, 0, 1, 7]),
        "estimator": estimator,
        "rearrange": rng.random() < 0.2,
        "mean_p": mean_p,
        "cov_p": cov_p,
        "umax": None,
        "dumax": None,
        "ops": [],
        "faults": [],
    }


def fixed_u(rng, nu, bound=0.5):
    kind = rng.choice(["list", "DM"] + (["float"] if nu == 1 else []))
    return [round(rng.uniform(-bound, bound), 2) for _ in range(nu)], kind


class MProp(Prop):
    chunk = 4
    max_steps = 4000
    components = {"real": REAL, "simulated": SIM}
    shrink_lists = ("ops", "faults")
    assumptions = ["the plant is sampled with the length of the first interval of the control", "solutions are compared with tolerances above that of ipopt"]

    def simplify(self, plan):
        for i, op in enumerate(plan["ops"]):
            if op[1] > 1:
                new = copy.deepcopy(plan)
                new["ops"][i][1] -= 1
                yield new
        for key, value in (("noise", 0), ("super", 1), ("dc", 1), ("rearrange", False), ("guess", None)):
            if plan[key] != value:
                new = copy.deepcopy(plan)
                new[key] = value
                yield new

    def expected_p(self, plan, est):
        if not plan["sys"]["np"]:
            return None
        p = list(plan["sys"]["p"])
        for i, j in plan["mean_p"]:
            p[j] = est["mean"][i]
        for i, j in plan["cov_p"]:
            p[j] = est["cov"][i]
        return p

    def judge_iteration(self, w, plan, loop, it, kind):
        """A complete iteration: the stages, once each and in order, with the data of the previous one."""
        names = [n for n, _ in it]
        want = {"run": ["measure", "estimate", "solve", "send"], "fixed": ["measure", "send"], "fixed_est": ["measure", "estimate", "send"]}[kind]
        if plan["estimator"] is None:
            want = [n for n in want if n != "estimate"]
        w.require(names == want, "wrong-order", "{} expected {}".format(names, want))
        d = dict(it)
        me = d["measure"]
        nx = plan["sys"]["nx"]
        est = d.get("estimate")
        if est is not None:
            for k in ("t", "meas", "u"):
                a, b = est[k], me[k]
                w.require(a == b, "wrong-data", "estimator got {}={}, measured {}".format(k, a, b))
        else:
            est = {"mean": me["meas"][:nx], "cov": [0.0] * nx}
        if kind == "run":
            s = d["solve"]
            x0 = est["mean"] + [0.0]
            if plan["rearrange"]:
                x0 = [2.0 * x0[0]] + x0[1:]
            w.require(s["x_0"] == x0, "wrong-data", "optimised from {} instead of {}".format(s["x_0"], x0))
            w.require(s["last_u"] == me["u"], "wrong-data", "last control {} instead of {}".format(s["last_u"], me["u"]))
            want = plan["theta"] and [[v] for v in plan["theta"]]
            w.require(s["theta"] == want, "wrong-data", "theta {} instead of {}".format(s["theta"], want))
            p = self.expected_p(plan, est)
            w.require(s["p"] == p, "wrong-data", "parameters {} instead of {}".format(s["p"], p))
        send = d["send"]
        w.require(abs(send["t"] - me["t"]) < 1e-12, "wrong-data", "measured at {} control sent at {}".format(me["t"], send["t"]))
        w.require(
            abs(send["t_after"] - me["t"] - plan["t_s"]) < 1e-9,
            "wrong-time",
            "the plant went from {} to {} with sampling time {}".format(me["t"], send["t_after"], plan["t_s"]),
        )
        if kind == "run":
            want = d["solve"]["result"]
            if plan["dc"] == 1:
                want = want * 3
            got = send.get("values") or [send["fixed"]] * len(want)
            for g, v in zip(got, want):
                w.require(near(g, v, 1e-6), "wrong-control", "sent {} (at the control points), the solution has {}".format(got, want))


class M01(MProp):
    pid = "M01"
    quick_runs = 2500
    thorough_runs = 25000
    rule = "One run is a random closed loop of several iterations; every call of sensor, estimator, optimiser and actuator is recorded with its data and judged against the order and the data flow."
    faults = ["measure raises", "measure interrupted", "solve interrupted"]
    probes = ["Kalman filter in the loop", "theta", "ran until stopped", "parameters from the estimate", "control polynomial", "noisy plant"]

    def gen(self, rng, tier):
        plan = gen_loop(rng)
        n = rng.randrange(1, 4)
        plan["ops"] = [["run", rng.choice([1, 2, 3, 4, 0])] for _ in range(n)]
        if any(o[1] == 0 for o in plan["ops"]):
            # runs until something stops it
            i = [o[1] for o in plan["ops"]].index(0)
            plan["ops"] = plan["ops"][: i + 1]
            before = sum(o[1] for o in plan["ops"])
            plan["faults"] = [[rng.choice(["measure", "estimate" if plan["estimator"] else "measure", "solve"]), before + rng.randrange(1, 5), rng.choice(["raise", "interrupt"])]]
        return plan

    def run(self, plan, w):
        loop = Loop(w, plan, plan["faults"])
        want = 0
        stopped = None
        for op in plan["ops"]:
            err = loop.do(op)
            if op[1] == 0:
                w.require(err is not None, "stopped-by-itself", "run without a number of iterations ended")
                w.probe("ran until stopped")
                stage, k, _ = plan["faults"][0]
                want = k
                stopped = stage
            else:
                w.require(err is None, "unexpected-error", repr(err))
                want += op[1]
            done = len([1 for n, d in loop.log if n == "send"])
            w.require(done == want, "wrong-number-of-iterations", "{} controls sent, {} expected".format(done, want))
        its = loop.iterations()
        if stopped:
            last = its.pop()
            w.require(last[-1][0] == stopped, "continued-after-failure", str([n for n, _ in last]))
        w.require(len(its) == want, "wrong-number-of-iterations", "{} {}".format(len(its), want))
        for it in its:
            self.judge_iteration(w, plan, loop, it, "run")
        solves = [d for n, d in loop.log if n == "solve"]
        if plan["guess"] is not None and solves:
            g = solves[0]["initial_guess"]
            w.require(g is not None and all(v == plan["guess"] for v in g), "wrong-data", "the initial guess given was not used first: {}".format(g))
        w.require(loop.mpc.iteration == len(loop.iterations()), "wrong-number-of-iterations", "{} counted, {} done".format(loop.mpc.iteration, len(loop.iterations())))
        n_times = len(loop.mpc.statistics["iteration_time"])
        w.require(n_times == len([d for d in solves if "result" in d]), "wrong-number-of-iterations", "{} optimisations, times of {}".format(len(solves), n_times))
        for a, b in zip(its, its[1:]):
            # the plant's control at the next measurement is what was applied
            w.require(abs(b[0][1]["t"] - a[0][1]["t"] - plan["t_s"]) < 1e-9, "wrong-time", "")
        w.nontrivial = w.nontrivial or want > 1
        if plan["mean_p"] or plan["cov_p"]:
            w.probe("parameters from the estimate")
        if plan["dc"] > 1:
            w.probe("control polynomial")
        if plan["noise"]:
            w.probe("noisy plant")
        if plan["estimator"] == "ekf":
            w.probe("Kalman filter in the loop")
        if plan["theta"]:
            w.probe("theta")


class M02(MProp):
    pid = "M02"
    quick_runs = 2000
    thorough_runs = 25000
    rule = "One run executes a closed loop with failures and interruptions (at stages, or at arbitrary lines of the loop), resumes it each time, and compares the plant with a twin without faults."
    faults = [
        "measure raises", "estimate raises", "solve raises", "send raises", "measure interrupted",
        "estimate interrupted", "solve interrupted", "send interrupted", "measure interrupted when done", "solve interrupted when done",
        "estimate interrupted when done", "send interrupted when done", "interrupt at a line",
    ]
    probes = ["resumed", "several failures in a row"]

    def gen(self, rng, tier):
        plan = gen_loop(rng)
        plan["estimator"] = rng.choice([None, "ideal", "ideal"])
        plan["cov_p"] = []
        plan["noise"] = rng.choice([0, 0, 3])
        n = rng.randrange(2, 5)
        plan["ops"] = [["run", n]]
        if rng.random() < 0.4:
            plan["line"] = [rng.randrange(1, 60) for _ in range(rng.choice([1, 2]))]
        else:
            plan["line"] = []
            for _ in range(rng.randrange(1, 4)):
                plan["faults"].append(
                    [rng.choice(["measure", "estimate", "solve", "send"]), rng.randrange(0, 5), rng.choice(["raise", "interrupt", "late"])]
                )
        return plan

    def run(self, plan, w):
        n = plan["ops"][0][1]
        twin = Loop(w, plan)
        w.require(twin.do(["run", n]) is None, "unexpected-error", "without faults")
        loop = Loop(w, plan, plan["faults"])
        lines = list(plan["line"])
        # the first optimisation is not interrupted at lines (solver reuse is another property)
        row = 0
        attempts = 0
        while True:
            sent = self.applied(loop)
            if sent >= n:
                break
            attempts += 1
            w.require(attempts < 30, "no-progress", "{} controls after {} attempts".format(sent, attempts))
            before = len(loop.log)
            fired = len(w.faults) and sum(w.faults.values())
            if lines:
                with LineInterrupt(w, ("mpc/mpc.py",), lines.pop(0)):
                    err = loop.do(["run", n - sent])
            else:
                err = loop.do(["run", n - sent])
            injected = sum(w.faults.values()) - fired
            w.require((err is None) == (injected == 0), "failure-hidden", "{} failures injected, error {!r}".format(injected, err))
            if err is not None:
                row += 1
                if row > 1:
                    w.probe("several failures in a row")
                # what failed was the last stage that was reached
                part = loop.log[before:]
                bad = [i for i, (s, d) in enumerate(part) if d.get("failed") or d.get("late")]
                w.require(all(i == len(part) - 1 for i in bad), "continued-after-failure", str([s for s, _ in part]))
            else:
                row = 0
        w.require(self.applied(loop) == n, "wrong-number-of-iterations", "{} controls applied, {} wanted".format(self.applied(loop), n))
        if attempts > 1:
            w.probe("resumed")
        # every control applied follows from a complete iteration
        for it in loop.iterations():
            if it[-1][0] == "send" and "t_after" in it[-1][1]:
                self.judge_iteration(w, plan, loop, it, "run")
            else:
                names = [s for s, _ in it]
                full = ["measure", "estimate", "solve", "send"] if plan["estimator"] else ["measure", "solve", "send"]
                w.require(names == full[: len(names)], "wrong-order", str(names))
        a, b = twin.trajectory(), loop.trajectory()
        for name in ("x", "u", "meas"):
            w.require(near(b[name][0], a[name][0], 1e-9), "different-after-failure", "times of {}: {} {}".format(name, b[name][0], a[name][0]))
            w.require(near(b[name][1], a[name][1], 1e-4), "different-after-failure", "{}: {} without faults {}".format(name, b[name][1], a[name][1]))

    def applied(self, loop):
        return len([1 for s, d in loop.log if s == "send" and "t_after" in d])


class M03(MProp):
    pid = "M03"
    quick_runs = 3000
    thorough_runs = 25000
    rule = "One run interleaves runs with fixed control (with and without estimator, several forms of the control) and optimised runs; applied controls, records and calls are judged."
    faults = ["measure raises", "send raises", "estimate raises", "solve raises"]
    probes = ["fixed after optimised", "optimised after fixed", "fixed with estimator"]

    def gen(self, rng, tier):
        plan = gen_loop(rng)
        plan["lcp"] = rng.random() < 0.5
        for _ in range(rng.randrange(1, 5)):
            r = rng.random()
            if r < 0.35:
                plan["ops"].append(["run", rng.choice([1, 2])])
            else:
                u, kind = fixed_u(rng, plan["sys"]["nu"])
                plan["ops"].append([rng.choice(["fixed", "fixed_est"]), rng.choice([0, 1, 1, 2, 3]), u, kind])
        if rng.random() < 0.3:
            plan["faults"] = [[rng.choice(["measure", "send", "estimate", "solve"]), rng.randrange(0, 4), "raise"]]
        return plan

    def run(self, plan, w):
        loop = Loop(w, plan, plan["faults"])
        prev = None
        for op in plan["ops"]:
            start = len(loop.log)
            t_before = float(loop.plant.t)
            k_before = len(flat(loop.plant.dataset.data["u"].time))
            err = loop.do(op)
            part = loop.log[start:]
            n_sent = len([1 for s, d in part if s == "send" and "t_after" in d])
            if err is None:
                w.require(n_sent == op[1], "wrong-number-of-iterations", "{} {}".format(n_sent, op))
            w.require(abs(float(loop.plant.t) - t_before - n_sent * plan["t_s"]) < 1e-9, "wrong-time", str(op))
            groups = []
            for s, d in part:
                if s == "measure":
                    groups.append([])
                w.require(groups, "wrong-order", "{} before a measurement".format(s))
                groups[-1].append((s, d))
            if err is not None:
                groups.pop()
            w.require(len(groups) == n_sent, "wrong-order", str([s for s, _ in part]))
            for g in groups:
                self.judge_iteration(w, plan, loop, g, op[0])
            if op[0] != "run":
                w.require(not any(s == "solve" for s, _ in part), "wrong-order", "the optimiser was called")
                for g in groups:
                    s = g[-1][1]
                    got = s.get("fixed") or s["values"][0]
                    w.require(near(got, op[2], 1e-12), "wrong-control", "sent {} given {}".format(got, op[2]))
                # what the plant really applied, from its record
                nu = plan["sys"]["nu"]
                us = flat(loop.plant.dataset.data["u"].values)[k_before * nu :]
                for i in range(0, len(us), nu):
                    w.require(near(us[i : i + nu], op[2], 1e-9), "wrong-control", "plant applied {} given {}".format(us[i : i + nu], op[2]))
                if op[0] == "fixed_est" and n_sent:
                    w.probe("fixed with estimator")
            if n_sent:
                if prev == "run" and op[0] != "run":
                    w.probe("fixed after optimised")
                if prev and prev != "run" and op[0] == "run":
                    w.probe("optimised after fixed")
                prev = op[0]
        w.nontrivial = w.nontrivial or len(plan["ops"]) > 1


class M04(MProp):
    pid = "M04"
    quick_runs = 2400
    thorough_runs = 25000
    rule = "One run is a closed loop with bounds and rate limits on the controls, noise, fixed control periods and failures; the controls that the plant applied are judged."
    faults = ["measure raises", "solve raises", "solve interrupted"]
    probes = ["bound active", "rate limit active", "after a fixed control", "solver failed"]

    def gen(self, rng, tier):
        plan = gen_loop(rng, dc=(1,), lcp=True)
        nu = plan["sys"]["nu"]
        plan["sys"]["x0"] = [round(3 * v, 2) for v in plan["sys"]["x0"]]
        plan["sys"]["r"] = 0.1
        plan["umax"] = [rng.choice([0.2, 0.4, 1.0]) for _ in range(nu)]
        plan["sys"]["u0"] = [round(rng.uniform(-u, u), 2) for u in plan["umax"]]
        if rng.random() < 0.8:
            plan["dumax"] = [rng.choice([0.05, 0.1, 0.3]) for _ in range(nu)]
            plan["dumin"] = [rng.choice([0.05, 0.1, 0.3]) for _ in range(nu)]
        plan["noise"] = rng.choice([0, 1, 2, 9])
        for _ in range(rng.randrange(1, 4)):
            if rng.random() < 0.7:
                plan["ops"].append(["run", rng.choice([1, 2, 3, 4])])
            else:
                u, kind = fixed_u(rng, nu)
                u = [round(v * 2 * m, 3) for v, m in zip(u, plan["umax"])]
                plan["ops"].append([rng.choice(["fixed", "fixed_est"]), rng.choice([1, 2]), u, kind])
        if rng.random() < 0.4:
            plan["faults"] = [[rng.choice(["measure", "solve", "solve"]), rng.randrange(0, 5), rng.choice(["raise", "interrupt", "late"])]]
        return plan

    def run(self, plan, w):
        loop = Loop(w, plan, plan["faults"])
        nu = plan["sys"]["nu"]
        for op in plan["ops"]:
            start = len(loop.log)
            previous = flat(loop.plant.u)
            loop.do(op)
            ok = True
            for s, d in loop.log[start:]:
                if s == "solve":
                    ok = d.get("success", False)
                    if not ok:
                        w.probe("solver failed")
                if s != "send" or "t_after" not in d:
                    continue
                if op[0] != "run":
                    previous = d.get("fixed") or d["values"][0]
                    w.probe("after a fixed control")
                    continue
                u = d["values"][0] if "values" in d else d["fixed"]
                w.nontrivial = True
                if ok:
                    for i in range(nu):
                        tol = 1e-5
                        w.require(abs(u[i]) <= plan["umax"][i] + tol, "bound-violated", "control {} with bounds +-{}".format(u, plan["umax"]))
                        if abs(u[i]) > plan["umax"][i] - 1e-3:
                            w.probe("bound active")
                        if plan["dumax"]:
                            du = u[i] - previous[i]
                            w.require(
                                -plan["dumin"][i] - tol <= du <= plan["dumax"][i] + tol,
                                "rate-violated",
                                "control from {} to {} with limits -{} +{}".format(previous, u, plan["dumin"], plan["dumax"]),
                            )
                            if du > plan["dumax"][i] - 1e-3 or du < -plan["dumin"][i] + 1e-3:
                                w.probe("rate limit active")
                previous = u
            # what the plant applied and recorded
            w.require(near(flat(loop.plant.u), previous, 1e-7), "wrong-control", "plant has {} sent {}".format(flat(loop.plant.u), previous))


PROPS = {c.pid: c for c in (M01, M02, M03, M04)}
