"""E01, E02: Kalman filters, as long-lived objects with failing predictions and bad sensors."""
import copy

import numpy as np
from scipy.linalg import expm

from sim import linsys
from sim.core import Discard, InjectedError, InjectedInterrupt, Prop
from sim.props.mpc import flat, near
from sim.props.plant import model_class


class Reference:
    def __init__(self, plan):
        self.s = linsys.LinSys(plan["sys"])
        self.C = np.array(plan["C"], float)
        self.D = np.array(plan["D"], float) if plan["D"] else np.zeros((len(self.C), self.s.nu))
        self.Q, self.R = np.diag(plan["Q"]).astype(float), np.diag(plan["R"]).astype(float)
        self.x = np.array(plan["x0"], float)
        self.P = np.array(plan["P0"], float)
        self.t, self.t_s, self.p = plan["t_0"], plan["t_s"], plan["p"]

    def predict(self, u):
        x = self.s.step(self.x, u, self.t, self.t_s, self.p)
        return x, self.s.algebraic(x, u)

    def meas(self, x, y, u):
        return self.C @ np.concatenate([x, y]) + self.D @ np.array(u)


class EKFReference(Reference):
    """Mandela et al. (2009): the covariance of [x; y] is propagated."""

    def __init__(self, plan, eps=0.0):
        super().__init__(plan)
        n = self.s.nx + self.s.ny
        self.eps = eps * np.array([[(-1) ** (i + 2 * j) for j in range(n)] for i in range(n)])
        self.Pa = np.eye(n)
        self.Pa[: self.s.nx, : self.s.nx] = self.P

    def estimate(self, z, u):
        nx = self.s.nx
        x, y = self.predict(u)
        # y = C1 x + D1 u  =>  dy/dt = C1 dx/dt
        A = np.zeros((nx + self.s.ny,) * 2)
        A[:nx, :nx] = self.s.A
        A[:nx, nx:] = self.s.E
        A[nx:, :] = self.s.C1 @ A[:nx, :]
        F = expm(A * self.t_s) * (1 + self.eps) + self.eps
        G = np.vstack([np.eye(nx), self.s.C1])
        P = F @ self.Pa @ F.T + G @ self.Q @ G.T
        K = P @ self.C.T @ np.linalg.inv(self.C @ P @ self.C.T + self.R)
        xa = np.concatenate([x, y]) + K @ (np.array(z) - self.meas(x, y, u))
        self.Pa = (np.eye(len(A)) - K @ self.C) @ P
        self.x, self.P = xa[:nx], self.Pa[:nx, :nx]
        self.t += self.t_s
        return self.x, self.P


class SamplingReference(Reference):
    """What unscented and polynomial chaos filters do exactly on linear systems: moments of
    the propagated prior, process noise added to the predicted covariance."""

    def estimate(self, z, u):
        x, y = self.predict(u)
        F = self.s.transition(self.t_s)
        H = self.C @ np.vstack([np.eye(self.s.nx), self.s.C1])
        Pp = F @ self.P @ F.T
        S = H @ Pp @ H.T + self.R
        K = Pp @ H.T @ np.linalg.inv(S)
        self.x = x + K @ (np.array(z) - self.meas(x, y, u))
        self.P = Pp + self.Q - K @ S @ K.T
        self.t += self.t_s
        return self.x, self.P


class EProp(Prop):
    chunk = 5
    filters = ()
    tol = 2e-5
    faults = ["integrator fails", "integrator interrupted", "interrupted after integrating", "outlier", "measurement repeated"]
    probes = ["estimate repeated after a failure", "two filters on one model", "algebraic variables", "time dependent model"]
    shrink_lists = ("steps", "faults")
    components = {"real": ["yaocptool.estimation.*", "yaocptool.modelling.SystemModel.simulate", "cvodes/idas"], "simulated": ["measurements (with outliers and repetitions)", "failures of the integrator"]}
    assumptions = ["linear systems (with a sinusoidal disturbance), where the reference recursion is exact", "one measurement per sampling interval"]

    def gen(self, rng, tier):
        sys = linsys.gen(rng, nx=rng.choice([1, 2, 2, 3]) if self.max_nx == 3 else rng.choice([1, 2]))
        nx, ny, nu = sys["nx"], sys["ny"], sys["nu"]
        m = rng.choice([1, 1, 2])
        mat = lambda r, c: [[round(rng.uniform(-1, 1), 2) for _ in range(c)] for _ in range(r)]
        L = np.tril(np.array(mat(nx, nx)))
        P0 = L @ L.T + 0.2 * np.eye(nx)
        steps = []
        for _ in range(rng.randrange(1, 7)):
            steps.append([[round(rng.uniform(-1, 1), 2) for _ in range(m)], [round(rng.uniform(-1, 1), 2) for _ in range(nu)], rng.choice(["", "", "", "outlier", "repeat"])])
        return {
            "sys": sys,
            "filters": [rng.choice(self.filters) for _ in range(rng.choice([1, 1, 2]))],
            "C": mat(m, nx + ny),
            "D": mat(m, nu) if rng.random() < 0.3 else None,
            "h": rng.random() < 0.25,
            "Q": [rng.choice([0.0, 0.01, 0.3]) for _ in range(nx)],
            "R": [rng.choice([0.01, 0.2, 1.0]) for _ in range(m)],
            "x0": [round(rng.uniform(-1, 1), 2) for _ in range(nx)],
            "P0": [[round(float(v), 4) for v in r] for r in P0],
            "p": [round(rng.uniform(-1, 1), 2) for _ in range(sys["np"])],
            "t_0": rng.choice([0.0, 0.0, 1.5]),
            "t_s": rng.choice([0.2, 0.5, 1.0]),
            "steps": steps,
            "faults": [[rng.randrange(0, 25), rng.choice(["raise", "interrupt", "late"])] for _ in range(rng.choice([0, 1, 1, 2]))],
        }

    def create(self, kind, plan, model):
        from casadi import DM, Function, SX, mtimes, vertcat
        from yaocptool.estimation.extended_kalman_filter import ExtendedKalmanFilter
        from yaocptool.estimation.pce_kalman_filter import PCEKalmanFilter
        from yaocptool.estimation.unscented_kalman_filter import UnscentedKalmanFilter

        s = plan["sys"]
        kw = dict(
            t_s=plan["t_s"], t=plan["t_0"], x_mean=DM(plan["x0"]), p_k=DM(plan["P0"]),
            r_v=DM(np.diag(plan["Q"])), r_n=DM(np.diag(plan["R"])),
            y_guess=DM(linsys.LinSys(s).algebraic(plan["x0"], [0] * s["nu"])) if s["ny"] else DM(0, 1),
        )
        if plan["p"]:
            kw["p"] = DM(plan["p"])
        if plan["h"]:
            x, y, u = SX.sym("x", s["nx"]), SX.sym("y", s["ny"]), SX.sym("u", s["nu"])
            e = mtimes(DM(plan["C"]), vertcat(x, y))
            if plan["D"]:
                e += mtimes(DM(plan["D"]), u)
            kw["h_function"] = Function("h", [x, y, u], [e])
        else:
            kw["c_matrix"] = DM(plan["C"])
            if plan["D"]:
                kw["d_matrix"] = DM(plan["D"])
        cls = {"ekf": ExtendedKalmanFilter, "ukf": UnscentedKalmanFilter, "pce": PCEKalmanFilter}[kind]
        return cls(model, **kw)

    def snapshot(self, f):
        d = f.dataset.data
        return [flat(f.x_mean), flat(f.p_k), float(f.t)] + [
            (n, flat(e.time) if e.time is not None else [], flat(e.values) if e.values is not None else []) for n, e in sorted(d.items())
        ]

    def run(self, plan, w):
        from casadi import DM
        from yaocptool import config

        config.INTEGRATOR_OPTIONS.update(abstol=1e-10, reltol=1e-10)
        state = {"calls": 0, "faults": {k: kind for k, kind in plan["faults"]}, "w": w}
        base = linsys.LinSys(plan["sys"])
        model = base.model(model_class(state))
        nx = base.nx
        filters = [(k, self.create(k, plan, model), (EKFReference if k == "ekf" else SamplingReference)(plan)) for k in plan["filters"]]
        if len(filters) > 1:
            w.probe("two filters on one model")
        if base.ny:
            w.probe("algebraic variables")
        if base.d.any():
            w.probe("time dependent model")
        # the transition matrix comes from an integrator with default tolerances
        others = {i: [EKFReference(plan, e) for e in (1e-6, -1e-6)] for i, k in enumerate(plan["filters"]) if k == "ekf"}
        queue = [list(range(len(plan["steps"]))) for _ in filters]
        kept = [[] for _ in filters]
        recs = [[] for _ in filters]
        worst = [0.0 for _ in filters]
        prev = None
        while any(queue):
            ready = [i for i in range(len(filters)) if queue[i]]
            i = ready[w.choose(len(ready), "filter")]
            kind, f, ref = filters[i]
            n = queue[i].pop(0)
            z, u, bad = plan["steps"][n]
            if bad == "outlier":
                w.fault("outlier")
                z = [v + 50.0 for v in z]
            elif bad == "repeat" and n:
                w.fault("measurement repeated")
                z = plan["steps"][n - 1][0]
            t_k = plan["t_0"] + (n + 1) * plan["t_s"]
            zd, ud = DM(z), DM(u)
            while True:
                before = self.snapshot(f)
                fired = sum(w.faults.values())
                try:
                    mean, cov = f.estimate(t_k, zd, ud)
                    break
                except (InjectedError, InjectedInterrupt):
                    w.require(sum(w.faults.values()) > fired, "unexpected-error", kind)
                    w.require(self.snapshot(f) == before, "changed-by-failure", "the {} changed although its prediction failed".format(kind))
                    w.probe("estimate repeated after a failure")
                except RuntimeError as e:
                    if "IDACalcIC" not in str(e):
                        raise
                    w.require(self.snapshot(f) == before, "changed-by-failure", "the {} changed although its prediction failed".format(kind))
                    raise Discard("the integrator did not find initial values with these tolerances")
            w.require(sum(w.faults.values()) == fired, "failure-hidden", "a prediction failed, and the {} gave an estimate".format(kind))
            w.require(flat(zd) == z and flat(ud) == u, "arguments-changed", kind)
            x, P = ref.estimate(z, u)
            spread = [o.estimate(z, u) for o in others.get(i, [])]
            dx = 30 * max([np.abs(a - x).max() for a, _ in spread] or [0.0])
            dP = 30 * max([np.abs(b - P).max() for _, b in spread] or [0.0])
            # errors of the gain are multiplied by the innovation
            worst[i] = max([worst[i], max(abs(x))] + [abs(v) for v in z])
            scale = 1 + worst[i]
            gx, gP = flat(mean), np.array(flat(cov))
            w.event(kind, n, [round(v, 2) + 0.0 for v in gx])
            w.require(len(gx) == nx and max(abs(np.array(gx) - x)) < self.tol * scale + dx, "wrong-estimate", "{} step {}: {} expected {}".format(kind, n, gx, list(x)))
            w.require(len(gP) == nx * nx, "wrong-covariance", "size {}".format(len(gP)))
            gP = gP.reshape(nx, nx)
            w.require(
                np.abs(gP - P).max() < self.tol * (1 + np.abs(P).max()) + dP,
                "wrong-covariance",
                "{} step {}: {} expected {}".format(kind, n, gP.tolist(), P.tolist()),
            )
            w.require(np.abs(gP - gP.T).max() < 1e-6 * (1 + np.abs(P).max()) and np.linalg.eigvalsh((gP + gP.T) / 2).min() > -1e-6, "not-a-covariance", str(gP))
            kept[i].append((mean, gx, cov, gP))
            recs[i].append((t_k, gx, gP))
            if prev is not None and prev != i:
                w.nontrivial = True
            prev = i
            w.sim_time += plan["t_s"]
        for i, (kind, f, _) in enumerate(filters):
            for mean, gx, cov, gP in kept[i]:
                w.require(flat(mean) == gx and np.array_equal(np.array(flat(cov)).reshape(nx, nx), gP), "estimate-changed-later", kind)
            d = f.dataset.data
            w.require(near(flat(d["x"].time), [r[0] for r in recs[i]], 1e-12), "wrong-record", "times of {}".format(kind))
            w.require(flat(d["x"].values) == [v for r in recs[i] for v in r[1]], "wrong-record", "estimates of {}".format(kind))
            w.require(near(flat(d["P"].values), [v for r in recs[i] for v in r[2].flatten()], 1e-9), "wrong-record", "covariances of {}".format(kind))

    def simplify(self, plan):
        if len(plan["filters"]) > 1:
            for k in plan["filters"]:
                new = copy.deepcopy(plan)
                new["filters"] = [k]
                yield new


class E01(EProp):
    pid = "E01"
    quick_runs = 2800
    thorough_runs = 20000
    filters = ("ekf",)
    max_nx = 3
    rule = "One run feeds extended Kalman filters (one or two on the same model) with measurements, outliers and failing predictions, and compares each estimate with the exact recursion."


class E02(EProp):
    pid = "E02"
    quick_runs = 180
    thorough_runs = 12000
    filters = ("ukf", "ukf", "pce")
    max_nx = 2
    tol = 2e-4
    rule = "One run feeds unscented and polynomial chaos Kalman filters (one or two on the same model) with measurements, outliers and failing predictions, and compares each estimate with the exact recursion."


PROPS = {"E01": E01, "E02": E02}
