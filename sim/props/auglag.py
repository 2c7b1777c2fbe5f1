"""A01: constraints relaxed by an augmented Lagrangian, with failures of the inner solves."""
import copy
import math

import numpy as np

from sim.core import Discard, InjectedError, InjectedInterrupt, Prop, Violation
from sim.lines import LineInterrupt
from sim.props.mpc import flat, near
from sim.props.solver import LOOSE, OPTS, Reference, call_args, gen_args, gen_problem, given_theta, linsys, make_problem, more, nums, trajectories, vec

def spy_class(w, log):
    """The solver of the relaxed problems is chosen by the user of the class: this one is observed and fails on demand."""
    from yaocptool.methods import DirectMethod

    class Inner(DirectMethod):
        def call_solver(self, *a, **k):
            w.step()
            kind = log["faults"].pop(log["n"], None)
            log["n"] += 1
            names = ["initial_guess", "p", "theta", "x_0", "last_u", "initial_guess_dict"]
            k.update(zip(names, a))
            call = {"p": flat(k["p"]) if k.get("p") is not None else [], "theta": {e: flat(v) for e, v in (k.get("theta") or {}).items()}, "result": None}
            log["calls"].append(call)
            if kind == "raise":
                w.fault("inner solve raises")
                raise InjectedError("inner solver")
            if kind == "interrupt":
                w.fault("interrupt before an inner solve")
                raise InjectedInterrupt()
            out = super().call_solver(**k)
            if kind == "late":
                w.fault("interrupt after an inner solve")
                raise InjectedInterrupt()
            raw = out[0]
            if kind == "fail":
                w.fault("inner solve not successful")
                raw["stats"] = dict(raw["stats"], success=False, return_status="Injected_Failure")
            args = [copy.deepcopy(v) for v in out[1:4]]
            call["result"] = self.create_optimization_result(dict(raw), *args)
            call["success"] = bool(raw["stats"]["success"])
            return out

    return Inner


class State:
    """Multipliers, penalties and last violations, as they follow from the solves."""

    def __init__(self, nu, mu, last=None):
        self.nu, self.mu, self.last = nu, mu, last

    def updates(self, o, viol):
        """The states after a solve with these violations (several when a comparison is too close to tell)."""
        err = [float(np.abs(viol[:, i, :]).max()) for i in range(viol.shape[1])]
        last = self.last
        options = [[]]
        for i in range(len(err)):
            here = [(True, True)]
            if last is not None:
                nus = decide(last[i] - err[i], last[i]) if o["only_update_if_improve"] else [True]
                mus = decide(err[i] - o["mu_min_error_decrease"] * last[i], last[i]) if o["mu_update_rule"] == "primal" else [True]
                here = [(a, b) for a in nus for b in mus]
            options = [c + [h] for c in options for h in here][:64]
        out = []
        for c in options:
            nu, mu = self.nu.copy(), self.mu.copy()
            for i, (improved, slow) in enumerate(c):
                if improved:
                    nu[:, i, :] += self.mu[i] * viol[:, i, :]
                if o["mu_update_rule"] == "bounded-increase" or (o["mu_update_rule"] == "primal" and last is not None and slow):
                    mu[i] = min(o["mu_max"], mu[i] * o["beta"])
            out.append(State(nu, mu, err))
        return out

    def key(self):
        r = lambda v: tuple(round(float(x), 9) for x in np.ravel(v))
        return r(self.nu), r(self.mu), None if self.last is None else r(self.last)


def distinct(states):
    return list({s.key(): s for s in reversed(states)}.values())[::-1][:200]


def decide(difference, scale):
    """difference > 0?"""
    if abs(difference) <= 1e-9 + 1e-6 * scale:
        return [True, False]
    return [difference > 0]


def same(x, y):
    return np.abs(x - y) <= 1e-6 * (1 + np.abs(y))


class A01(Prop):
    pid = "A01"
    quick_runs = 2200
    thorough_runs = 40000
    chunk = 2
    max_steps = 10**6
    rule = "One run is a history of solves of one or two augmented Lagrangians (which constraints are relaxed, penalty rules, limits and arguments are drawn), with failing, unsuccessful and interrupted inner solves; a reference model follows the multipliers and penalties."
    faults = ["inner solve raises", "interrupt before an inner solve", "interrupt after an inner solve", "inner solve not successful", "interrupt at a line"]
    probes = ["tolerance met", "iteration limit reached", "tolerance met after a failure", "last inner solve not successful", "algebraic relaxed", "equality relaxed", "state bounds relaxed", "optimum reached", "two augmented Lagrangians", "only if improved"]
    shrink_lists = ("ops",)
    components = {"real": ["yaocptool.methods.AugmentedLagrangian", "yaocptool.methods.DirectMethod (collocation)", "ipopt"], "simulated": ["failures and interrupts of the inner solves"]}
    assumptions = ["linear models with convex cost", "inner solves that are not successful still count for the multipliers, as the library does"]

    def gen(self, rng, tier):
        P = gen_problem(rng, scheme="collocation")
        P["sys"] = linsys.gen(rng, nx=rng.choice([1, 2]), ny=rng.choice([0, 1, 1, 2, 2]))
        nx, nu, ny = (P["sys"][k] for k in ("nx", "nu", "ny"))
        u = lambda a, b: round(rng.uniform(a, b), 2)
        P["q"], P["ref"], P["r"] = [u(0.1, 2) for _ in range(nx)], [u(-1, 1) for _ in range(nx)], [u(0.05, 1) for _ in range(nu)]
        P["ge"] = [u(-0.5, 0.5), u(0.6, 1.2), u(-0.4, 0.4), "default"]
        if rng.random() < 0.5:
            P["q2"] = P["to2"] = None
            more(rng, P)
        P["last"] = P["du"] = None
        if rng.random() < 0.6:
            P["gi"] = P["hf"] = None
            P["gis"] = []
        P["icp"] = P["dm"] = True
        P["dc"] = P["degree"] if rng.random() < 0.8 else 1
        relax = {"alg": [], "eq": False, "states": False}
        while not (relax["alg"] or relax["eq"] or relax["states"]):
            relax["alg"] = rng.sample(range(ny), rng.randrange(ny + 1))
            relax["eq"] = rng.random() < 0.4
            relax["states"] = rng.random() < 0.4
        relax["var"] = rng.sample(relax["alg"], len(relax["alg"])) if rng.random() < 0.4 else None
        if relax["alg"] == list(range(ny)) and rng.random() < 0.4:
            relax["all"] = True
        if relax["eq"]:
            P["umin"] = P["umax"] = P["ymax"] = P["ymin"] = P["du"] = P["gi"] = P["hf"] = None
            P["gis"] = []
            relax["eqs"] = [0]
            if nu == 2 and rng.random() < 0.6:
                P["ge2"] = [u(-0.5, 0.5), u(0.6, 1.2), u(-0.4, 0.4), "default"]
            if P.get("ge2"):
                relax["eqs"] = rng.choice([[0], [1], [0, 1], [1, 0]])
                for i, k in enumerate(("ge2", "ge")):  # (a constant control cannot do it at several points)
                    P[k][3] = "default" if i in relax["eqs"] or (P["dc"] != 1 and rng.random() < 0.5) else "end"
        else:
            P["ge"] = P["ge2"] = None
        if rng.random() < 0.6 or not relax["alg"]:
            P["ymax"] = P["ymin"] = None
        if relax["states"] and P["xmax"] is None and P["xmin"] is None:
            P[rng.choice(["xmax", "xmin"])] = 0.9
            P["xmin"] = -0.9 if P["xmin"] is not None else None
        if relax["states"]:
            P["free"] = False  # (their bounds are relaxed after the initial time only)
            if rng.random() < 0.6:  # (so that they matter)
                P["ref"] = [v + rng.choice([-1.5, 1.5]) for v in P["ref"]]
                P["r"] = [round(v * 0.2, 3) for v in P["r"]]
            P["guess"] = None  # (refused: there is no guess for the states that become controls)
        else:
            P["xmax"] = P["xmin"] = None
        al = {
            "max_iter": rng.choice([1, 2, 3, 4, 15, 25]),
            "tol": rng.choice([1e-3, 1e-4, 1e-5]),
            "mu_0": rng.choice([1.0, 5.0, 20.0]),
            "mu_max": rng.choice([10.0, 300.0, 1e3, 1e3]),
            "beta": rng.choice([1.5, 2.0, 4.0]),
            "mu_update_rule": rng.choice(["constant", "bounded-increase", "primal", "primal"]),
            "mu_min_error_decrease": rng.choice([0.5, 0.25]),
            "only_update_if_improve": rng.random() < 0.25,
        }
        n_m = rng.choice([1, 1, 1, 2])
        where = [rng.choice(["options", "solver", "both"]) for _ in range(n_m)]
        ops = []
        pool = [gen_args(rng, P, omit=False) for _ in range(rng.choice([1, 2]))]
        for _ in range(rng.randrange(1, 4)):
            faults = []
            if rng.random() < 0.6:
                for _ in range(rng.choice([1, 1, 2])):
                    faults.append([rng.randrange(min(al["max_iter"], 8)), rng.choice(["raise", "interrupt", "late", "fail", "fail"])])
            line = int(math.exp(rng.uniform(0, math.log(40000)))) if rng.random() < 0.2 else None
            ops.append([rng.randrange(n_m), rng.choice(pool), faults, line])
        nu0 = u(-1, 1) if rng.random() < 0.2 else 0
        return {"P": P, "relax": relax, "al": al, "where": where, "fe2": rng.choice([1, 2, 3]), "ops": ops, "nu0": nu0, "instance": rng.random() < 0.2}

    def simplify(self, plan):
        for k in ("umax", "umin"):
            if plan["P"][k] is not None:
                new = copy.deepcopy(plan)
                new["P"][k] = None
                yield new
        for k in ("v", "s"):
            if plan["P"][k]:
                new = copy.deepcopy(plan)
                new["P"][k] = 0
                yield new
        for i, op in enumerate(plan["ops"]):
            for j in range(len(op[2])):
                new = copy.deepcopy(plan)
                del new["ops"][i][2][j]
                yield new
            if op[3] is not None:
                new = copy.deepcopy(plan)
                new["ops"][i][3] = None
                yield new
        if len(plan["where"]) > 1:
            new = copy.deepcopy(plan)
            new["where"] = new["where"][:1]
            for op in new["ops"]:
                op[0] = 0
            yield new

    # ------------------------------------------------------------------ run
    def run(self, plan, w):
        from casadi import DM
        from yaocptool.methods import AugmentedLagrangian
        from yaocptool.methods.augmented_lagrangian import AugmentedLagrangianOptions

        relax = plan["relax"]
        for k, name in (("alg", "algebraic relaxed"), ("eq", "equality relaxed"), ("states", "state bounds relaxed")):
            if relax[k]:
                w.probe(name)
        if plan["al"]["only_update_if_improve"]:
            w.probe("only if improved")
        methods = []
        shared = {"nlpsol_opts": dict(OPTS), "initial_guess_heuristic": plan["P"]["heuristic"]}  # given to all
        if len(plan["where"]) > 1:
            w.probe("two augmented Lagrangians")
        for i, where in enumerate(plan["where"]):
            P = copy.deepcopy(plan["P"])
            if i:
                P["fe"] = plan["fe2"]
            if P["dc"] != 1:
                P["dc"] = P["degree"]
            size = {"degree": P["degree"], "finite_elements": P["fe"]}
            so = shared if where == "options" else dict(shared, **size)
            opt = dict(plan["al"], **(size if where != "solver" else {}))
            ocp = make_problem(P)
            log = {"n": 0, "faults": {}, "calls": []}
            cls = spy_class(w, log)
            cls.degree_control = P["dc"]
            sys = linsys.LinSys(P["sys"])
            bounded = [i for i in range(sys.nx) if vec(P["xmax"], sys.nx)[i] is not None or vec(P["xmin"], sys.nx)[i] is not None] if relax["states"] else []
            rows = [("alg", i) for i in relax["alg"]] + [("state", i) for i in bounded] + ([("eq", i) for i in relax["eqs"]] if relax["eq"] else [])
            kw = {}
            if plan["nu0"]:
                kw["nu"] = {e: DM([plan["nu0"]] * (len(rows) * P["degree"])) for e in range(P["fe"])}
            before = copy.deepcopy((so, opt))
            if relax["var"] is not None:
                kw["relax_algebraic_var_index"] = list(relax["var"])
            if not relax.get("all"):
                kw["relax_algebraic_index"] = list(relax["alg"])
            al = AugmentedLagrangian(
                ocp, cls, solver_options=so, options=AugmentedLagrangianOptions(**opt) if plan["instance"] else opt, relax_state_bounds=relax["states"],
                relax_time_equality_index=list(relax["eqs"]) if relax["eq"] else None, no_update_after_solving=False, **kw)
            if P.get("guess"):
                g, var = P["guess"], relax["var"] if relax["var"] is not None else relax["alg"]
                want = g["u"] + [g["y"][i] for i in var]
                w.require(near(flat(ocp.u_guess), want, 1e-12), "wrong-guess", lambda: "the controls have the guesses {} expected {}".format(ocp.u_guess, want))
                rest = [v for i, v in enumerate(g["y"] or []) if i not in var]
                w.require(near(flat(ocp.y_guess) if ocp.y_guess is not None else [], rest, 1e-12), "wrong-guess", lambda: "the algebraic variables have the guesses {} expected {}".format(ocp.y_guess, rest))
            w.require((so, opt) == before, "arguments-changed", lambda: "options {} were {}".format((so, opt), before))
            state = State(np.full((P["fe"], len(rows), P["degree"]), float(plan["nu0"])), np.full(len(rows), plan["al"]["mu_0"]))
            methods.append({"P": P, "al": al, "log": log, "sys": sys, "rows": rows, "states": [state], "started": False, "maybe_broken": False, "ref": None, "failed": False, "torn": None})
        results = []
        for i, a, faults, line in plan["ops"]:
            m = methods[i % len(methods)]
            a = copy.deepcopy(a)
            if a["theta"]:
                a["theta"] = (a["theta"] * 3)[: m["P"]["fe"]]
            if a["x_0"] is not None and m["P"]["xmax"] is not None:
                a["x_0"] = [min(v, b - 0.05) if b is not None else v for v, b in zip(a["x_0"], vec(m["P"]["xmax"], m["sys"].nx))]
            if a["x_0"] is not None and m["P"]["xmin"] is not None:
                a["x_0"] = [max(v, b + 0.05) if b is not None else v for v, b in zip(a["x_0"], vec(m["P"]["xmin"], m["sys"].nx))]
            self.solve(w, plan, m, a, faults, line, results)
            for r, snap in results:
                w.require(self.snapshot(r) == snap, "result-changed", "a result returned earlier changed")
        w.nontrivial = True

    def solve(self, w, plan, m, a, faults, line, results):
        log, P = m["log"], m["P"]
        log["n"], log["faults"], log["calls"] = 0, {n: k for n, k in faults}, []
        kw = call_args(a)
        before = {k: nums(v) for k, v in kw.items()}
        w.event("solve", a["x_0"], faults, line)
        error = None
        try:
            if line:
                with LineInterrupt(w, n=line) as tracer:
                    r = m["al"].solve(**kw)
            else:
                r = m["al"].solve(**kw)
        except (InjectedError, InjectedInterrupt) as e:
            error = e
        except Exception as e:
            if not m["maybe_broken"]:
                raise
            w.event("explicit error")
            return
        w.require({k: nums(v) for k, v in kw.items()} == before, "arguments-changed", "")
        interrupted_at_line = line is not None and tracer.fired
        calls = log["calls"]
        w.event("inner solves", len(calls), type(error).__name__)
        met = False
        for n, call in enumerate(calls):
            self.check_call(w, plan, m, a, call, n)
            w.require(not met, "goes-on", "solve {} follows one that met the tolerance".format(n))
            if call["result"] is None:  # it failed: nothing changes
                w.require(n == len(calls) - 1, "failure-hidden", "inner solve {} failed, the method went on".format(n))
                w.require(error is not None, "failure-hidden", "inner solve {} failed, a result was returned".format(n))
                break
            viol = self.violations(w, plan, m, a, call["result"])
            call["viol"] = viol
            old = m["states"]
            call["used"] = old[0].nu.copy()
            m["states"] = distinct([t for s in old for t in s.updates(plan["al"], viol)])
            if interrupted_at_line and n == len(calls) - 1:
                m["torn"] = old
            met = met or viol.size == 0 or float(np.abs(viol).max()) < plan["al"]["tol"] * (1 - 1e-6)
        if error is not None:
            m["failed"] = True
            if interrupted_at_line and not m["started"]:
                m["maybe_broken"] = True
            return
        m["started"] = True
        m["maybe_broken"] = False
        w.require(calls and calls[-1]["result"] is not None, "no-solve", "")
        w.require(len(calls) <= plan["al"]["max_iter"], "too-many-iterations", "{}".format(len(calls)))
        last = calls[-1]
        worst = float(np.abs(last["viol"]).max()) if last["viol"].size else 0.0
        if len(calls) < plan["al"]["max_iter"]:
            w.require(worst < plan["al"]["tol"] * (1 + 1e-6), "stops-too-early", "violation {} tolerance {}".format(worst, plan["al"]["tol"]))
        w.probe("tolerance met" if met else "iteration limit reached")
        if met and m["failed"]:
            w.probe("tolerance met after a failure")
        # the result is the last solve
        w.require(bool(r.success) == last["success"], "wrong-success", "success {} of the last inner solve {}".format(r.success, last["success"]))
        if not last["success"]:
            w.probe("last inner solve not successful")
        got, want = trajectories(r), trajectories(last["result"])
        w.require(repr(got) == repr(want), "wrong-record", lambda: "the result is not the one of the last solve: {}".format([k for k in got if got[k] != want[k]]))
        err = flat(r.statistics["violation_error"])
        rows = [float(np.abs(last["viol"][:, i, :]).max()) for i in range(len(m["rows"]))]
        w.require(len(err) == len(rows) and all(abs(x - y) <= 1e-7 + 1e-5 * y for x, y in zip(err, rows)), "wrong-violation", lambda: "reported {} of the trajectories {}".format(err, rows))
        n_alg = sum(k != "eq" for k, _ in m["rows"])
        for name, sl in (("nu", None), ("alg_violation", slice(0, n_alg)), ("eq_violation", slice(n_alg, None))):
            val = last["used"] if name == "nu" else last["viol"][:, sl, :]
            data = r.other_data[name]["values"]
            for e in range(P["fe"]):
                for j in range(P["degree"]):
                    x, y = flat(data[e][j]), list(val[e, :, j])
                    w.require(len(x) == len(y) and all(abs(p - q) <= 1e-6 * (1 + abs(q)) for p, q in zip(x, y)), "wrong-record", lambda: "{} at element {} point {}: {} expected {}".format(name, e, j, x, y))
        if m["ref"] is None:
            m["ref"] = Reference(P) if P["dc"] == P["degree"] else False
        if m["ref"]:
            stats, best = m["ref"].solve(a)
            if stats["return_status"] == "Solve_Succeeded" and met and last["success"]:
                scale = 1 + float(np.abs(last["used"]).max())
                tol = 1e-5 + 20 * plan["al"]["tol"] * scale * len(m["rows"])
                got = float(r.objective_opt_problem)
                w.require(abs(got - best) <= tol * (1 + abs(best)), "not-the-optimum", "{} expected {} (tolerance {})".format(got, best, tol))
                w.probe("optimum reached")
            if stats["return_status"] == "Solve_Succeeded" and plan["al"]["max_iter"] == 25 and plan["al"]["mu_update_rule"] == "bounded-increase" and plan["al"]["mu_max"] >= 300 and not plan["al"]["only_update_if_improve"]:
                w.require(met, "no-convergence", "violation {} after {} iterations".format(worst, len(calls)))
        results.append((r, self.snapshot(r)))

    def snapshot(self, r):
        s = trajectories(r)
        s["other"] = {k: nums(r.other_data[k]["values"]) for k in ("nu", "alg_violation", "eq_violation")}
        s["violation"] = nums(r.statistics["violation_error"])
        return s

    def check_call(self, w, plan, m, a, call, n):
        """Multipliers and penalties given to the solver."""
        P, s = m["P"], m["states"][0]
        n_p = len(a["p"] or [])
        w.require(call["p"][:n_p] == (a["p"] or []), "wrong-parameters", lambda: "{} expected {}".format(call["p"], a["p"]))
        mu = np.array(call["p"][n_p:])
        w.require(mu.shape == s.mu.shape, "wrong-penalty", lambda: "{} expected {}".format(mu, s.mu))
        nu = np.zeros_like(s.nu)
        for e in range(P["fe"]):
            th = (a["theta"][e] if a["theta"] else [])
            v = call["theta"].get(e, [])
            w.require(v[: len(th)] == th, "wrong-parameters", lambda: "theta of element {}: {} expected {}".format(e, v, th))
            w.require(len(v) - len(th) == nu[e].size, "wrong-multipliers", lambda: "{} of element {}".format(len(v) - len(th), e))
            nu[e] = np.array(v[len(th):]).reshape(P["degree"], len(m["rows"])).T
        candidates = m["states"]
        if m["torn"] is not None:  # interrupted during the update: each number is either the old or the new one
            both = m["torn"] + m["states"]
            m["torn"] = None
            ok_nu = np.any([same(nu, c.nu) for c in both], axis=0).all()
            ok_mu = np.any([same(mu, c.mu) for c in both], axis=0).all()
            candidates = distinct([State(nu, mu, c.last) for c in both])
        else:
            left = [c for c in candidates if same(nu, c.nu).all()]
            ok_nu = bool(left)
            left = [c for c in left if same(mu, c.mu).all()]
            ok_mu = bool(left)
            candidates = left
        w.require(ok_nu, "wrong-multipliers", lambda: "inner solve {}: {} expected {}".format(n, nu.tolist(), s.nu.tolist()))
        w.require(ok_mu, "wrong-penalty", lambda: "inner solve {}: {} expected {}".format(n, mu.tolist(), s.mu.tolist()))
        m["states"] = candidates

    def violations(self, w, plan, m, a, r):
        """[element][row][point] computed from the trajectories of a result."""
        P, sys = m["P"], m["sys"]
        arr = lambda v: np.array(flat(v))
        d, fe = P["degree"], P["fe"]
        out = np.zeros((fe, len(m["rows"]), d))
        q = flat(r.p_opt)[0] if P["popt"] else 0.0
        nu = sys.nu
        alg = plan["relax"]["var"] if plan["relax"]["var"] is not None else plan["relax"]["alg"]
        bounded = [i for k, i in m["rows"] if k == "state"]
        for e in range(fe):
            th = given_theta(P, a, e)
            to = flat(r.theta_opt[e])[0] if P["topt"] else 0.0
            extra = P["yp"][0] * q + P["yp"][1] * th + P["yp"][2] * to
            for j in range(d):
                x = arr(r.x_data["values"][e][j + 1])[: sys.nx]
                U = arr(r.u_data["values"][e][j if P["dc"] == d else 0])
                u, y_alg, y_state = U[:nu], U[nu : nu + len(alg)], U[nu + len(alg):]
                g = sys.algebraic(x, u) + extra
                for n, (k, i) in enumerate(m["rows"]):
                    if k == "alg":
                        v = y_alg[alg.index(i)] - g[i]
                    elif k == "state":
                        v = y_state[bounded.index(i)] - x[i]
                    else:
                        first = i == 0 and P.get("ge2")
                        c = P["ge2"] if first else P["ge"]
                        v = c[0] * x[-1 if first else 0] + c[1] * u[0 if first else -1] - c[2]
                    out[e, n, j] = v
        return out


PROPS = {"A01": A01}
