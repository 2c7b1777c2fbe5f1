"""L01, L02: one solution method solved again and again, with failures in between."""
import copy
import inspect
import math

import numpy as np

from sim import linsys
from sim.core import Discard, InjectedError, InjectedInterrupt, Prop, Violation
from sim.lines import LineInterrupt
from sim.props.mpc import flat, near

OPTS = {"print_time": False, "ipopt.print_level": 0, "ipopt.tol": 1e-10, "ipopt.acceptable_tol": 1e-9, "ipopt.constr_viol_tol": 1e-9}
LOOSE = {"print_time": False, "ipopt.print_level": 0, "ipopt.tol": 1e-6, "ipopt.max_iter": 100}


def options(P):
    # multiple shooting: the accuracy of the integrator limits that of the solver
    return dict(OPTS if P["scheme"] == "collocation" else LOOSE)


def vec(v, n):
    """Bounds: one for all, or one for each; None: without."""
    return list(v) if isinstance(v, (list, tuple)) else [v] * n


def changes(P, nu):
    """Limits of the changes of the controls."""
    return [list(q) for q in P["du"]] if isinstance(P["du"], list) else [[-P["du"], P["du"]]] * nu


def more(rng, P):
    """Bounds, constraints and parameters of their own for each variable."""
    u = lambda a, b: round(rng.uniform(a, b), 2)
    maybe = lambda q: rng.random() < q
    sys = P["sys"]
    n = {"u": sys["nu"], "x": sys["nx"], "y": sys["ny"]}
    if maybe(0.2):
        P["ymin"] = u(-2, -0.6)
    for k in ("umax", "umin", "xmax", "xmin", "ymax", "ymin"):
        if P.get(k) is not None and maybe(0.6):
            s = 1 if k.endswith("max") else -1
            lo, hi = (0.2, 2) if k[0] == "u" else (0.6, 2)
            P[k] = [s * u(lo, hi) if maybe(0.8) else None for _ in range(n[k[0]])]
            if all(q is None for q in P[k]):
                P[k] = None
    if P["du"] and maybe(0.7):
        P["du"] = [[-u(0.1, 0.6) if maybe(0.85) else None, u(0.1, 0.6) if maybe(0.85) else None] for _ in range(n["u"])]
        if all(q == [None, None] for q in P["du"]):
            P["du"][-1][0] = -0.3
    moments = ["default", "end", "start"] if P["scheme"] == "collocation" else ["default", "end"]
    P["gis"] = [[rng.randrange(n["x"]), rng.choice([1, -1]), u(0.5, 1.4), rng.choice(moments)] for _ in range(rng.choice([0, 0, 0, 1, 2]))]
    if P["ge"] and n["u"] == 2 and maybe(0.6):
        P["ge2"] = [u(-0.5, 0.5), u(0.6, 1.2), u(-0.4, 0.4), rng.choice([P["ge"][3], "end"])]
    if maybe(0.25):
        P["q2"] = [u(-1, 1), u(-0.8, -0.1), u(0.1, 0.8)]
        if P["popt"] and maybe(0.5):
            P["h"] = u(-0.3, 0.3)
    if maybe(0.2):
        P["to2"] = [u(-1, 1), u(-0.8, -0.1), u(0.1, 0.8)]
    if maybe(0.25):
        P["lt"] = u(-1, 1)
    if n["x"] == 2 and maybe(0.15):
        P["free"] = True
    if maybe(0.2):
        P["guess"] = {"u": [u(-1, 1) for _ in range(n["u"])], "y": [u(-1, 1) for _ in range(n["y"])] if n["y"] else None}
    if maybe(0.1):
        P["icp"] = False
    if P["du"] and maybe(0.3):
        P["last"] = [u(-0.3, 0.3) for _ in range(n["u"])]


def gen_problem(rng, scheme=None):
    sys = linsys.gen(rng, nx=rng.choice([1, 2, 2]), large=0.08)
    nx, nu, ny = sys["nx"], sys["nu"], sys["ny"]
    u = lambda a, b: round(rng.uniform(a, b), 2)
    maybe = lambda q: rng.random() < q
    degree = rng.choice([2, 2, 3]) if maybe(0.85) else rng.choice([1, 4, 5])
    scheme = scheme or rng.choice(["collocation"] * 3 + ["multiple-shooting"])
    t_0 = rng.choice([0.0, 0.0, 0.0, 1.0, -0.5])
    P = {
        "sys": sys,
        "scheme": scheme,
        "fe": rng.choice([1, 2, 2, 3]) if maybe(0.93) else rng.choice([5, 8, 11, 12]),
        "degree": degree,
        "dc": rng.choice([1, 1, degree, 2]) if scheme == "collocation" else 1,
        "t_0": t_0,
        "t_f": t_0 + rng.choice([0.5, 1.0, 2.0]),
        "q": [u(0.1, 2) for _ in range(nx)],
        "r": [u(0.05, 1) for _ in range(nu)],
        "ref": [u(-1, 1) for _ in range(nx)],
        "qy": u(0, 1),
        "v": u(0.1, 3) if maybe(0.4) else 0,
        "s": u(0.1, 1) if maybe(0.2) else 0,
        "theta": u(-1, 1) if maybe(0.3) else 0,
        "popt": u(-1, 1) if maybe(0.3) else 0,
        "topt": u(-1, 1) if maybe(0.2) else 0,
        "umax": u(0.2, 2) if maybe(0.6) else None,
        "umin": u(-2, -0.2) if maybe(0.6) else None,
        "xmax": u(0.6, 2) if maybe(0.25) else None,
        "xmin": u(-2, -0.6) if maybe(0.25) else None,
        "ymax": u(0.6, 2) if maybe(0.3) else None,
        "du": u(0.1, 0.6) if maybe(0.3) else None,
        "hf": u(-0.4, 0.4) if maybe(0.15) else None,
        "gi": [u(0.3, 1.2), rng.choice(["default", "end", "start"] if scheme == "collocation" else ["default", "end"])] if maybe(0.3) else None,
        "heuristic": rng.choice(["simulation", "simulation", "problem_info"]),
        # algebraic equations that depend on the parameters, [cx, cu, c, when]: cx x + cu u = c
        "yp": [u(-0.5, 0.5) if maybe(0.4) else 0 for _ in range(3)],
        "ge": [u(-0.5, 0.5), u(0.6, 1.2), u(-0.4, 0.4), rng.choice(["default", "default", "end"])] if maybe(0.15) else None,
    }
    if P["ge"]:
        P["umin"] = P["umax"] = P["du"] = None
    if P["du"]:  # only defined for piecewise constant controls
        P["dc"] = 1
    P["dc"] = min(P["dc"], degree)
    return P


def n_params(P):
    """(size of p, size of theta): (q2, p, q) and (to2, th, to)."""
    return P["sys"]["np"] + bool(P["popt"]) + bool(P.get("q2")), bool(P["theta"]) + bool(P["topt"]) + bool(P.get("to2"))


def given_p(P, a):
    i = int(bool(P.get("q2")))
    return list((a["p"] or [])[i : i + P["sys"]["np"]])


def given_theta(P, a, k):
    return a["theta"][k][int(bool(P.get("to2")))] if P["theta"] else 0.0


def gen_args(rng, P, omit=True):
    sys = P["sys"]
    a = {"x_0": [round(rng.uniform(-0.8, 0.8), 2) for _ in range(sys["nx"])] if rng.random() < 0.8 else None}
    n_p, n_t = n_params(P)
    a["p"] = [round(rng.uniform(-1, 1), 2) for _ in range(n_p)] if n_p else None
    a["theta"] = [[round(rng.uniform(-1, 1), 2) for _ in range(n_t)] for _ in range(P["fe"])] if n_t else None
    a["last_u"] = [round(rng.uniform(-0.3, 0.3), 2) for _ in range(sys["nu"])] if P["du"] else None
    if P.get("icp") is False:
        a["x_0"] = None
    if P.get("last") and rng.random() < 0.5:
        a["last_u"] = None  # the one of the problem
    if rng.random() < 0.2:
        a["form"] = "list"
    if omit and not sys["np"] and rng.random() < 0.4:
        a["p"] = None  # all of them are optimised
    if omit and not P["theta"] and rng.random() < 0.4:
        a["theta"] = None
    if a["p"] is not None and len(a["p"]) == 1 and rng.random() < 0.3:
        a["form_p"] = "number"
    return a


def make_problem(P, model_cls=None):
    from casadi import DM, vertcat
    from yaocptool.modelling import OptimalControlProblem, SystemModel

    ref = linsys.LinSys(P["sys"])
    from casadi import mtimes, sin

    m = (model_cls or SystemModel)(name="m")
    x = m.create_state("x", ref.nx)
    u = m.create_control("u", ref.nu)
    y = m.create_algebraic_variable("y", ref.ny) if ref.ny else None
    rhs = mtimes(DM(ref.A), x) + mtimes(DM(ref.B), u)
    q2 = m.create_parameter("q2") if P.get("q2") else None
    to2 = m.create_theta("to2") if P.get("to2") else None
    if ref.np:
        p = m.create_parameter("p", ref.np)
        rhs += mtimes(DM(ref.F), p)
    if ref.d.any():
        rhs += DM(ref.d) * sin(ref.omega * m.t)
    e0 = DM([1] + [0] * (ref.nx - 1))
    q = m.create_parameter("q") if P["popt"] else None
    th = m.create_theta("th") if P["theta"] else None
    to = m.create_theta("to") if P["topt"] else None
    for c, s in ((P["popt"], q), (P["theta"], th), (P["topt"], to)):
        if s is not None:
            rhs += c * e0 * s
    for c, s in ((P.get("q2"), q2), (P.get("to2"), to2)):
        if s is not None:
            rhs += c[0] * DM([0] * (ref.nx - 1) + [1]) * s
    extra = sum(c * s for c, s in zip(P["yp"], (q, th, to)) if s is not None)
    if y is not None and ref.E.any():
        rhs += mtimes(DM(ref.E), y)
    alg = [y - mtimes(DM(ref.C1), x) - mtimes(DM(ref.D1), u) - extra] if y is not None else None
    m.include_equations(ode=[rhs], alg=alg)
    L = sum(P["q"][i] * (x[i] - P["ref"][i]) ** 2 for i in range(ref.nx)) + sum(P["r"][i] * u[i] ** 2 for i in range(ref.nu))
    if y is not None:
        L += P["qy"] * y[0] ** 2
    if to is not None:
        L += 0.5 * to**2
    if to2 is not None:
        L += 0.3 * to2**2
    if P.get("lt"):
        L += P["lt"] * m.t * x[0]
    kw = {}
    V = P["v"] * x[0] ** 2
    if q is not None:
        V = V + 0.7 * (q - 0.2) ** 2
    if q2 is not None:
        V = V + 0.4 * (q2 + 0.1) ** 2
    if P["v"] or q is not None or q2 is not None:
        kw["V"] = V
    if P["s"]:
        kw["S"] = P["s"] * x[0] ** 2
    ocp = OptimalControlProblem(m, t_0=P["t_0"], t_f=P["t_f"], x_0=[0.3] * ref.nx, L=L, **kw)
    for k, attr, n in (("umax", "u_max", ref.nu), ("umin", "u_min", ref.nu), ("xmax", "x_max", ref.nx), ("xmin", "x_min", ref.nx), ("ymax", "y_max", ref.ny), ("ymin", "y_min", ref.ny)):
        if P.get(k) is not None and n:
            bounds = [q if q is not None else (np.inf if k.endswith("max") else -np.inf) for q in vec(P[k], n)]
            setattr(ocp, attr, DM(bounds) if P.get("dm") else bounds)
    if P["du"]:
        ocp.delta_u_max = [np.inf if hi is None else hi for _, hi in changes(P, ref.nu)]
        ocp.delta_u_min = [-np.inf if lo is None else lo for lo, _ in changes(P, ref.nu)]
    if P.get("last"):
        ocp.last_u = DM(P["last"])
    if P.get("guess"):
        form = DM if P.get("dm") else list
        ocp.u_guess = form(P["guess"]["u"])
        if P["guess"]["y"]:
            ocp.y_guess = form(P["guess"]["y"])
    if P.get("free"):
        ocp.h_initial = (ocp.model.x - ocp.model.x_0)[: ref.nx - 1]
    if P["hf"] is not None:
        ocp.include_final_time_equality(x[0] - P["hf"])
    if P["gi"]:
        ocp.include_time_inequality(x[0] - P["gi"][0], when=P["gi"][1])
    for i, sign, c, when in P.get("gis", []):
        ocp.include_time_inequality(sign * x[i] - c, when=when)
    if P.get("ge2"):
        ocp.include_time_equality(P["ge2"][0] * x[ref.nx - 1] + P["ge2"][1] * u[0] - P["ge2"][2], when=P["ge2"][3])
    if P["ge"]:
        ocp.include_time_equality(P["ge"][0] * x[0] + P["ge"][1] * u[ref.nu - 1] - P["ge"][2], when=P["ge"][3])
    if q is not None:
        ocp.set_parameter_as_optimization_parameter(q, DM([-1.0]), DM([1.0]))
    if to is not None:
        ocp.set_theta_as_optimization_theta(to, DM([-1.0]), DM([1.0]))
    if q2 is not None:
        ocp.set_parameter_as_optimization_parameter(q2, DM([P["q2"][1]]), DM([P["q2"][2]]))
    if to2 is not None:
        ocp.set_theta_as_optimization_theta(to2, DM([P["to2"][1]]), DM([P["to2"][2]]))
    if P.get("h") is not None:
        ocp.include_equality(q + 0.5 * q2 - P["h"])
    return ocp


def make_method(P, opts, ocp=None):
    from yaocptool import config
    from yaocptool.methods import DirectMethod

    config.INTEGRATOR_OPTIONS.update(abstol=1e-9, reltol=1e-9)

    return DirectMethod(
        ocp or make_problem(P),
        finite_elements=P["fe"],
        degree=P["degree"],
        degree_control=P["dc"],
        discretization_scheme=P["scheme"],
        initial_guess_heuristic=P["heuristic"],
        last_control_as_parameter=bool(P["du"]),
        initial_condition_as_parameter=P.get("icp", True),
        nlpsol_opts=opts,
    )


def call_args(a):
    """Fresh objects each time."""
    from casadi import DM

    k = {}
    if a.get("form") == "list":
        DM = list
    if a["x_0"] is not None:
        k["x_0"] = DM(a["x_0"] + [0.0])  # and the cost state
    if a["p"] is not None:
        k["p"] = DM(a["p"]) if a.get("form_p") != "number" else a["p"][0]
    if a["theta"] is not None:
        from casadi import DM as D

        k["theta"] = {i: D(v) for i, v in enumerate(a["theta"])}
    if a["last_u"] is not None:
        k["last_u"] = DM(a["last_u"])
    return k


def nums(v):
    """Everything numeric inside of v, in order."""
    if v is None:
        return []
    if isinstance(v, dict):
        return [x for k in sorted(v, key=str) for x in nums(v[k])]
    if isinstance(v, (list, tuple)):
        return [x for e in v for x in nums(e)]
    return flat(v)


def trajectories(r):
    return {
        "x": nums(r.x_data["values"]), "y": nums(r.y_data["values"]), "u": nums(r.u_data["values"]),
        "p_opt": nums(r.p_opt), "theta_opt": nums(r.theta_opt), "objective": nums(r.objective_opt_problem),
    }


def snapshot(r):
    s = trajectories(r)
    s.update(p=nums(r.p), theta=nums(r.theta), x_0=nums(r.x_0), success=bool(r.success), time=nums(r.x_data["time"]) + nums(r.u_data["time"]),
             raw=nums(r.raw_solution_dict["x"]), breakpoints=nums(r.time_breakpoints))
    return s


def close(a, b, tol):
    return len(a) == len(b) and all(abs(x - y) <= tol * (1 + abs(y)) for x, y in zip(a, b))


class Faulty:
    """The NLP solver fails at chosen calls."""

    def __init__(self, w):
        self.w = w
        self.next = None

    def install(self):
        from yaocptool.optimization.abstract_optimization_problem import AbstractOptimizationProblem as A

        self.A, self.original = A, A.solve
        signature = inspect.signature(A.solve)
        me = self

        def solve(obj, *a, **k):
            w, kind = me.w, me.next
            w.step()
            me.next = None
            if kind == "raise":
                w.fault("solver raises")
                raise InjectedError("solver")
            if kind == "interrupt":
                w.fault("interrupt before the solver")
                raise InjectedInterrupt()
            out = me.original(obj, *a, **k)
            if kind == "late":
                w.fault("interrupt after the solver")
                raise InjectedInterrupt()
            if kind == "fail":
                w.fault("solver fails with garbage")
                out = dict(out)
                for n in ("x", "lam_x", "lam_g", "g", "f"):
                    out[n] = out[n] * 0 + 1e3
                out["stats"] = dict(out["stats"], success=False, return_status="Injected_Failure")
            return out

        A.solve = solve

    def remove(self):
        self.A.solve = self.original


class L01(Prop):
    pid = "L01"
    quick_runs = 520
    thorough_runs = 8000
    chunk = 2
    max_steps = 10**6
    rule = "One run is a history of solves (different arguments, warm starts, solver failures, interrupts at arbitrary lines, changes to returned results) of one or two methods that share options; each result is compared with the one of a fresh method."
    faults = ["solver raises", "interrupt before the solver", "interrupt after the solver", "solver fails with garbage", "interrupt at a line", "returned results are changed"]
    probes = ["solved after a failure", "warm start", "warm start from a failed solve", "first solve interrupted, second correct", "first solve interrupted, explicit error", "two methods"]
    shrink_lists = ("ops",)
    components = {"real": ["yaocptool.methods.DirectMethod", "collocation and multiple shooting", "yaocptool.optimization", "ipopt"], "simulated": ["failures of the NLP solver", "interrupts"]}
    assumptions = ["convex problems (linear model, quadratic cost): the solution is unique, trajectories are compared with tolerance 1e-3 (objective 1e-5)", "a method whose very first solve was interrupted while the problem is being built may refuse to work with an explicit error"]

    def gen(self, rng, tier):
        P = gen_problem(rng)
        more(rng, P)
        P["hf"] = P["xmax"] = P["xmin"] = P["ymax"] = P["gi"] = P["ge"] = None  # always feasible
        ops = []
        n_m = rng.choice([1, 1, 2])
        pool = [gen_args(rng, P) for _ in range(rng.choice([1, 2, 3]))]
        for _ in range(rng.randrange(2, 7)):
            r = rng.random()
            if r < 0.15 and ops:
                ops.append(["change", rng.randrange(4)])
                continue
            fault = rng.choice([None] * 6 + ["raise", "interrupt", "late", "fail", "line", "line"])
            if fault == "line":
                fault = ["line", int(math.exp(rng.uniform(0, math.log(9000))))]
            ops.append(["solve", rng.randrange(n_m), rng.choice(pool), rng.choice(["no", "no", "dict", "guess", "own"]), fault])
        return {"P": P, "methods": n_m, "ops": ops}

    def simplify(self, plan):
        for k in ("theta", "popt", "topt", "v", "s"):
            if plan["P"][k]:
                pass
        for k in ("umax", "umin"):
            if plan["P"][k] is not None:
                new = copy.deepcopy(plan)
                new["P"][k] = None
                yield new

    def run(self, plan, w):
        try:
            self.solves(plan, w)
        except RuntimeError as e:
            if plan["P"]["scheme"] != "multiple-shooting" or "IDACalcIC" not in str(e):
                raise
            raise Discard("the numerical integrator gave up")  # (rare, and an explicit error)

    def solves(self, plan, w):
        P = plan["P"]
        opts = options(P)
        faulty = Faulty(w)
        methods = []
        for i in range(plan["methods"]):
            methods.append({"m": make_method(P, opts), "done": 0, "maybe_broken": False, "broken": False, "last": None, "failed": False})
        w.require(opts == options(P), "options-changed", "the options given were modified: {}".format(opts))
        if len(methods) > 1:
            w.probe("two methods")
        fresh = {}

        def reference(a):
            key = repr(a)
            if key not in fresh:
                r = make_method(P, options(P)).solve(**call_args(a))
                if not r.success:
                    raise Discard("the reference does not solve it")
                fresh[key] = trajectories(r)
            return fresh[key]

        results = []  # (result, snapshot)
        for op in plan["ops"]:
            w.event(*[op[0], op[1], op[3:] if op[0] == "solve" else ""])
            if op[0] == "change":
                # the user owns the results: changing them must not matter to the method
                if not results:
                    continue
                w.fault("returned results are changed")
                r, _ = results.pop(op[1] % len(results))
                self.spoil(r)
                for o in methods:  # (it is no initial guess any more)
                    if o["last"] is r:
                        o["last"] = None
                continue
            _, i, a, warm, fault = op
            s = methods[i]
            want = reference(a)
            kw = call_args(a)
            guess = None
            source = s if warm == "own" else next((o for o in reversed(methods) if o["last"] is not None), s)
            if warm != "no" and source["last"] is not None:
                last = source["last"]
                w.probe("warm start")
                if not last.success:
                    w.probe("warm start from a failed solve")
                if warm == "guess":
                    kw["initial_guess"] = last.raw_decision_variables
                else:
                    kw["initial_guess_dict"] = last.raw_solution_dict
            before = {k: nums({n: v[n] for n in ("x", "lam_x", "lam_g")} if k == "initial_guess_dict" else v) for k, v in kw.items()}
            line = fault[1] if isinstance(fault, list) else None
            faulty.next = fault if isinstance(fault, str) else None
            faulty.install()
            error = None
            try:
                if line:
                    with LineInterrupt(w, n=line) as tracer:
                        r = s["m"].solve(**kw)
                else:
                    r = s["m"].solve(**kw)
            except (InjectedError, InjectedInterrupt) as e:
                error = e
            except Exception as e:
                if not s["maybe_broken"]:
                    raise
                w.probe("first solve interrupted, explicit error")
                w.event("explicit error")
                s["broken"] = True
                continue
            finally:
                faulty.remove()
                faulty.next = None
            after = {k: nums({n: v[n] for n in ("x", "lam_x", "lam_g")} if k == "initial_guess_dict" else v) for k, v in kw.items()}
            w.require(after == before, "arguments-changed", lambda: "{}".format([k for k in before if before[k] != after[k]]))
            if fault in ("raise", "interrupt", "late"):
                w.require(error is not None, "failure-hidden", str(fault))
            if error is not None:
                s["failed"] = True
                if line and not s["done"]:
                    s["maybe_broken"] = True
                self.kept(w, results)
                continue
            if fault == "fail":
                w.require(not r.success, "failure-reported-as-success", "")
            elif r.success or P["scheme"] == "collocation":
                w.require(bool(r.success), "solve-fails", "solver status {}".format(r.stats.get("return_status")))
                got = trajectories(r)
                for k in want:
                    tol = 1e-5 if k == "objective" else 1e-3
                    if P["scheme"] != "collocation":
                        tol *= 20
                    w.require(close(got[k], want[k], tol), "depends-on-history", lambda: "{}: {} expected {} (arguments {})".format(k, got[k], want[k], a))
                if s["failed"]:
                    w.probe("solved after a failure")
                if s["maybe_broken"]:
                    w.probe("first solve interrupted, second correct")
                    s["maybe_broken"] = False
                s["done"] += 1
            s["last"] = r
            self.kept(w, results)
            results.append((r, snapshot(r)))
            w.event("objective", round(results[-1][1]["objective"][0], 4))
        w.nontrivial = w.nontrivial or len(plan["ops"]) > 1

    def kept(self, w, results):
        for r, snap in results:
            now = snapshot(r)
            w.require(now == snap, "result-changed", lambda: "a result returned earlier changed: {}".format([k for k in snap if snap[k] != now[k]]))

    def spoil(self, r):
        for data in (r.x_data, r.y_data, r.u_data):
            for el in data["values"]:
                for v in el:
                    v[:] = 1e4
        for v in (r.p, r.p_opt, r.raw_solution_dict["x"], r.raw_solution_dict["lam_g"], r.x_0):
            if v.numel():
                v[:] = 1e4
        for k in r.theta:
            if r.theta[k].numel():
                r.theta[k][:] = 1e4
        r.theta.clear()


class Reference:
    """An independent transcription of the same problem (numpy + casadi SX + ipopt)."""

    def __init__(self, P):
        from casadi import SX, Function, collocation_points, nlpsol, vertcat

        ref = linsys.LinSys(P["sys"])
        self.P, self.ref = P, ref
        nx, nu = ref.nx, ref.nu
        fe, d, dc = P["fe"], P["degree"], P["dc"]
        h = (P["t_f"] - P["t_0"]) / fe
        tau = [0.0] + list(collocation_points(d, "radau"))
        tau_u = list(collocation_points(dc, "radau"))
        self.tau, self.tau_u, self.h = tau, tau_u, h
        n_p, n_t = n_params(P)
        col = P["scheme"] == "collocation"
        par_x0, par_lu = SX.sym("x0", nx), SX.sym("lu", nu)
        par_p = SX.sym("p", ref.np)
        par_th = SX.sym("th", fe)
        q = SX.sym("q") if P["popt"] else 0
        q2 = SX.sym("q2") if P.get("q2") else 0
        w, lb, ub, g, gl, gu = [], [], [], [], [], []
        none = lambda v, s: s * np.inf if v is None else v

        def var(name, n, lo, hi):
            v = SX.sym(name, n)
            w.append(v)
            lb.extend(none(q, -1) for q in vec(lo, n))
            ub.extend(none(q, 1) for q in vec(hi, n))
            return v

        cost = 0
        if P["popt"]:
            w.append(q)
            lb.append(-1.0)
            ub.append(1.0)
            cost += 0.7 * (q - 0.2) ** 2
        if P.get("q2"):
            w.append(q2)
            lb.append(P["q2"][1])
            ub.append(P["q2"][2])
            cost += 0.4 * (q2 + 0.1) ** 2

        def rhs(t, x, u, th, to, to2):
            from casadi import DM, mtimes, sin

            r = mtimes(DM(ref.A), x) + mtimes(DM(ref.B), u) + DM(ref.d) * sin(ref.omega * t)
            if ref.np:
                r += mtimes(DM(ref.F), par_p)
            r[0] += P["popt"] * q + P["theta"] * th + P["topt"] * to
            if P.get("q2"):
                r[nx - 1] += P["q2"][0] * q2
            if P.get("to2"):
                r[nx - 1] += P["to2"][0] * to2
            if ref.ny:
                r += mtimes(DM(ref.E), yout(x, u, th, to))
            return r

        def yout(x, u, th, to):
            from casadi import DM, mtimes

            return mtimes(DM(ref.C1), x) + mtimes(DM(ref.D1), u) + P["yp"][0] * q + P["yp"][1] * th + P["yp"][2] * to

        def stage(t, x, u, th, to, to2):
            L = sum(P["q"][i] * (x[i] - P["ref"][i]) ** 2 for i in range(nx)) + sum(P["r"][i] * u[i] ** 2 for i in range(nu))
            if ref.ny:
                L += P["qy"] * yout(x, u, th, to)[0] ** 2
            return L + (0.5 * to**2 if P["topt"] else 0) + 0.3 * to2**2 + P.get("lt", 0) * t * x[0]

        def add(e, lo, hi):
            g.append(e)
            gl.extend(none(q, -1) for q in vec(lo, e.numel()))
            gu.extend(none(q, 1) for q in vec(hi, e.numel()))

        def ycon(x, u, th, to):
            if ref.ny and (P["ymax"] is not None or P.get("ymin") is not None):
                add(yout(x, u, th, to), P.get("ymin"), P["ymax"])

        def ge(when, x, u):
            if P["ge"] and P["ge"][3] == when:
                add(P["ge"][0] * x[0] + P["ge"][1] * u[nu - 1] - P["ge"][2], 0, 0)
            if P.get("ge2") and P["ge2"][3] == when:
                add(P["ge2"][0] * x[nx - 1] + P["ge2"][1] * u[0] - P["ge2"][2], 0, 0)

        def gi(when, x):
            if P["gi"] and P["gi"][1] == when:
                add(x[0] - P["gi"][0], -np.inf, 0)
            for i, sign, c, at in P.get("gis", []):
                if at == when:
                    add(sign * x[i] - c, -np.inf, 0)

        D, B = self.basis(tau)
        xend, ulast = None, None
        for k in range(fe):
            t = P["t_0"] + k * h
            th = par_th[k] if P["theta"] else 0
            to = var("to", 1, -1.0, 1.0) if P["topt"] else 0
            to2 = var("to2", 1, P["to2"][1], P["to2"][2]) if P.get("to2") else 0
            U = [var("u", nu, P["umin"], P["umax"]) for _ in range(dc)]
            u_at = lambda s: U[0] if dc == 1 else sum(self.lagrange(tau_u, j, s) * U[j] for j in range(dc))
            xb = lambda: var("x", nx, P["xmin"], P["xmax"])
            X0 = xb()
            if k == 0 and P.get("free"):
                add((X0 - par_x0)[: nx - 1], 0, 0)
            else:
                add(X0 - (par_x0 if k == 0 else xend), 0, 0)
            if P["du"]:
                add(U[0] - (par_lu if k == 0 else ulast), [q[0] for q in changes(P, nu)], [q[1] for q in changes(P, nu)])
            ulast = U[0]
            gi("start", X0)
            if col:
                X = [X0] + [xb() for _ in range(d)]
                for j in range(1, d + 1):
                    u = u_at(tau[j])
                    add(sum(D[j][i] * X[i] for i in range(d + 1)) - h * rhs(t + h * tau[j], X[j], u, th, to, to2), 0, 0)
                    cost += h * B[j] * stage(t + h * tau[j], X[j], u, th, to, to2)
                    ycon(X[j], u, th, to)
                    gi("default", X[j])
                    ge("default", X[j], u)
                xend = X[-1]
            else:
                x, n = X0, 20
                u = U[0]
                dt = h / n
                for i in range(n):
                    s = t + i * dt
                    f = lambda s_, x_: vertcat(rhs(s_, x_, u, th, to, to2), stage(s_, x_, u, th, to, to2))
                    k1 = f(s, x)
                    k2 = f(s + dt / 2, x + dt / 2 * k1[:nx])
                    k3 = f(s + dt / 2, x + dt / 2 * k2[:nx])
                    k4 = f(s + dt, x + dt * k3[:nx])
                    dz = dt / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
                    x, cost = x + dz[:nx], cost + dz[nx]
                xend = x
                ycon(x, u, th, to)
                gi("default", x)
                ge("default", x, u)
            gi("end", xend)
            ge("end", xend, u_at(1.0))
            cost += P["s"] * xend[0] ** 2
        if not col:
            Xf = xb()
            add(Xf - xend, 0, 0)
        cost += P["v"] * xend[0] ** 2
        if P["hf"] is not None:
            add(xend[0] - P["hf"], 0, 0)
        if P.get("h") is not None:
            add(q + 0.5 * q2 - P["h"], 0, 0)
        self.lb, self.ub, self.gl, self.gu = lb, ub, gl, gu
        par = vertcat(par_x0, par_lu, par_p, par_th)
        opts = {"print_time": False, "ipopt.print_level": 0, "ipopt.sb": "yes", "ipopt.linear_solver": "mumps", "ipopt.tol": 1e-10}
        self.solver = nlpsol("ref", "ipopt", {"x": vertcat(*w), "f": cost, "g": vertcat(*g), "p": par}, opts)

    @staticmethod
    def lagrange(tau, j, s):
        r = 1.0
        for i, t in enumerate(tau):
            if i != j:
                r *= (s - t) / (tau[j] - t)
        return r

    @staticmethod
    def basis(tau):
        """Derivatives of the Lagrange polynomials at the points; quadrature weights of the points but the first."""
        n = len(tau)
        D = np.zeros((n, n))
        for i in range(n):
            pol = np.poly1d([1.0])
            for m in range(n):
                if m != i:
                    pol = pol * np.poly1d([1.0, -tau[m]]) / (tau[i] - tau[m])
            der = pol.deriv()
            for j in range(n):
                D[j][i] = der(tau[j])
        B = np.zeros(n)
        for i in range(1, n):
            pol = np.poly1d([1.0])
            for m in range(1, n):
                if m != i:
                    pol = pol * np.poly1d([1.0, -tau[m]]) / (tau[i] - tau[m])
            B[i] = pol.integ()(1.0)
        return D, B

    def solve(self, a):
        P = self.P
        theta = [given_theta(P, a, k) for k in range(P["fe"])]
        x0 = a["x_0"] if a["x_0"] is not None else [0.3] * self.ref.nx
        par = list(x0) + list(a["last_u"] or P.get("last") or [0.0] * self.ref.nu) + given_p(P, a) + theta
        r = self.solver(x0=0.1, p=par, lbx=self.lb, ubx=self.ub, lbg=self.gl, ubg=self.gu)
        return self.solver.stats(), float(r["f"])


class L02(Prop):
    pid = "L02"
    quick_runs = 1100
    thorough_runs = 20000
    chunk = 3
    max_steps = 10**6
    rule = "One run solves a random problem several times, with iteration limits, infeasible initial states and solver failures; whatever is reported as solved is checked against the dynamics, every bound and constraint, and an independent transcription."
    faults = ["iteration limit", "infeasible problem", "solver raises", "solver fails with garbage", "interrupt before the solver", "interrupt after the solver"]
    probes = ["success", "failure reported", "success under an iteration limit", "other initial time"]
    shrink_lists = ("solves",)
    components = {"real": ["yaocptool.methods.DirectMethod", "collocation and multiple shooting", "yaocptool.optimization", "OptimizationResult", "ipopt"], "simulated": ["failures of the NLP solver"]}
    assumptions = ["linear models with quadratic cost; feasibility is judged with tolerance 1e-5 (multiple shooting 1e-3), optimal values with 1e-4"]

    def gen(self, rng, tier):
        P = gen_problem(rng)
        more(rng, P)
        limit = rng.choice([None] * 16 + [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15])
        solves = []
        for _ in range(rng.choice([1, 2, 3])):
            a = gen_args(rng, P)
            if rng.random() < 0.12 and a["x_0"] is not None:
                a["x_0"][0] = rng.choice([5.0, -5.0])
            solves.append([a, rng.choice([None, None, None, None, "raise", "fail", "interrupt", "late"])])
        return {"P": P, "limit": limit, "solves": solves}

    def simplify(self, plan):
        for k in ("umax", "umin", "xmax", "xmin", "ymax", "ymin", "hf", "gi", "h", "ge2", "lt", "free", "guess", "icp"):
            if plan["P"].get(k) is not None:
                new = copy.deepcopy(plan)
                new["P"][k] = None
                yield new
        for k in ("v", "s"):
            if plan["P"][k]:
                new = copy.deepcopy(plan)
                new["P"][k] = 0
                yield new

    def run(self, plan, w):
        try:
            self.solves(plan, w)
        except RuntimeError as e:
            if plan["P"]["scheme"] != "multiple-shooting" or "IDACalcIC" not in str(e):
                raise
            raise Discard("the numerical integrator gave up")  # (rare, and an explicit error)

    def solves(self, plan, w):
        P = plan["P"]
        opts = options(P)
        if plan["limit"] is not None:
            opts["ipopt.max_iter"] = plan["limit"]
        method = make_method(P, opts)
        ref = Reference(P)
        faulty = Faulty(w)
        if P["t_0"]:
            w.probe("other initial time")
        for a, fault in plan["solves"]:
            stats, best = ref.solve(a)
            status = stats["return_status"]
            if status == "Solve_Succeeded":
                feasible = True
            elif status == "Infeasible_Problem_Detected":
                feasible = False
                w.fault("infeasible problem")
            else:
                feasible = None  # not decided by the reference
            faulty.next = fault
            faulty.install()
            try:
                r = method.solve(**call_args(a))
            except (InjectedError, InjectedInterrupt):
                w.require(fault in ("raise", "interrupt", "late"), "unexpected-error", "")
                w.event("error")
                continue
            finally:
                faulty.remove()
                faulty.next = None
            w.require(fault in (None, "fail"), "failure-hidden", str(fault))
            w.event("solved", bool(r.success), r.stats.get("return_status"))
            if fault == "fail":
                w.require(not r.success, "failure-reported-as-success", "")
                continue
            if r.stats.get("return_status") == "Maximum_Iterations_Exceeded":
                w.fault("iteration limit")
            if not r.success:
                w.probe("failure reported")
                if feasible and plan["limit"] is None and P["scheme"] == "collocation" and abs(best) < 1e3 and stats["iter_count"] < 60:
                    raise Violation("solve-fails", "{}; the reference finds {}".format(r.stats.get("return_status"), best))
                continue
            w.probe("success")
            if plan["limit"] is not None:
                w.probe("success under an iteration limit")
            w.require(feasible is not False, "infeasible-reported-as-success", "")
            self.judge(w, P, ref, a, r)
            if feasible:
                tol = 1e-5 if P["scheme"] == "collocation" else 1e-3
                got = float(r.objective_opt_problem)
                w.require(abs(got - best) <= tol * (1 + abs(best)), "not-the-optimum", "{} expected {}".format(got, best))
                w.event("objective", round(got, 3))

    def judge(self, w, P, ref, a, r):
        sys = ref.ref
        nx, nu, ny, fe = sys.nx, sys.nu, sys.ny, P["fe"]
        col = P["scheme"] == "collocation"
        tol = 1e-5 if col else 1e-3
        arr = lambda v: np.array(flat(v))
        x0 = np.array(a["x_0"] if a["x_0"] is not None else [0.3] * nx)
        par = np.array(given_p(P, a))
        q = flat(r.p_opt)[0] if P["popt"] else 0.0
        if P["popt"]:
            w.require(flat(r.p)[-1] == q, "wrong-record", "p of the result {} optimised {}".format(flat(r.p), q))
            w.require(-1 - tol <= q <= 1 + tol, "infeasible", "p_opt {}".format(q))
        q2 = flat(r.p_opt)[-1] if P.get("q2") else 0.0
        if P.get("q2"):
            w.require(flat(r.p)[0] == q2, "wrong-record", "p of the result {} optimised {}".format(flat(r.p), q2))
            w.require(P["q2"][1] - tol <= q2 <= P["q2"][2] + tol, "infeasible", "p_opt {}".format(q2))
        if P.get("h") is not None:
            w.require(abs(q + 0.5 * q2 - P["h"]) <= tol, "infeasible", "equality of parameters {} {}".format(q, q2))
        rest = flat(r.p)[int(bool(P.get("q2"))) :][: sys.np]
        w.require(near(rest, list(par), 1e-9), "wrong-record", lambda: "p of the result {} given {}".format(flat(r.p), par))
        ok = lambda cond, what: w.require(cond, "infeasible", what)
        near_ = lambda a_, b_: float(np.abs(np.asarray(a_) - np.asarray(b_)).max()) <= tol * (1 + float(np.abs(np.asarray(b_)).max())) if np.size(a_) else True
        h = ref.h
        X = [[arr(v)[:nx] for v in el] for el in r.x_data["values"]]
        XC = [[arr(v)[nx] for v in el] for el in r.x_data["values"]]
        Y = [[arr(v) for v in el] for el in r.y_data["values"]]
        U = [[arr(v) for v in el] for el in r.u_data["values"]]
        w.require(len(X) == fe + 1 and len(U) == fe, "wrong-record", "elements {} {}".format(len(X), len(U)))
        D, B = Reference.basis(ref.tau)
        fixed = nx - 1 if P.get("free") else nx
        ok(near_(X[0][0][:fixed], x0[:fixed]), lambda: "initial state {} expected {}".format(X[0][0], x0))

        def path(when, x, u, what):
            """Path constraints of a moment."""
            if P["ge"] and P["ge"][3] == when:
                ok(abs(P["ge"][0] * x[0] + P["ge"][1] * u[-1] - P["ge"][2]) <= tol, lambda: "equality at {}".format(what))
            if P.get("ge2") and P["ge2"][3] == when:
                ok(abs(P["ge2"][0] * x[-1] + P["ge2"][1] * u[0] - P["ge2"][2]) <= tol, lambda: "second equality at {}".format(what))
            for i, sign, c, at in ([[0, 1] + P["gi"]] if P["gi"] else []) + P.get("gis", []):
                if at == when:
                    ok(sign * x[i] <= c + tol, lambda: "inequality {} at {}".format([i, sign, c, at], what))

        total = 0.0
        for k in range(fe):
            t = P["t_0"] + k * h
            th = given_theta(P, a, k)
            to = flat(r.theta_opt[k])[0] if P["topt"] else 0.0
            to2 = flat(r.theta_opt[k])[-1] if P.get("to2") else 0.0
            if P.get("to2"):
                ok(P["to2"][1] - tol <= to2 <= P["to2"][2] + tol, "theta_opt {}".format(to2))
                w.require(flat(r.theta[k])[0] == to2, "wrong-record", "theta of the result")
            if P["topt"]:
                ok(-1 - tol <= to <= 1 + tol, "theta_opt {}".format(to))
                w.require(flat(r.theta[k])[-1] == to, "wrong-record", "theta of the result")
            extra = np.zeros(nx)
            yextra = P["yp"][0] * q + P["yp"][1] * th + P["yp"][2] * to
            extra[0] = P["popt"] * q + P["theta"] * th + P["topt"] * to
            extra += sys.E.sum(axis=1) * yextra
            extra[nx - 1] += (P["q2"][0] * q2 if P.get("q2") else 0) + (P["to2"][0] * to2 if P.get("to2") else 0)
            def f(s, x, u):
                return sys.A0 @ x + sys.B0 @ u + (sys.F @ par if sys.np else 0) + sys.d[:, 0] * np.sin(sys.omega * s) + extra
            u_at = lambda s: U[k][0] if P["dc"] == 1 else sum(Reference.lagrange(ref.tau_u, j, s) * U[k][j] for j in range(P["dc"]))
            times = flat(r.x_data["time"][k])
            if col:
                w.require(near(times, [t + h * s for s in ref.tau], 1e-9), "wrong-record", lambda: "times of element {}: {}".format(k, times))
                for j in range(1, len(ref.tau)):
                    dx = sum(D[j][i] * X[k][i] for i in range(len(ref.tau)))
                    u = u_at(ref.tau[j])
                    ok(near_(dx, h * f(t + h * ref.tau[j], X[k][j], u)), lambda: "dynamics at element {} point {}".format(k, j))
                    if ny:
                        ok(near_(Y[k][j - 1], sys.algebraic(X[k][j], u) + yextra), lambda: "algebraic equation, element {} point {}: {}".format(k, j, Y[k][j - 1]))
                    path("default", X[k][j], u, "element {} point {}".format(k, j))
                end = X[k][-1]
            else:
                w.require(near(times, [t], 1e-9), "wrong-record", lambda: "times of element {}: {}".format(k, times))
                # extra input as a constant: exact step of the same system
                spec = dict(P["sys"])
                big = linsys.LinSys(dict(spec, np=spec["np"] + 1, F=[list(rw) + [e] for rw, e in zip(np.array(spec["F"], float).reshape(nx, spec["np"]).tolist(), extra)]))
                end = big.step(X[k][0], U[k][0], t, h, list(par) + [1.0])
                if ny:
                    ok(near_(Y[k][0], sys.algebraic(end, U[k][0]) + yextra), lambda: "algebraic equation, element {}".format(k))
                path("default", end, U[k][0], "the end of element {}".format(k))
            path("end", end, u_at(1.0), "the end of element {}".format(k))
            ok(near_(end, X[k + 1][0]), lambda: "continuity after element {}: {} {}".format(k, end, X[k + 1][0]))
            path("start", X[k][0], u_at(0.0), "the start of element {}".format(k))
            for data, names_, n in ((X[k], ("xmax", "xmin"), nx), (U[k], ("umax", "umin"), nu), (Y[k], ("ymax", "ymin"), ny)):
                for v in data:
                    for name in names_:
                        for i, c in enumerate(vec(P.get(name), n)):
                            if c is not None:
                                ok(v[i] <= c + tol if name.endswith("max") else v[i] >= c - tol, lambda: "{} {} in element {}: {}".format(name, c, k, v))
            if P["du"]:
                prev = np.array(a["last_u"] or P.get("last")) if k == 0 else U[k - 1][0]
                for i, (lo, hi) in enumerate(changes(P, nu)):
                    d = U[k][0][i] - prev[i]
                    ok((lo is None or d >= lo - tol) and (hi is None or d <= hi + tol), lambda: "change of control before element {}: {} after {} limits {}".format(k, U[k][0], prev, P["du"]))
            total += P["s"] * X[k + 1][0][0] ** 2
        xf = X[-1][0]
        if P["hf"] is not None:
            ok(abs(xf[0] - P["hf"]) <= tol, lambda: "final state {}".format(xf))
        total += P["v"] * xf[0] ** 2 + XC[-1][0]
        if P["popt"]:
            total += 0.7 * (q - 0.2) ** 2
        if P.get("q2"):
            total += 0.4 * (q2 + 0.1) ** 2
        got = float(r.objective_opt_problem)
        w.require(abs(total - got) <= tol * (1 + abs(got)), "wrong-objective", "reported {} the trajectories give {}".format(got, total))
        w.require(abs(flat(r.x_c_final)[0] - XC[-1][0]) < 1e-9, "wrong-record", "x_c_final")
        # the data set is the same data
        ds = r.dataset
        want = [v for el in r.x_data["values"] for c in el for v in flat(c)]
        e = ds.data["x"]
        got_v = flat(e.values)
        w.require(near(got_v, want, 1e-12), "wrong-record", "dataset of x")
        tt = flat(e.time)
        w.require(all(b >= a_ - 1e-9 for a_, b in zip(tt, tt[1:])) and abs(tt[0] - P["t_0"]) < 1e-9 and abs(tt[-1] - P["t_f"]) < 1e-9, "wrong-record", lambda: "times of the data set {}".format(tt))
        w.require(near(flat(r.first_control()), list(U[0][0]), 1e-12), "wrong-record", "first control")
        # as is what can be asked for
        starts = [P["t_0"] + k * h for k in range(fe)]
        w.require(near(flat(r.time_breakpoints), starts + [P["t_f"]], 1e-9), "wrong-record", lambda: "breakpoints {}".format(r.time_breakpoints))
        moments = {"u": [[t] if P["dc"] == 1 else [t + h * s for s in ref.tau_u] for t in starts], "y": [[t + h * s for s in ref.tau[1:]] if col else [t + h] for t in starts]}
        for key, data in (("u", r.u_data), ("y", r.y_data)):
            if key == "y" and not ny:
                continue
            times = [flat(v) for v in data["time"]]
            w.require(len(times) == fe and all(near(a_, b, 1e-9) for a_, b in zip(times, moments[key])), "wrong-record", lambda: "times of {}: {} expected {}".format(key, times, moments[key]))
            e = ds.data[key]
            w.require(near(flat(e.values), [v for el in data["values"] for c in el for v in flat(c)], 1e-12) and near(flat(e.time), [v for el in moments[key] for v in el], 1e-9), "wrong-record", "dataset of {}".format(key))
        if P["topt"]:
            e = ds.data["theta_opt"]
            w.require(near(flat(e.values), [v for c in r.theta_opt for v in flat(c)], 1e-12) and near(flat(e.time), starts, 1e-9), "wrong-record", "dataset of theta_opt")
        for key, data in (("x", r.x_data), ("y", r.y_data), ("u", r.u_data)):
            for i, name in enumerate(getattr(r, key + "_names")):
                want = [[flat(c)[i] for c in el] for el in data["values"]]
                for got_v in (r.get_variable_by_name(name), r.get_variable(key, i)):
                    got_v = [[float(c) for c in el] for el in got_v]
                    w.require(got_v == want, "wrong-record", lambda: "values of {}: {} expected {}".format(name, got_v, want))
            w.require(ds.data[key].names == getattr(r, key + "_names"), "wrong-record", "names")


PROPS = {"L01": L01, "L02": L02}
