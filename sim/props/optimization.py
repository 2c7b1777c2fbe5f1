"""O01: optimization problems that are built, changed and solved again, with failures."""
import copy
import math

import numpy as np

from sim.core import Discard, InjectedError, InjectedInterrupt, Prop, Violation
from sim.lines import LineInterrupt
from sim.props.mpc import flat
from sim.props.solver import Faulty

NLP = {"print_time": False, "ipopt.print_level": 0, "ipopt.sb": "yes", "ipopt.tol": 1e-9}
QP = {"printLevel": "none"}
INF = float("inf")


class Ref:
    """The problem as numbers."""

    def __init__(self):
        self.blocks = []  # [first, size]
        self.lb, self.ub, self.anchor = [], [], []
        self.np = 0
        self.f = None  # {"q", "a", "s", "r", "e"}: see value()
        self.rows = []  # [coefficients, parameter coefficients, lb, ub]

    @property
    def n(self):
        return len(self.lb)

    def objective(self, x, p, exp):
        """Also for symbolic x."""
        out = 0
        if self.f is None:
            return out
        for i, (q, a, s, e) in enumerate(zip(self.f["q"], self.f["a"], self.f["s"], self.f["e"])):
            c = a
            for k, v in enumerate(s):
                c = c + v * p[k]
            out = out + q * (x[i] - c) ** 2
            if e:
                out = out + e * exp(0.3 * x[i])
        for i, j, r in self.f["r"]:
            out = out + r * (x[i] + x[j]) ** 2
        return out

    def row(self, k, x, p):
        c, d = self.rows[k][:2]
        out = 0
        for i, v in enumerate(c):
            if v:
                out = out + v * x[i]
        for i, v in enumerate(d):
            if v:
                out = out + v * p[i]
        return out

    def solve(self, p, lbx, ubx):
        import casadi

        x = casadi.SX.sym("x", self.n)
        g = casadi.vertcat(*[self.row(k, x, p) for k in range(len(self.rows))])
        s = casadi.nlpsol("r", "ipopt", {"x": x, "f": casadi.SX(self.objective(x, p, casadi.exp)), "g": g}, NLP)
        x0 = np.clip(self.anchor, lbx, ubx)
        r = s(x0=x0, lbx=lbx, ubx=ubx, lbg=[k[2] for k in self.rows], ubg=[k[3] for k in self.rows])
        return flat(r["x"]), float(r["f"]), bool(s.stats()["success"])


class O01(Prop):
    pid = "O01"
    quick_runs = 3000
    thorough_runs = 60000
    chunk = 10
    rule = "One run is a history of building, changing and solving one to three optimization problems, with failing, garbage returning and interrupted solvers, rejected operations and iteration limits; each answer is compared with an independent one for the problem as it stands."
    faults = ["solver raises", "interrupt before the solver", "interrupt after the solver", "solver fails with garbage", "interrupt at a line", "rejected operation", "iteration limit"]
    probes = ["solved after a failure", "changed after a solve", "objective changed after a solve", "parameters", "several problems", "quadratic problem", "other bounds for one solve", "warm start"]
    shrink_lists = ("ops",)
    components = {"real": ["yaocptool.optimization", "ipopt", "qpoases"], "simulated": ["failures of the solver", "interrupts"]}
    assumptions = ["convex problems (linear constraints) with a known feasible point: the optimal value is unique, answers are compared with tolerance 1e-5 (value) and 1e-3 (variables that the objective contains)"]

    # plan

    def gen(self, rng, tier):
        u = lambda a=-1, b=1: round(rng.uniform(a, b), 2)
        n_prob = rng.choice([1, 1, 2, 3])
        problems = [{"kind": rng.choice(["nlp", "nlp", "qp"]), "options": rng.choice(["own", "default", "shared"])} for _ in range(n_prob)]
        refs = [Ref() for _ in problems]
        ops = []

        def variable(k):
            # (qpOASES itself ignores the bounds of problems with a single variable)
            size = rng.choice([2, 3] if problems[k]["kind"] == "qp" and not refs[k].n else [1, 1, 2, 3])
            anchor = [u() for _ in range(size)]
            form = rng.choice(["none", "scalar", "vector", "vector", "int", "lower"])
            if form == "scalar":
                lb, ub = [min(anchor) - rng.choice([0.3, 2.0])] * size, [max(anchor) + rng.choice([0.3, 2.0])] * size
            elif form == "int":
                lb, ub = [-2] * size, [2] * size
            elif form == "vector":
                lb, ub = [a - u(0.05, 1) for a in anchor], [a + u(0.05, 1) for a in anchor]
            elif form == "lower":
                lb, ub = [a - 0.5 for a in anchor], [INF] * size
            else:
                lb, ub = [-INF] * size, [INF] * size
            R = refs[k]
            R.lb += lb
            R.ub += ub
            R.anchor += anchor
            ops.append(["variable", k, {"size": size, "lb": lb, "ub": ub, "anchor": anchor, "form": form, "how": rng.choice(["create", "include"])}])

        def objective(k):
            R = refs[k]
            n = R.n
            quad = problems[k]["kind"] == "qp"
            R.f = True
            ops.append(["objective", k, {
                "q": [u(0.2, 2) for _ in range(n)],
                "a": [u(-2, 2) for _ in range(n)],
                "s": [[u() if rng.random() < 0.6 else 0 for _ in range(R.np)] for _ in range(n)],
                "e": [0 if quad or rng.random() < 0.7 else u(0.1, 1) for _ in range(n)],
                "r": [[i, j, u(0.1, 1)] for i in range(n) for j in range(i) if rng.random() < 0.4],
            }])

        def constraint(k):
            R = refs[k]
            n = R.n
            m = rng.choice([1, 1, 2])
            how = rng.choice(["both", "lower", "upper", "none", "equality", "<=", ">=", "=="])
            if how in ("equality", "==") and sum(1 for r in R.rows if r) + m >= n:
                how = "both"
            eq = how in ("equality", "==")
            rows = []
            common = rng.choice([None, "scalar"]) if not how == "equality" else rng.choice([None, "scalar", "zero"])
            for _ in range(m):
                c = [u(-2, 2) if rng.random() < 0.7 else 0 for _ in range(n)]
                if not any(c):
                    c[rng.randrange(n)] = 1.0
                d = [u() if not eq and rng.random() < 0.5 else 0 for _ in range(R.np)]
                mid = sum(a * b for a, b in zip(c, R.anchor))
                margin = sum(abs(v) for v in d)
                rows.append([c, d, mid - margin - u(0.02, 1), mid + margin + u(0.02, 1), mid])
                R.rows.append(eq)
            if eq:
                for r in rows:
                    if common == "zero":  # through the anchor: c x - c x* = 0, as an own expression
                        r[2:4] = [r[4], r[4]]
                    else:
                        r[2:4] = [r[4], r[4]]
                if common == "scalar" and m > 1:
                    common = None
            elif common == "scalar":
                lo, hi = min(r[2] for r in rows), max(r[3] for r in rows)
                for r in rows:
                    r[2:4] = [lo, hi]
            if how in ("upper", "<="):
                for r in rows:
                    r[2] = -INF
            if how in ("lower", ">="):
                for r in rows:
                    r[3] = INF
            if how == "none":
                for r in rows:
                    r[2:4] = [-INF, INF]
            ops.append(["constraint", k, how, common, [r[:4] for r in rows]])

        def solve(k):
            R = refs[k]
            fault = rng.choice([None] * 7 + ["raise", "interrupt", "late", "fail", "line", "line", "limit"])
            if fault == "line":
                fault = ["line", int(math.exp(rng.uniform(0, math.log(60))))]
            ops.append(["solve", k, {
                "p": [u() for _ in range(R.np)],
                "guess": rng.choice(["anchor", "random", "none", "warm"]),
                "random": [u(-2, 2) for _ in range(R.n)],
                "bounds": rng.choice([None, None, None, "fix", "free"]),
                "form": rng.choice(["DM", "list"]),
            }, fault])

        for k in range(n_prob):
            if rng.random() < 0.3:
                R = refs[k]
                R.np += 1
                ops.append(["parameter", k, 1, "create"])
            variable(k)
            objective(k)
        for _ in range(rng.randrange(3, 12)):
            k = rng.randrange(n_prob)
            r = rng.random()
            if r < 0.42:
                solve(k)
            elif r < 0.54:
                variable(k)
                if problems[k]["kind"] == "qp" or rng.random() < 0.6:
                    objective(k)
            elif r < 0.64:
                size = rng.choice([1, 2])
                refs[k].np += size
                ops.append(["parameter", k, size, rng.choice(["create", "include"])])
            elif r < 0.74:
                objective(k)
            elif r < 0.9:
                constraint(k)
            else:
                ops.append(["bad", k, rng.choice(["size", "order", "objective", "bounds of x", "rhs", "both sides", "no relation", "parameters", "shape", "variable bounds of p", "order of g"])])
        for k in range(n_prob):
            solve(k)
        return {"problems": problems, "ops": ops}

    def simplify(self, plan):
        # operations depend on the earlier ones: drop whole problems
        for k in range(len(plan["problems"])):
            if any(op[1] == k for op in plan["ops"]):
                new = copy.deepcopy(plan)
                new["ops"] = [op for op in new["ops"] if op[1] != k]
                yield new

    # run

    def state(self, P):
        return [str(P.x), str(P.p), str(P.g), str(P.f)] + [flat(v) for v in (P.x_lb, P.x_ub, P.g_lb, P.g_ub)]

    def run(self, plan, w):
        from yaocptool import config
        from yaocptool.optimization import NonlinearOptimizationProblem, QuadraticOptimizationProblem

        shared = dict(NLP)
        defaults = copy.deepcopy(config.SOLVER_OPTIONS)
        probs = []
        for i, p in enumerate(plan["problems"]):
            if p["kind"] == "qp":
                P = QuadraticOptimizationProblem(name="p{}".format(i), solver_options=dict(QP))
                w.probe("quadratic problem")
            elif p["options"] == "default":
                P = NonlinearOptimizationProblem(name="p{}".format(i))
            else:
                P = NonlinearOptimizationProblem(name="p{}".format(i), solver_options=shared if p["options"] == "shared" else dict(NLP))
            probs.append({"P": P, "R": Ref(), "x": [], "p": [], "solved": False, "changed": set(), "failed": False, "last": None, "limited": False, "own": p["options"] != "shared", "kind": p["kind"]})
        if len(probs) > 1:
            w.probe("several problems")
        faulty = Faulty(w)
        faulty.install()
        try:
            for op in plan["ops"]:
                w.event(op[0], op[1])
                S = probs[op[1]]
                others = [(q, self.state(q["P"])) for q in probs if q is not S]
                getattr(self, "op_" + op[0])(w, S, op, faulty)
                for q, before in others:
                    w.require(self.state(q["P"]) == before, "another-problem-changed", op[0])
                self.judge_problem(w, S)
                w.require(shared == NLP, "options-changed", lambda: str(shared))
                w.require(config.SOLVER_OPTIONS == defaults, "options-changed", lambda: str(config.SOLVER_OPTIONS))
        finally:
            faulty.remove()
            config.SOLVER_OPTIONS.clear()
            config.SOLVER_OPTIONS.update(defaults)
        w.nontrivial = w.nontrivial or len(plan["ops"]) > 3

    def judge_problem(self, w, S):
        P, R = S["P"], S["R"]
        w.require(P.x.numel() == R.n and P.p.numel() == R.np and P.g.numel() == len(R.rows), "sizes", "{} variables, {} parameters, {} constraints".format(P.x.numel(), P.p.numel(), P.g.numel()))
        near = lambda a, b: len(a) == len(b) and all(x == y or abs(x - y) < 1e-12 for x, y in zip(a, b))
        w.require(near(flat(P.x_lb), R.lb) and near(flat(P.x_ub), R.ub), "bounds", "of the variables: {} {}".format(P.x_lb, P.x_ub))
        w.require(near(flat(P.g_lb), [r[2] for r in R.rows]) and near(flat(P.g_ub), [r[3] for r in R.rows]), "bounds", lambda: "of the constraints: {} {} instead of {}".format(P.g_lb, P.g_ub, R.rows))

    def op_variable(self, w, S, op, faulty):
        from casadi import DM, MX

        o, P, R = op[2], S["P"], S["R"]
        kw = {}
        if o["form"] in ("scalar", "int"):
            kw = dict(lb=o["lb"][0], ub=o["ub"][0])
            if o["form"] == "int" and o["how"] == "include":
                kw = dict(lb=float(o["lb"][0]), ub=float(o["ub"][0]))
        elif o["form"] == "vector":
            kw = dict(lb=DM(o["lb"]), ub=DM(o["ub"]))
        elif o["form"] == "lower":
            kw = dict(lb=DM(o["lb"]))
        name = "x{}".format(len(R.blocks))
        if o["how"] == "create":
            x = P.create_variable(name, o["size"], **kw)
        else:
            x = MX.sym(name, o["size"])
            P.include_variable(x, **kw)
        R.blocks.append([R.n, o["size"]])
        R.lb += o["lb"]
        R.ub += o["ub"]
        R.anchor += o["anchor"]
        S["x"] += [x[i] for i in range(o["size"])]
        S["changed"].add("variable")

    def op_parameter(self, w, S, op, faulty):
        from casadi import MX

        P, R = S["P"], S["R"]
        name = "p{}".format(R.np)
        if op[3] == "create":
            p = P.create_parameter(name, op[2])
        else:
            p = MX.sym(name, op[2])
            P.include_parameter(p)
        R.np += op[2]
        S["p"] += [p[i] for i in range(op[2])]
        S["changed"].add("parameter")
        w.probe("parameters")

    def op_objective(self, w, S, op, faulty):
        from casadi import exp

        o, R = op[2], S["R"]
        if len(o["q"]) > R.n or any(len(v) > R.np for v in o["s"]):
            raise Discard("shrunk")
        R.f = o
        S["P"].set_objective(R.objective(S["x"], S["p"], exp))
        S["changed"].add("objective")

    def op_constraint(self, w, S, op, faulty):
        from casadi import DM, vertcat

        _, _, how, common, rows = op
        P, R = S["P"], S["R"]
        first = len(R.rows)
        if any(len(r[0]) > R.n or len(r[1]) > R.np for r in rows):
            raise Discard("shrunk")
        R.rows += [list(r) for r in rows]
        expr = vertcat(*[R.row(k, S["x"], S["p"]) for k in range(first, len(R.rows))])
        lo, hi = [r[2] for r in rows], [r[3] for r in rows]
        value = lambda v: v[0] if common == "scalar" else DM(v)
        if how == "both":
            P.include_inequality(expr, lb=value(lo), ub=value(hi))
        elif how == "lower":
            P.include_inequality(expr, lb=value(lo))
        elif how == "upper":
            P.include_inequality(expr, ub=value(hi))
        elif how == "none":
            P.include_inequality(expr)
        elif how == "equality":
            if common == "zero":
                P.include_equality(expr - DM(lo))
                for r in R.rows[first:]:
                    r.append(r[2])  # the value is relative to it
                    r[2] = r[3] = 0.0
            else:
                P.include_equality(expr, rhs=value(lo))
        elif how == "<=":
            P.include_constraint(expr <= DM(hi))
        elif how == ">=":
            P.include_constraint(expr >= DM(lo))
        else:
            P.include_constraint(expr == DM(lo))
        S["changed"].add("constraint")

    def op_bad(self, w, S, op, faulty):
        from casadi import DM, MX, vertcat

        if not S["x"]:
            raise Discard("shrunk")
        P, x, kind = S["P"], vertcat(*S["x"]), op[2]
        before = self.state(P)
        n = S["R"].n
        other = MX.sym("other", 2)
        try:
            if kind == "size":
                P.include_variable(other, lb=DM([0, 0, 0]), ub=DM([1, 1, 1]))
            elif kind == "order":
                P.include_variable(other, lb=DM([0, 2]), ub=DM([1, 1]))
            elif kind == "order of g":
                P.include_inequality(vertcat(x[0], x[0]), lb=DM([0, 2]), ub=DM([1, 1]))
            elif kind == "objective":
                P.set_objective(vertcat(x[0], x[0]))
            elif kind == "bounds of x":
                P.include_inequality(x[0], ub=x[n - 1] + 1)
            elif kind == "rhs":
                P.include_equality(x, rhs=DM.zeros(n + 2))
            elif kind == "both sides":
                P.include_constraint(x[0] <= x[n - 1] * 2)
            elif kind == "no relation":
                P.include_constraint(x[0] + 1)
            elif kind == "shape":
                P.include_inequality(x, lb=DM.zeros(n + 2))
            elif kind == "variable bounds of p":
                if not S["p"]:
                    return
                P.include_variable(other, lb=vertcat(S["p"][0], 0), ub=DM([1, 1]))
            else:
                P.solve(DM.zeros(n), p=DM.zeros(S["R"].np + 1))
        except Exception:
            w.fault("rejected operation")
        else:
            raise Violation("accepted", kind)
        w.require(self.state(P) == before, "rejected-operation-changed-it", kind)

    def op_solve(self, w, S, op, faulty):
        from casadi import DM

        _, _, o, fault = op
        P, R = S["P"], S["R"]
        if len(o["p"]) != R.np or len(o["random"]) != R.n or R.f is None:
            raise Discard("shrunk")
        form = (lambda v: DM(v)) if o["form"] == "DM" else (lambda v: list(v))
        anchor = list(R.anchor)
        guess = {"anchor": form(anchor), "random": form(o["random"]), "none": None, "warm": form(anchor)}[o["guess"]]
        kw = {}
        if o["guess"] == "warm" and S["last"] is not None and max(map(abs, S["last"]["x"])) < 50 and len(S["last"]["x"]) == R.n and len(S["last"]["lam_g"]) == len(R.rows):
            guess = DM(S["last"]["x"])
            kw = dict(lam_x=DM(S["last"]["lam_x"]), lam_g=DM(S["last"]["lam_g"]))
            w.probe("warm start")
        lbx, ubx = list(R.lb), list(R.ub)
        if o["bounds"]:
            w.probe("other bounds for one solve")
            if o["bounds"] == "fix":
                lbx[0] = max(lbx[0], anchor[0] - 0.01)
                ubx[0] = min(ubx[0], anchor[0] + 0.02)
            else:
                lbx, ubx = [-5.0] * R.n, [5.0] * R.n
            kw["call_dict"] = dict(P.get_default_call_dict(), lbx=DM(lbx), ubx=DM(ubx))
        if R.np:
            kw["p"] = form(o["p"])
        plain = lambda d: {k: ({i: flat(v) for i, v in a.items()} if isinstance(a, dict) else flat(a)) for k, a in d.items()}
        before = plain(kw), flat(guess) if guess is not None else None
        if fault == "limit" and S["kind"] == "nlp" and not S["solved"] and not S["failed"]:
            # the caller changes the options of this problem (they have to stay with it)
            if not S["own"]:
                P.solver_options = dict(P.solver_options)
            P.solver_options["ipopt.max_iter"] = 0
            S["limited"] = True
            w.fault("iteration limit")
        faulty.next = fault if isinstance(fault, str) and fault != "limit" else None
        fired = sum(w.faults.values())
        error = None
        try:
            if isinstance(fault, list):
                with LineInterrupt(w, ("optimization/abstract_optimization_problem.py", "optimization/nonlinear_problem.py", "optimization/quadratic_problem.py"), fault[1]):
                    r = P.solve(guess, **kw)
            else:
                r = P.solve(guess, **kw)
        except (InjectedError, InjectedInterrupt) as e:
            error = e
        finally:
            faulty.next = None
        w.require((plain(kw), flat(guess) if guess is not None else None) == before, "arguments-changed", "by solve")
        failed = sum(w.faults.values()) > fired
        if error is not None:
            w.require(failed, "failure-hidden", repr(error))
            S["failed"] = True
            return
        w.require(not failed or fault == "fail", "failure-hidden", "the solver failed but a result was returned")
        success = bool(r["stats"]["success"])
        if fault == "fail":
            w.require(not success, "failure-hidden", "garbage reported as a solution")
            S["failed"] = True
            S["solved"] = True
            return
        p = o["p"]
        x = flat(r["x"])
        want_x, want_f, ok = R.solve([float(v) for v in p], lbx, ubx) if not any(len(k) > 4 for k in R.rows) else self.shifted(R, p, lbx, ubx)
        if S["limited"]:
            S["solved"], S["failed"] = True, True
            w.require(not success or abs(float(r["f"]) - want_f) < 1e-4 * (1 + abs(want_f)), "wrong-answer", "without iterations")
            return
        if not ok:
            return
        if S["failed"]:
            w.probe("solved after a failure")
        if S["solved"] and S["changed"]:
            w.probe("changed after a solve")
            if S["changed"] == {"objective"}:
                w.probe("objective changed after a solve")
        w.require(success, "not-solved", lambda: "{}".format(r["stats"].get("return_status")))
        w.require(len(x) == R.n, "wrong-answer", "{} variables".format(len(x)))
        for i in range(R.n):
            w.require(lbx[i] - 1e-6 <= x[i] <= ubx[i] + 1e-6, "bounds-violated", "variable {} is {}".format(i, x[i]))
        g = flat(r["g"])
        w.require(len(g) == len(R.rows), "wrong-answer", "{} constraints".format(len(g)))
        for k, row in enumerate(R.rows):
            v = float(R.row(k, x, p)) - (row[4] if len(row) > 4 else 0.0)
            w.require(abs(v - g[k]) < 1e-6 * (1 + abs(v)), "wrong-answer", "constraint {} is {} expected {}".format(k, g[k], v))
            w.require(row[2] - 1e-6 <= v <= row[3] + 1e-6, "constraint-violated", "constraint {} is {}".format(k, v))
        f = float(R.objective(x, p, math.exp))
        w.require(abs(f - float(r["f"])) < 1e-6 * (1 + abs(f)), "wrong-answer", "objective {} reported as {}".format(f, r["f"]))
        w.require(abs(f - want_f) < 1e-5 * (1 + abs(want_f)), "not-optimal", "{} instead of {}".format(f, want_f))
        for i in range(len(R.f["q"])):
            w.require(abs(x[i] - want_x[i]) < 5e-3 * (1 + abs(want_x[i])), "wrong-answer", "variable {} is {} expected {}".format(i, x[i], want_x[i]))
        S["last"] = {k: flat(r[k]) for k in ("x", "lam_x", "lam_g")}
        S["solved"], S["changed"], S["failed"] = True, set(), False
        w.event("x", [round(v, 3) + 0.0 for v in x])

    def shifted(self, R, p, lbx, ubx):
        other = copy.copy(R)
        other.rows = [r[:2] + ([r[4], r[4]] if len(r) > 4 else r[2:4]) for r in R.rows]
        return other.solve([float(v) for v in p], lbx, ubx)


PROPS = {"O01": O01}
