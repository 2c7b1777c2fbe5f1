"""Q01, Q02: models and optimal control problems built by any history of operations."""
import copy
import math

from sim.core import Discard, InjectedInterrupt, Prop, Violation
from sim.lines import LineInterrupt
from sim.props.mpc import flat

KINDS = ("x", "y", "u", "p", "theta")
INF = float("inf")

# expressions: ["v", name] ["c", number] ["t"] ["+", a, b, ..] ["*", a, b] ["sin", a]


def value(e, env):
    op = e[0]
    if op == "v":
        return env[e[1]]
    if op == "c":
        return e[1]
    if op == "t":
        return env["t"]
    if op == "x0":
        return env["x0:" + e[1]]
    if op == "+":
        return sum(value(a, env) for a in e[1:])
    if op == "*":
        return value(e[1], env) * value(e[2], env)
    return math.sin(value(e[1], env))


def names_of(e):
    if e[0] == "v":
        return {e[1]}
    return set().union(*[names_of(a) for a in e[1:] if isinstance(a, list)]) if len(e) > 1 and e[0] != "c" else set()


def subst(e, m):
    if e[0] == "v":
        return m.get(e[1], e)
    return [e[0]] + [subst(a, m) if isinstance(a, list) else a for a in e[1:]]


def symbolic(e, sym):
    from casadi import SX, sin

    op = e[0]
    if op == "v":
        return sym[e[1]]
    if op == "c":
        return SX(e[1])
    if op == "t":
        return sym["t"]
    if op == "+":
        out = 0
        for a in e[1:]:
            out = out + symbolic(a, sym)
        return out
    if op == "*":
        return symbolic(e[1], sym) * symbolic(e[2], sym)
    return sin(symbolic(e[1], sym))


def names(base, size):
    return [base] if size == 1 else ["{}_{}".format(base, i) for i in range(size)]


class RM:
    """Reference of a model."""

    def __init__(self, name, prefix):
        self.name, self.prefix = name, prefix
        self.v = {k: [] for k in KINDS}
        self.ode = {}
        self.alg = []
        self.upar = []
        self.uexpr = {}
        self.par = set()

    def all(self):
        return set().union(*self.v.values()) | set(self.upar)

    def usable(self):
        """Variables that expressions can contain."""
        return self.v["x"] + self.v["y"] + self.upar + self.v["p"] + self.v["theta"]

    def need(self, ok):
        if not ok:
            raise Discard("shrunk")

    def expressed(self):
        """Expressions of parametrized controls."""
        return [e for n, e in self.uexpr.items() if e != ["v", n]]

    def fits(self, exprs):
        self.need(all(names_of(e) <= set(self.usable()) for e in exprs))

    def variable(self, kind, base, size):
        if self.prefix:
            base = self.name + "_" + base
        new = names(base, size)
        self.need(not set(new) & self.all())
        self.include(kind, new)
        return new

    def include(self, kind, new):
        self.v[kind] += new
        for n in new:
            if kind == "x":
                self.ode[n] = None
            if kind == "u":
                self.upar.append(n)
                self.uexpr[n] = ["v", n]

    def equations(self, xs, odes, algs):
        self.need(set(xs) <= set(self.v["x"]))
        self.fits(odes + algs)
        self.ode.update(zip(xs, odes))
        self.alg += algs

    def replace(self, vs, exprs):
        m = dict(zip(vs, exprs))
        self.ode = {k: subst(e, m) if e is not None else None for k, e in self.ode.items()}
        self.alg = [subst(e, m) for e in self.alg]
        self.uexpr = {k: subst(e, m) for k, e in self.uexpr.items()}

    def remove(self, kind, n):
        self.need(n in self.v[kind])
        self.v[kind].remove(n)
        if kind == "x":
            del self.ode[n]
        if kind == "u":
            if n in self.upar:
                self.upar.remove(n)
            del self.uexpr[n]

    def merge(self, other):
        self.need(not self.all() & other.all())
        for k in KINDS:
            if k != "u":
                self.include(k, list(other.v[k]))
        self.v["u"] += other.v["u"]
        self.upar += other.upar
        self.uexpr.update(copy.deepcopy(other.uexpr))
        self.par |= other.par
        self.ode.update(other.ode)
        self.alg += copy.deepcopy(other.alg)

    def connect(self, us, ys, replace):
        self.need(set(us) <= set(self.upar) and set(us) <= set(self.v["u"]) and not set(us) & self.par)
        self.need(all(set(us).isdisjoint(names_of(e)) for e in ys))
        self.fits(ys)
        if replace:
            self.replace(us, ys)
        for u in us:
            self.remove("u", u)
        if not replace:
            self.alg += [["+", ["v", u], ["*", ["c", -1.0], y]] for u, y in zip(us, ys)]
            self.v["y"] += us

    def parametrize(self, us, exprs, upar):
        self.need(set(us) <= set(self.v["u"]) and not set(us) & self.par and len(us) == len(exprs))
        self.need(not set(upar) & self.all())
        for u in us:
            self.upar.remove(u)
        self.upar += upar
        self.fits(exprs)
        self.par |= set(us)
        self.replace(us, exprs)


class Real:
    """A real model and what is expected of it."""

    def __init__(self, model, ref):
        self.m, self.ref = model, ref
        self.alive = True

    def sym(self):
        m = self.m
        out = {"t": m.t}
        for v in (m.x, m.y, m.u, m.u_par, m.p, m.theta):
            for i in range(v.numel()):
                out[v[i].name()] = v[i]
        return out

    def vec(self, ns):
        from casadi import vertcat

        s = self.sym()
        return vertcat(*[s[n] for n in ns])


def text(v):
    return "nothing" if hasattr(v, "numel") and v.numel() == 0 else str(v)


def plain(model):
    """Everything that can be seen of a model."""
    return [text(getattr(model, k)) for k in KINDS + ("u_par", "u_expr", "x_0", "alg", "ode", "t", "tau")] + [
        sorted(str(k) + str(v) for k, v in model._ode.items()) if hasattr(model, "_ode") else None,
        model.is_parametrized(), [model.control_is_parametrized(u) for u in model.u.nz], model.name,
    ]


def env_of(ref, seed, extra=()):
    out = {"t": 0.37 + seed}
    for i, n in enumerate(sorted(ref.all() | set(extra))):
        out[n] = math.sin(1.3 * i + 0.7 + seed * 2.1 + 0.01 * sum(map(ord, n)))
    return out


def evaluate(m, exprs, env, extra=()):
    """Numbers of expressions of a model; `extra`: more symbols."""
    from casadi import Function, vertcat

    if not isinstance(exprs, (list, tuple)):
        exprs = [exprs]
    arg = vertcat(m.t, m.tau, m.x, m.y, m.u_par, m.p, m.theta, *extra)
    try:
        f = Function("f", [arg], [vertcat(e) for e in exprs])
    except Exception as e:
        raise Violation("unknown-variable", "the equations contain a variable that the model does not have: {}".format(str(e)[-300:]))
    point = []
    for v in (m.t, m.tau, m.x, m.y, m.u_par, m.p, m.theta) + tuple(extra):
        for i in range(v.numel()):
            n = v[i].name()
            point.append(env["t"] if n == "t" else 0.0 if n == "tau" else env[n])
    r = f(point)
    return [flat(q) for q in (r if isinstance(r, tuple) else (r,))]


def near(a, b):
    return len(a) == len(b) and all(x == y or abs(x - y) <= 1e-9 * (1 + abs(y)) for x, y in zip(a, b))


def judge_model(w, real, where):
    m, ref = real.m, real.ref
    for k in KINDS:
        got = [getattr(m, k)[i].name() for i in range(getattr(m, k).numel())]
        w.require(got == ref.v[k], "variables", lambda: "{}: {} of {} are {} expected {}".format(where, k, ref.name, got, ref.v[k]))
        w.require(getattr(m, "n_" + k) == len(got) and list(getattr(m, k + "_names")) == got, "variables", k)
    got = [m.u_par[i].name() for i in range(m.u_par.numel())]
    w.require(got == ref.upar, "variables", lambda: "{}: u_par of {} is {} expected {}".format(where, ref.name, got, ref.upar))
    w.require(m.x_0.numel() == len(ref.v["x"]), "variables", lambda: "{}: {} initial states for {}".format(where, m.x_0, ref.v["x"]))
    w.require(m.is_parametrized() == bool(ref.par), "variables", "is_parametrized")
    w.require([m.control_is_parametrized(u) for u in m.u.nz] == [n in ref.par for n in ref.v["u"]], "variables", "control_is_parametrized")
    w.require(m.system_type == ("dae" if ref.v["y"] else "ode"), "variables", "system_type")
    complete = all(e is not None for e in ref.ode.values())
    for seed in (0, 1):
        env = env_of(ref, seed)
        ode, alg, ue = evaluate(m, [m.ode, m.alg, m.u_expr], env)
        if complete:
            want = [value(ref.ode[n], env) for n in ref.v["x"]]
            w.require(near(ode, want), "equations", lambda: "{}: ode of {}: {} expected {}".format(where, ref.name, ode, want))
        want = [value(e, env) for e in ref.alg]
        w.require(near(alg, want), "equations", lambda: "{}: alg of {}: {} expected {}".format(where, ref.name, alg, want))
        want = [value(ref.uexpr[n], env) for n in ref.v["u"]]
        w.require(near(ue, want), "equations", lambda: "{}: controls of {}: {} expected {}".format(where, ref.name, ue, want))


class Gen:
    """Plans for models: operations are generated against references."""

    def __init__(self, rng):
        self.rng = rng
        self.count = 0
        self.refs = []
        self.ops = []

    def u(self, a=-2, b=2):
        return round(self.rng.uniform(a, b), 2)

    def fresh(self, base):
        self.count += 1
        return "{}{}".format(base, self.count)

    def expr(self, pool, t=True):
        rng = self.rng
        terms = [["c", self.u()]]
        for n in rng.sample(pool, min(len(pool), rng.randrange(1, 4))):
            terms.append(["*", ["c", self.u()], ["v", n]])
        if pool and rng.random() < 0.4:
            terms.append(["*", ["v", rng.choice(pool)], ["v", rng.choice(pool)]])
        if pool and rng.random() < 0.3:
            terms.append(["sin", ["v", rng.choice(pool)]])
        if t and rng.random() < 0.25:
            terms.append(["*", ["c", self.u()], ["t"]])
        return ["+"] + terms

    def add(self, *op):
        self.ops.append(list(op))

    def new_model(self):
        rng = self.rng
        r = RM("m{}".format(len(self.refs)), rng.random() < 0.25)
        self.refs.append(r)
        self.add("new", r.name, r.prefix)
        for kind, q in (("x", 0.95), ("y", 0.6), ("u", 0.7), ("p", 0.4), ("theta", 0.3)):
            if rng.random() < q:
                self.variable(len(self.refs) - 1, kind)
        self.equations(len(self.refs) - 1)

    def variable(self, k, kind):
        base, size = self.fresh(kind), self.rng.choice([1, 1, 2])
        self.refs[k].variable(kind, base, size)
        self.add("variable", k, kind, base, size)

    def equations(self, k):
        rng, r = self.rng, self.refs[k]
        todo = [n for n in r.v["x"] if r.ode[n] is None]
        odes = [self.expr(r.usable()) for _ in todo]
        algs = [self.expr(r.usable()) for _ in range(len(r.v["y"]) - len(r.alg))]
        if not odes and not algs:
            return
        first = all(r.ode[n] is None for n in r.v["x"])
        form = rng.choice(["list", "vector", "equation", "x"] if first else ["equation", "x"])
        r.equations(todo, odes, algs)
        self.add("equations", k, todo, odes, algs, form)

    def split(self, seq):
        return self.rng.sample(seq, self.rng.randrange(1, min(len(seq), 2) + 1))

    def fault(self):
        rng = self.rng
        return ["line", int(math.exp(rng.uniform(0, 4.2)))] if rng.random() < 0.12 else None

    def step(self):
        rng = self.rng
        k = rng.randrange(len(self.refs))
        r = self.refs[k]
        x = rng.random()
        if x < 0.14:
            self.variable(k, rng.choice(KINDS))
            if rng.random() < 0.8:
                self.equations(k)
        elif x < 0.2:
            self.equations(k)
        elif x < 0.34:
            others = [j for j, o in enumerate(self.refs) if j != k and not o.all() & r.all()]
            if others and not any(e is None for o in self.refs for e in o.ode.values()):
                js = [others[0]] if len(others) == 1 else self.split(others)
                if len(js) == 2 and self.refs[js[0]].all() & self.refs[js[1]].all():
                    js = js[:1]
                f = self.fault()
                eq = []
                self.add("merge", k, js, eq, f)
                if not f:
                    for j in js:
                        r.merge(self.refs[j])
        elif x < 0.5:
            free = [n for n in r.v["u"] if n in r.upar and n not in r.par]
            pool = [n for n in r.v["x"] + r.v["y"]]
            if free and pool:
                us = self.split(free)
                ys = [["v", rng.choice(pool)] if rng.random() < 0.6 else self.expr(pool) for _ in us]
                rep = rng.random() < 0.4
                self.add("connect", k, us, ys, rep)
                r.connect(us, ys, rep)
        elif x < 0.62:
            pool = r.usable()
            if pool:
                vs = self.split(pool)
                es = [self.expr(pool) for _ in vs]
                f = self.fault()
                self.add("replace", k, vs, es, f)
                if not f:
                    r.replace(vs, es)
        elif x < 0.72:
            free = [n for n in r.v["u"] if n in r.upar and n not in r.par]
            if free:
                us = self.split(free)
                rest = [n for n in r.usable() if n not in us]
                new = names(self.fresh("w"), rng.choice([1, 2])) if rng.random() < 0.7 else []
                es = [self.expr(rest + new) if rest + new else ["c", 1.0] for _ in us]
                self.add("parametrize", k, us, es, new)
                r.parametrize(us, es, new)
        elif x < 0.8:
            # a variable that is not used any more
            used = set().union(*[names_of(e) for e in list(r.ode.values()) + r.alg + r.expressed() if e is not None] or [set()])
            left = [(kind, n) for kind in KINDS for n in r.v[kind] if n not in used and n not in r.par]
            if left:
                kind, n = rng.choice(left)
                eq = None
                if kind == "y" and r.alg and rng.random() < 0.5:
                    eq = rng.randrange(len(r.alg))
                self.add("remove", k, kind, n, eq)
                r.remove(kind, n)
                if eq is not None:
                    del r.alg[eq]
        elif x < 0.9:
            self.add("copy", k, rng.choice(["shallow", "deep"]))
            c = copy.deepcopy(r)
            self.refs.append(c)
        else:
            self.add("bad", k, rng.choice(["replace", "duplicate", "connect", "parametrize again", "parametrize size", "equations", "alg and ode", "unknown name", "two names", "merge twice", "remove", "x without ode", "merge itself"]))


class Q01(Prop):
    pid = "Q01"
    quick_runs = 3000
    thorough_runs = 80000
    chunk = 20
    rule = "One run is a history of creating, composing, connecting, transforming and copying models, with rejected operations and operations that are interrupted at an arbitrary line; after each operation every model is compared, at random points, with references that are kept by name."
    faults = ["rejected operation", "interrupt at a line"]
    probes = ["merged", "connected", "replaced", "parametrized", "removed", "copied", "used after a rejected operation", "merged again after an interrupted merge"]
    shrink_lists = ("ops",)
    components = {"real": ["yaocptool.modelling.SystemModel and its mixins"], "simulated": ["the caller: its operations, mistakes and interrupts"]}
    assumptions = ["a model whose own change was interrupted is not used any more; all the other ones are", "names of variables are unique in a history"]

    def gen(self, rng, tier):
        g = Gen(rng)
        for _ in range(rng.choice([1, 2, 2, 3])):
            g.new_model()
        for _ in range(rng.randrange(2, 10)):
            g.step()
        return {"ops": g.ops}

    def run(self, plan, w):
        models = []
        state = {"rejected": False, "interrupted": False}
        for op in plan["ops"]:
            w.event(op[0], op[1])
            w.step()
            self.apply(w, models, op, state)
            for i, real in enumerate(models):
                if real.alive:
                    judge_model(w, real, op[0])
            if op[0] == "bad":
                state["rejected"] = True
            elif state["rejected"]:
                w.probe("used after a rejected operation")
        w.nontrivial = w.nontrivial or len(plan["ops"]) > 3

    def apply(self, w, models, op, state):
        from casadi import SX, vertcat
        from yaocptool.modelling import SystemModel
        from yaocptool.modelling.utils import der

        kind = op[0]
        if kind == "new":
            kw = {"model_name_as_prefix": True} if op[2] else {}
            models.append(Real(SystemModel(name=op[1], **kw), RM(op[1], op[2])))
            return
        if op[1] >= len(models) or not models[op[1]].alive:
            raise Discard("shrunk")
        real = models[op[1]]
        m, ref = real.m, real.ref
        if kind == "variable":
            _, _, k, base, size = op
            new = ref.variable(k, base, size)
            create = {"x": m.create_state, "y": m.create_algebraic_variable, "u": m.create_control, "p": m.create_parameter, "theta": m.create_theta}[k]
            v = create(base, size)
            w.require([v[i].name() for i in range(v.numel())] == new, "variables", "created {}".format(v))
        elif kind == "equations":
            _, _, xs, odes, algs, form = op
            if form in ("list", "vector") and xs != [n for n in ref.v["x"] if ref.ode[n] is None]:
                raise Discard("shrunk")
            s = real.sym()
            ref.equations(xs, odes, algs)
            o, a = [symbolic(e, s) for e in odes], [symbolic(e, s) for e in algs]
            if form == "equation":
                m.include_equations(*([der(s[n]) == e for n, e in zip(xs, o)] + [SX(0) == e for e in []]), **({"alg": a} if a else {}))
            else:
                kw = {}
                if o:
                    kw["ode"] = o if form != "vector" else vertcat(*o)
                    if form == "x":
                        kw["x"] = [s[n] for n in xs]
                if a:
                    kw["alg"] = a if form != "vector" else vertcat(*a)
                if form == "x" and not o:
                    kw.pop("x", None)
                m.include_equations(**kw)
        elif kind == "merge":
            _, _, js, eq, fault = op
            if any(j >= len(models) or not models[j].alive or models[j] is real for j in js):
                raise Discard("shrunk")
            target = copy.deepcopy(ref)
            for j in js:
                target.merge(models[j].ref)
            sources = [models[j].m for j in js]
            done = self.guarded(w, fault, lambda: m.merge(sources), ("modelling/system_model.py", "modelling/mixins/continuous_states_mixin.py", "modelling/mixins/algebraic_mixin.py", "modelling/mixins/control_mixin.py", "modelling/mixins/parameter_mixin.py"))
            if not done:
                real.alive = False
                state["interrupted"] = True
                return
            real.ref = target
            w.probe("merged")
            if state["interrupted"]:
                w.probe("merged again after an interrupted merge")
        elif kind == "connect":
            _, _, us, ys, rep = op
            s = real.sym()
            ref.connect(us, ys, rep)
            m.connect(vertcat(*[s[n] for n in us]), vertcat(*[symbolic(e, s) for e in ys]), replace=rep)
            w.probe("connected")
        elif kind == "replace":
            _, _, vs, es, fault = op
            ref.need(set(vs) <= set(ref.usable()))
            ref.fits(es)
            s = real.sym()
            done = self.guarded(w, fault, lambda: m.replace_variable(vertcat(*[s[n] for n in vs]), vertcat(*[symbolic(e, s) for e in es])), ("modelling/system_model.py", "_mixin.py"))
            if not done:
                real.alive = False
                return
            ref.replace(vs, es)
            w.probe("replaced")
        elif kind == "parametrize":
            _, _, us, es, new = op
            s = real.sym()
            ref.parametrize(us, es, new)
            par = {n: SX.sym(n) for n in new}
            s.update(par)
            m.parametrize_control(vertcat(*[s[n] for n in us]), vertcat(*[symbolic(e, s) for e in es]), vertcat(*par.values()) if new else None)
            w.probe("parametrized")
        elif kind == "remove":
            _, _, k, n, eq = op
            used = set().union(*[names_of(e) for e in list(ref.ode.values()) + ref.alg + ref.expressed() if e is not None] or [set()])
            ref.need(n not in used and n in ref.v[k] and (eq is None or eq < len(ref.alg)) and n not in ref.par)
            s = real.sym()
            ref.remove(k, n)
            if k == "y":
                m.remove_algebraic(s[n], m.alg[eq] if eq is not None else None)
                if eq is not None:
                    del ref.alg[eq]
            else:
                {"x": m.remove_state, "u": m.remove_control, "p": m.remove_parameter, "theta": m.remove_theta}[k](s[n])
            w.probe("removed")
        elif kind == "copy":
            c = m.get_copy() if op[2] == "shallow" else m.get_deepcopy()
            r = copy.deepcopy(ref)
            models.append(Real(c, r))
            w.probe("copied")
        elif kind == "bad":
            self.bad(w, real, models, op[2])
        self.lookup(w, real)

    def guarded(self, w, fault, call, files):
        """False: interrupted."""
        if not fault:
            call()
            return True
        try:
            with LineInterrupt(w, files, fault[1]):
                call()
        except InjectedInterrupt:
            return False
        return True

    def lookup(self, w, real):
        ref = real.ref
        for k in KINDS:
            if ref.v[k]:
                n = ref.v[k][-1]
                v = real.m.get_variable_by_name("^{}$".format(n), k)
                w.require(v.name() == n and real.m.has_variable(v), "variables", "{} not found".format(n))

    def bad(self, w, real, models, kind):
        from casadi import SX, vertcat

        m, ref = real.m, real.ref
        s = real.sym()
        before = plain(m)
        two = SX.sym("z", 2)
        have = lambda k: ref.v[k]
        free = [n for n in have("u") if n in ref.upar and n not in ref.par]
        try:
            if kind == "replace":
                if not ref.usable():
                    return
                m.replace_variable(s[ref.usable()[0]], two)
            elif kind == "duplicate":
                if not have("x"):
                    return
                m.include_state(vertcat(SX.sym("z"), s[have("x")[0]]))
            elif kind == "connect":
                if not free:
                    return
                m.connect(s[free[0]], two)
            elif kind == "parametrize again":
                if not ref.par:
                    return
                m.parametrize_control(vertcat(*([s[free[0]]] if free else []), s[sorted(ref.par)[0]]), two if free else SX.sym("z"), two)
            elif kind == "parametrize size":
                if not free:
                    return
                m.parametrize_control(s[free[0]], two, two)
            elif kind == "equations":
                if not have("x"):
                    return
                m.include_equations(ode=two, x=s[have("x")[0]])
            elif kind == "alg and ode":
                if not have("x"):
                    return
                m.include_equations(alg=two, ode=two, x=s[have("x")[0]])
            elif kind == "unknown name":
                m.get_variable_by_name("^nobody$")
            elif kind == "two names":
                if len(ref.all()) < 2 or len(set().union(*ref.v.values())) < 2:
                    return
                m.get_variable_by_name(".*")
            elif kind == "merge twice":
                other = next((o for o in models if o.alive and o is not real and set(o.ref.v["x"]) & set(have("x")) and any(str(a) == str(b) and a is not None for a in o.m._ode for b in m._ode)), None)
                if other is None:
                    return
                shared = {hash(k) for k in m._ode} & {hash(k) for k in other.m._ode}
                if not shared:
                    return
                extra = type(m)(name="extra")
                v = extra.create_state("extra_x")
                extra.include_equations(ode=[-v])
                m.merge([extra, other.m])
            elif kind == "remove":
                m.remove_parameter(two)
            elif kind == "x without ode":
                if not have("x"):
                    return
                m.include_equations(alg=two, x=s[have("x")[0]])
            elif kind == "merge itself":
                if not have("x"):
                    return
                m.merge([m])
        except InjectedInterrupt:
            raise
        except Exception:
            w.fault("rejected operation")
        else:
            raise Violation("accepted", kind)
        w.require(plain(m) == before, "rejected-operation-changed-it", kind)


def initial(n):
    """The state starts at its initial value."""
    return ["+", ["v", n], ["*", ["c", -1.0], ["x0", n]]]


class RO:
    """Reference of an optimal control problem."""

    def __init__(self, ref, t_0, t_f):
        self.m = ref
        self.t = (t_0, t_f)
        self.b = {}  # name -> {min, max, dmin, dmax, x_0}
        self.popt, self.topt = [], []
        self.cost = {"L": ["c", 0.0], "V": ["c", 0.0], "S": ["c", 0.0]}
        self.h = {"h": [], "h_initial": [], "h_final": []}
        self.g = {"g_eq": [], "g_ineq": []}  # [expression, when]
        self.guess = {"y": None, "u": None, "last": None}

    def exprs(self):
        return list(self.cost.values()) + [e for v in self.h.values() for e in v] + [e for v in self.g.values() for e, _ in v]

    def used(self):
        m = self.m
        return set().union(*[names_of(e) for e in list(m.ode.values()) + m.alg + self.exprs() + m.expressed() if e is not None] or [set()])

    def bounds(self, new, o):
        for i, n in enumerate(new):
            self.b[n] = {k: o[k][i] for k in ("min", "max", "dmin", "dmax", "x_0") if k in o}

    def give_guess(self, kind, before, new, guess):
        """The guess exists when it was given for all of them."""
        g = self.guess[kind]
        if g is not None:
            self.guess[kind] = g + (guess if guess is not None else [0.0] * len(new))
        elif before == 0 and guess is not None:
            self.guess[kind] = list(guess)

    def sub(self, m):
        self.cost = {k: subst(e, m) for k, e in self.cost.items()}
        self.h = {k: [subst(e, m) for e in v] for k, v in self.h.items()}
        self.g = {k: [[subst(e, m), when] for e, when in v] for k, v in self.g.items()}

    def merge(self, other):
        for k, kind in (("y", "y"), ("u", "u"), ("last", "u")):
            a, b = self.guess[k], other.guess[k]
            if a is None and not self.m.v[kind] and b is not None:
                self.guess[k] = list(b)
            elif a is not None and b is not None:
                self.guess[k] = a + b
            elif a is not None and not other.m.v[kind]:
                pass  # nothing to guess
            else:
                self.guess[k] = None
        self.m.merge(other.m)
        self.b.update(copy.deepcopy(other.b))
        self.popt += other.popt
        self.topt += other.topt
        for k in self.cost:
            self.cost[k] = ["+", self.cost[k], other.cost[k]]
        for k in self.h:
            self.h[k] = self.h[k] + copy.deepcopy(other.h[k])
        for k in self.g:
            self.g[k] = self.g[k] + copy.deepcopy(other.g[k])

    def drop(self, kind, us):
        order = self.m.v[kind]
        for k in [kind] + (["last"] if kind == "u" else []):
            if self.guess[k] is not None:
                self.guess[k] = [g for n, g in zip(order, self.guess[k]) if n not in us]


class RealProblem:
    def __init__(self, ocp, ref):
        self.p, self.ref = ocp, ref
        self.alive = True


def plain_problem(p):
    out = plain(p.model)
    for k in ("x_max", "y_max", "u_max", "delta_u_max", "p_opt_max", "theta_opt_max", "x_min", "y_min", "u_min", "delta_u_min", "p_opt_min", "theta_opt_min",
              "x_0", "p_opt", "theta_opt", "L", "V", "S", "h", "h_initial", "h_final", "g_eq", "g_ineq", "time_g_eq", "time_g_ineq", "y_guess", "u_guess", "t_0", "t_f", "eta", "last_u"):
        out.append((k, text(getattr(p, k))))
    return out


def judge_problem(w, real, where):
    p, ref = real.p, real.ref
    judge_model(w, Real(p.model, ref.m), where)
    num = lambda v: flat(v)
    for kind, lo, hi, key in (("x", "x_min", "x_max", ("min", "max")), ("y", "y_min", "y_max", ("min", "max")), ("u", "u_min", "u_max", ("min", "max")), ("u", "delta_u_min", "delta_u_max", ("dmin", "dmax")), ("x", "x_0", "x_0", ("x_0", "x_0"))):
        for attr, k in ((lo, key[0]), (hi, key[1])):
            got, want = num(getattr(p, attr)), [ref.b[n][k] for n in ref.m.v[kind]]
            w.require(near(got, want), "bounds", lambda: "{}: {} is {} expected {} for {}".format(where, attr, got, want, ref.m.v[kind]))
    for attr, ns, pool in (("p_opt", ref.popt, "p"), ("theta_opt", ref.topt, "theta")):
        v = getattr(p, attr)
        w.require([v[i].name() for i in range(v.numel())] == ns, "variables", lambda: "{}: {} is {} expected {}".format(where, attr, v, ns))
        for end, k in (("_min", "min"), ("_max", "max")):
            got, want = num(getattr(p, attr + end)), [ref.b[n][k] for n in ns]
            w.require(near(got, want), "bounds", lambda: "{}: {} is {} expected {}".format(where, attr + end, got, want))
        index = p.get_p_opt_indices() if attr == "p_opt" else p.get_theta_opt_indices()
        w.require([ref.m.v[pool][i] for i in index] == ns, "variables", "{}: indices of {}".format(where, attr))
    w.require((float(p.t_0), float(p.t_f)) == ref.t, "bounds", "times")
    finite = any(ref.b[n]["dmin"] != -INF or ref.b[n]["dmax"] != INF for n in ref.m.v["u"])
    w.require(bool(p.has_delta_u) == finite, "bounds", lambda: "{}: has_delta_u".format(where))
    for k in ("y", "u", "last"):
        g = getattr(p, k + "_guess") if k != "last" else p.last_u
        want = ref.guess[k]
        got = None if g is None else num(g)
        if want == [] or got == []:
            continue  # nothing to guess
        w.require((got is None) == (want is None) and (got is None or near(got, want)), "guess", lambda: "{}: {}_guess is {} expected {}".format(where, k, got, want))
    w.require(list(p.time_g_eq) == [q for _, q in ref.g["g_eq"]] and list(p.time_g_ineq) == [q for _, q in ref.g["g_ineq"]], "constraints", lambda: "{}: moments {} {}".format(where, p.time_g_eq, p.time_g_ineq))
    m = p.model
    from casadi import Function, vertcat

    for seed in (0, 1):
        env = env_of(ref.m, seed)
        x0 = [1.7 + 0.31 * i + seed for i in range(m.x_0.numel())]
        arg = vertcat(m.t, m.tau, m.x, m.y, m.u_par, m.p, m.theta)
        point = [env["t"], 0.0] + [env[n] for n in ref.m.v["x"] + ref.m.v["y"] + ref.m.upar + ref.m.v["p"] + ref.m.v["theta"]]
        names_ = ["L", "V", "S", "h", "h_initial", "h_final", "g_eq", "g_ineq"]
        try:
            f = Function("f", [arg, m.x_0], [vertcat(getattr(p, n)) for n in names_])
        except Exception as e:
            raise Violation("unknown-variable", "{}: a cost or constraint contains a variable that the problem does not have: {}".format(where, str(e)[-300:]))
        got = dict(zip(names_, [flat(q) for q in f(point, x0)]))
        for n in ("L", "V", "S"):
            want = [value(ref.cost[n], env)]
            w.require(near(got[n], want), "costs", lambda: "{}: {} is {} expected {}".format(where, n, got[n], want))
        at = dict(env, **{"x0:" + n: q for n, q in zip(ref.m.v["x"], x0)})
        for n in ("h", "h_initial", "h_final"):
            # the sign of an equality does not matter
            want = [abs(value(e, at)) for e in ref.h[n]]
            w.require(near([abs(v) for v in got[n]], want), "constraints", lambda: "{}: {} is {} expected {}".format(where, n, got[n], want))
        for n in ("g_eq", "g_ineq"):
            want = [value(e, env) for e, _ in ref.g[n]]
            w.require(near(got[n], want), "constraints", lambda: "{}: {} is {} expected {}".format(where, n, got[n], want))
    p.pre_solve_check()


class Q02(Prop):
    pid = "Q02"
    quick_runs = 1600
    thorough_runs = 40000
    chunk = 20
    rule = "One run is a history of building, extending, merging, connecting and transforming optimal control problems, with rejected and interrupted operations; after each operation all problems, and the models they were made of, are compared with references that are kept by name."
    faults = ["rejected operation", "interrupt at a line"]
    probes = ["merged", "connected", "replaced", "parametrized", "removed", "used after a rejected operation", "optimised parameter", "guess", "cost state", "quadratic cost", "several merged", "last controls"]
    shrink_lists = ("ops",)
    components = {"real": ["yaocptool.modelling.OptimalControlProblem", "yaocptool.modelling.SystemModel"], "simulated": ["the caller: its operations, mistakes and interrupts"]}
    assumptions = ["a problem whose own change was interrupted is not used any more; all the other ones are", "names of variables are unique in a history"]

    # plan

    def gen(self, rng, tier):
        g = Gen(rng)
        n = rng.choice([1, 2, 2, 3])
        for _ in range(n):
            g.new_model()
        models = list(g.refs)
        probs = []
        same = (round(rng.uniform(-1, 1), 1), round(rng.uniform(1.5, 3), 1))
        u = lambda a=-3, b=3: round(rng.uniform(a, b), 2)
        for k in range(n):
            m = copy.deepcopy(models[k])
            t = same if rng.random() < 0.85 else (0.25, 5.0)
            o = {"t_0": t[0], "t_f": t[1], "x_0": [u() for _ in m.v["x"]], "u_max": [u(0, 3) for _ in m.v["u"]] if rng.random() < 0.4 else None,
                 "y_guess": [u() for _ in m.v["y"]] if m.v["y"] and rng.random() < 0.3 else None, "u_guess": [u() for _ in m.v["u"]] if m.v["u"] and rng.random() < 0.3 else None,
                 "last_u": [u() for _ in m.v["u"]] if m.v["u"] and rng.random() < 0.2 else None}
            if rng.random() < 0.15 and not m.par:
                o["obj"] = self.quadratic(rng, m)
            g.add("problem", k, o)
            probs.append(self.fresh_ref(m, o))
        for _ in range(rng.randrange(3, 12)):
            self.step(rng, g, probs)
        return {"ops": g.ops}

    def fresh_ref(self, m, o):
        r = RO(m, o["t_0"], o["t_f"])
        for i, n in enumerate(m.v["x"]):
            r.b[n] = {"min": -INF, "max": INF, "x_0": o["x_0"][i]}
            r.h["h_initial"].append(initial(n))
        for n in m.v["y"]:
            r.b[n] = {"min": -INF, "max": INF}
        for i, n in enumerate(m.v["u"]):
            r.b[n] = {"min": -INF, "max": o["u_max"][i] if o["u_max"] else INF, "dmin": -INF, "dmax": INF}
        for k in ("y", "u"):
            r.guess[k] = list(o[k + "_guess"]) if o[k + "_guess"] else None
        r.guess["last"] = list(o["last_u"]) if o.get("last_u") else None
        if o.get("obj") is not None:
            self.quadratic_cost(r, o["obj"])
        return r

    def step(self, rng, g, probs):
        k = rng.randrange(len(probs))
        r = probs[k]
        m = r.m
        u = lambda a=-3, b=3: round(rng.uniform(a, b), 2)
        x = rng.random()
        size = rng.choice([1, 1, 2, 3])

        def bounds(delta=False):
            o = {}
            for lo, hi in (("min", "max"),) + ((("dmin", "dmax"),) if delta else ()):
                o[lo] = [u(-3, 0) for _ in range(size)] if rng.random() < 0.6 else None
                o[hi] = [u(0, 3) for _ in range(size)] if rng.random() < 0.6 else None
            o["form"] = rng.choice(["DM", "list"])
            return o

        if x < 0.1:
            o = dict(bounds(), base=g.fresh("x"), size=size, x_0=[u() for _ in range(size)], initial=None)
            o["how"] = rng.choice(["create", "include"])
            # equations of a variable that is created by the problem do not contain it
            new = names(o["base"], size) if o["how"] == "include" else []
            o["ode"] = [g.expr(m.usable() + new) if m.usable() + new else ["c", u()] for _ in range(size)]
            if rng.random() < 0.3 and new + m.v["x"]:
                o["initial"] = [g.expr(new or m.v["x"], t=False) for _ in range(size)]
            o["late"] = not m.v["x"] and rng.random() < 0.5  # (refused when other states have equations)
            op = ["state", k, o]
        elif x < 0.2:
            o = dict(bounds(), base=g.fresh("y"), size=size, guess=[u() for _ in range(size)] if rng.random() < 0.5 else None)
            o["how"] = rng.choice(["create", "include"])
            pool = m.usable() + (names(o["base"], size) if o["how"] == "include" else [])
            o["alg"] = [g.expr(pool) if pool else ["c", u()] for _ in range(size)]
            o["late"] = rng.random() < 0.25
            op = ["algebraic", k, o]
        elif x < 0.32:
            if r.guess["last"] is not None:
                return
            o = dict(bounds(True), base=g.fresh("u"), size=size, guess=[u() for _ in range(size)] if r.guess["u"] is not None or rng.random() < 0.5 else None)
            if rng.random() < 0.3:
                for q in ("min", "max", "dmin", "dmax"):
                    if o[q]:
                        o[q] = [o[q][0]] * size
                o["form"] = "scalar"
            o["how"] = rng.choice(["create", "include", "input"])
            op = ["control", k, o]
        elif x < 0.42:
            o = dict(bounds(), base=g.fresh("p"), size=size, kind=rng.choice(["p", "theta"]), how=rng.choice(["create", "include", "set"]))
            o["form"] = "DM"
            op = ["opt", k, o]
        elif x < 0.43:
            if not m.v["u"]:
                return
            op = ["last", k, [u() for _ in m.v["u"]]]
        elif x < 0.45:
            op = ["cost state", k]
            if "o{}_x_c".format(k) in m.all():
                return
        elif x < 0.47:
            if m.par or not m.v["x"] + m.v["u"]:
                return
            op = ["quadratic", k, self.quadratic(rng, m)]
        elif x < 0.54:
            kind = rng.choice(["L", "L", "V", "S"])
            pool = m.usable() if kind != "V" else m.v["x"] + m.v["p"]
            op = ["cost", k, kind, g.expr(pool, t=kind != "V"), rng.choice(["add", "set"])]
            if rng.random() < 0.1:
                op[3:] = ["c", rng.choice([0, 2, u()])], "number"
        elif x < 0.64:
            kind = rng.choice(["h", "h_initial", "h_final", "g_eq", "g_ineq"])
            pool = m.v["p"] if kind == "h" else m.usable()
            op = ["constraint", k, kind, [g.expr(pool, t=kind[0] == "g") for _ in range(size)], rng.choice(["default", "end", "start"]), rng.choice(["list", "vector"])]
        elif x < 0.74:
            others = [j for j, o in enumerate(probs) if j != k and o.t == r.t and not o.m.all() & m.all()]
            if not others:
                return
            some = [rng.choice(others)]
            for j in rng.sample(others, len(others)):
                if rng.random() < 0.5 and not any(probs[j].m.all() & probs[i].m.all() for i in some):
                    some.append(j)
            op = ["merge", k, some, g.fault(), rng.choice(["list", "tuple", "iterator"])]
        elif x < 0.8:
            free = [n for n in m.v["u"] if n in m.upar and n not in m.par]
            pool = m.v["x"] + m.v["y"]
            if not free or not pool:
                return
            us = g.split(free)
            op = ["connect", k, us, [["v", rng.choice(pool)] if rng.random() < 0.7 else g.expr(pool) for _ in us], rng.random() < 0.4]
        elif x < 0.86:
            pool = m.usable()
            if not pool:
                return
            vs = g.split(pool)
            op = ["replace", k, vs, [g.expr(pool) for _ in vs], rng.choice(["list", "vector"])]
        elif x < 0.9:
            free = [n for n in m.v["u"] if n in m.upar and n not in m.par]
            if not free:
                return
            us = g.split(free)
            rest = [n for n in m.usable() if n not in us]
            new = names(g.fresh("w"), rng.choice([1, 2])) if rng.random() < 0.7 else []
            op = ["parametrize", k, us, [g.expr(rest + new) if rest + new else ["c", 1.0] for _ in us], new]
        elif x < 0.93:
            left = [(kind, n) for kind in ("y", "u") for n in m.v[kind] if n not in r.used() and n not in m.par]
            if not left:
                return
            op = ["remove", k] + list(rng.choice(left))
        else:
            op = ["bad", k, rng.choice(["state bounds", "state x_0", "no initial", "algebraic bounds", "control bounds", "control without guess", "control guess", "merge times", "replace", "connect", "p_opt bounds", "parametrize again", "theta_opt bounds"])]
        g.add(*op)
        if op[0] != "bad" and not (op[0] == "merge" and op[3]):
            self.reference(op, probs)

    def quadratic(self, rng, m):
        """Weights and references of a quadratic cost."""
        u = lambda: round(rng.uniform(-2, 2), 2)
        square = lambda n: [[u() for _ in range(n)] for _ in range(n)]
        o = {}
        nx, nu = len(m.v["x"]), len(m.v["u"])
        for k, n in (("Q", nx), ("R", nu), ("Qv", nx), ("Rv", nx)):
            if n and rng.random() < 0.6:
                o[k] = square(n)
        for k, n in (("x_ref", nx), ("u_ref", nu)):
            if n and rng.random() < 0.5:
                o[k] = [u() for _ in range(n)]
        return o

    def quadratic_cost(self, r, o):
        def form(matrix, ns, ref):
            n = range(len(ns))
            d = [["+", ["v", ns[i]], ["c", -ref[i]]] for i in n]
            return ["+"] + [["*", ["c", matrix[i][j]], ["*", d[i], d[j]]] for i in n for j in n]

        m = r.m
        xs, us = m.v["x"], m.v["u"]
        m.need(not m.par and all(len(o.get(k, v)) == len(v) for k, v in (("Q", xs), ("R", us), ("Qv", xs), ("Rv", xs), ("x_ref", xs), ("u_ref", us))))
        xr, ur = o.get("x_ref", [0.0] * len(xs)), o.get("u_ref", [0.0] * len(us))
        zero = ["c", 0.0]
        r.cost["L"] = ["+", form(o["Q"], xs, xr) if "Q" in o else zero, form(o["R"], us, ur) if "R" in o else zero]
        r.cost["V"] = ["+", form(o["Qv"], xs, xr) if "Qv" in o else zero, form(o["Rv"], xs, [0.0] * len(xs)) if "Rv" in o else zero]

    # what has to happen

    def reference(self, op, probs):
        kind, k = op[0], op[1]
        if k >= len(probs):
            raise Discard("shrunk")
        r = probs[k]
        m = r.m
        full = lambda o, n, keys: dict(o, **{q: o[q] if o.get(q) else [(-INF if q in ("min", "dmin") else INF)] * n for q in keys})
        if kind == "state":
            o = op[2]
            new = names(o["base"], o["size"])
            m.need(not set(new) & m.all())
            m.need(not (o.get("late") and m.v["x"]))
            m.include("x", new)
            m.equations(new, o["ode"], [])
            r.bounds(new, dict(full(o, o["size"], ("min", "max")), x_0=o["x_0"] if o["initial"] is None else [0.0] * o["size"]))
            r.h["h_initial"] += [initial(n) for n in new] if o["initial"] is None else o["initial"]
        elif kind == "algebraic":
            o = op[2]
            new = names(o["base"], o["size"])
            m.need(not set(new) & m.all())
            before = len(m.v["y"])
            m.include("y", new)
            m.equations([], [], o["alg"])
            r.bounds(new, full(o, o["size"], ("min", "max")))
            r.give_guess("y", before, new, o["guess"])
        elif kind == "control":
            o = op[2]
            new = names(o["base"], o["size"])
            m.need(not set(new) & m.all() and not (r.guess["u"] is not None and o["guess"] is None) and r.guess["last"] is None)
            before = len(m.v["u"])
            m.include("u", new)
            r.bounds(new, full(o, o["size"], ("min", "max", "dmin", "dmax")))
            r.give_guess("u", before, new, o["guess"])
        elif kind == "opt":
            o = op[2]
            new = names(o["base"], o["size"])
            if m.prefix and o["how"] != "include":  # created by the model
                new = names(m.name + "_" + o["base"], o["size"])
            m.need(not set(new) & m.all())
            m.include(o["kind"], new)
            r.bounds(new, full(o, o["size"], ("min", "max")))
            if o["kind"] == "p":
                r.popt = r.popt + new
            else:
                r.topt = r.topt + new
        elif kind == "cost state":
            new = "o{}_x_c".format(k)
            m.need(new not in m.all())
            m.include("x", [new])
            m.equations([new], [r.cost["L"]], [])
            r.bounds([new], {"min": [-INF], "max": [INF], "x_0": [0.0]})
            r.h["h_initial"] += [initial(new)]
        elif kind == "last":
            m.need(len(op[2]) == len(m.v["u"]))
            r.guess["last"] = list(op[2])
        elif kind == "quadratic":
            self.quadratic_cost(r, op[2])
        elif kind == "cost":
            m.fits([op[3]])
            r.cost[op[2]] = ["+", r.cost[op[2]], op[3]] if op[4] == "add" else op[3]
        elif kind == "constraint":
            m.fits(op[3])
            if op[2] in r.h:
                r.h[op[2]] = r.h[op[2]] + op[3]
            else:
                r.g[op[2]] = r.g[op[2]] + [[e, op[4]] for e in op[3]]
        elif kind == "merge":
            for j in op[2]:
                m.need(j < len(probs) and probs[j] is not r and probs[j].t == r.t)
                r.merge(copy.deepcopy(probs[j]))
        elif kind == "connect":
            us, ys, rep = op[2:]
            order = list(m.v["u"])
            gu, gy = r.guess["u"], r.guess["y"]
            m.need(set(us) <= set(order))
            moved = [gu[order.index(n)] for n in us] if gu is not None else None
            ny = len(m.v["y"])
            r.drop("u", us)
            m.connect(us, ys, rep)
            if rep:
                r.sub(dict(zip(us, ys)))
            else:
                if gy is not None:
                    r.guess["y"] = gy + (moved if moved is not None else [0.0] * len(us))
        elif kind == "replace":
            vs, es = op[2], op[3]
            m.need(set(vs) <= set(m.usable()))
            m.fits(es)
            m.replace(vs, es)
            r.sub(dict(zip(vs, es)))
        elif kind == "parametrize":
            us, es, new = op[2:]
            m.parametrize(us, es, new)
            r.sub(dict(zip(us, es)))
        elif kind == "remove":
            m.need(op[3] in m.v[op[2]] and op[3] not in r.used() and op[3] not in m.par)
            r.drop(op[2], [op[3]])
            m.remove(op[2], op[3])

    # run

    def run(self, plan, w):
        q1 = Q01()
        models, probs, state = [], [], {"rejected": False, "interrupted": False}
        for op in plan["ops"]:
            w.event(op[0], op[1])
            w.step()
            if op[0] in ("new", "variable", "equations"):
                q1.apply(w, models, op, state)
            elif op[0] == "problem":
                self.problem(w, models, probs, op)
            else:
                if op[1] >= len(probs) or not probs[op[1]].alive:
                    raise Discard("shrunk")
                self.apply(w, probs, op)
            for real in models:
                judge_model(w, real, op[0])
            for real in probs:
                if real.alive:
                    judge_problem(w, real, op[0])
            if op[0] == "bad":
                state["rejected"] = True
            elif state["rejected"]:
                w.probe("used after a rejected operation")
        w.nontrivial = w.nontrivial or len(plan["ops"]) > 3

    def problem(self, w, models, probs, op):
        from casadi import DM
        from yaocptool.modelling import OptimalControlProblem

        if op[1] >= len(models):
            raise Discard("shrunk")
        o, real = op[2], models[op[1]]
        if len(o["x_0"]) != len(real.ref.v["x"]) or any(e is None for e in real.ref.ode.values()):
            raise Discard("shrunk")
        for k in ("u", "y"):
            if o[k + "_guess"] and len(o[k + "_guess"]) != len(real.ref.v[k]):
                raise Discard("shrunk")
        if o.get("last_u") and len(o["last_u"]) != len(real.ref.v["u"]):
            raise Discard("shrunk")
        if o["u_max"] is not None and len(o["u_max"]) != len(real.ref.v["u"]):
            raise Discard("shrunk")
        kw = {}
        if o["u_max"]:
            kw["u_max"] = DM(o["u_max"])
        for k in ("u_guess", "y_guess", "last_u"):
            if o.get(k):
                kw[k] = DM(o[k])
                w.probe("guess" if k != "last_u" else "last controls")
        ref = self.fresh_ref(copy.deepcopy(real.ref), o)
        given = {}
        if o.get("obj") is not None:
            kw["obj"] = self.weights(o["obj"])
            given = {k: str(v) for k, v in kw["obj"].items()}
            w.probe("quadratic cost")
        p = OptimalControlProblem(real.m, name="o{}".format(len(probs)), x_0=list(o["x_0"]), t_0=o["t_0"], t_f=o["t_f"], **kw)
        w.require({k: str(v) for k, v in kw.get("obj", {}).items()} == given, "argument-changed", "weights of the quadratic cost")
        probs.append(RealProblem(p, ref))

    def weights(self, o):
        from casadi import DM

        return {k: DM(v) for k, v in o.items()}

    def apply(self, w, probs, op):
        from casadi import DM, SX, vertcat

        def returned(v):
            w.require([e.name() for e in v.nz] == names(o["base"], o["size"]), "variables", "the variable returned")

        real = probs[op[1]]
        p, ref = real.p, real.ref
        kind = op[0]
        s = Real(p.model, ref.m).sym()
        if kind == "bad":
            return self.bad(w, real, probs, op[2])
        if kind == "merge":
            if any(j >= len(probs) or not probs[j].alive for j in op[2]):
                raise Discard("shrunk")
            refs = [q.ref for q in probs]
            trial = copy.deepcopy(refs)
            self.reference(op, trial)
            fault = op[3]
            form = {"list": list, "tuple": tuple, "iterator": iter}[op[4]]
            call = lambda: p.merge(form([probs[j].p for j in op[2]]))
            if not Q01().guarded(w, fault, call, ("modelling/ocp.py", "modelling/system_model.py", "_mixin.py")):
                real.alive = False
                return
            real.ref = trial[op[1]]
            w.probe("merged")
            if len(op[2]) > 1:
                w.probe("several merged")
            return
        self.reference(op, [q.ref for q in probs])
        if kind == "cost state":
            v = p.create_cost_state()
            w.require(v.numel() == 1 and v.name() == p.name + "_x_c", "variables", "the cost state")
            w.probe("cost state")
            return
        if kind == "last":
            p.last_u = DM(op[2])
            w.probe("last controls")
            return
        if kind == "quadratic":
            o = self.weights(op[2])
            given = {k: str(v) for k, v in o.items()}
            p.create_quadratic_cost(o)
            w.require({k: str(v) for k, v in o.items()} == given, "argument-changed", "weights of the quadratic cost")
            w.probe("quadratic cost")
            return
        o = op[2]
        form = lambda v: DM(v) if o["form"] == "DM" else list(v) if o["form"] == "list" else v[0]
        if kind in ("state", "algebraic", "control"):
            v = SX.sym(o["base"], o["size"])
            for n, e in zip(names(o["base"], o["size"]), v.nz):
                s[n] = e
            pre = {"state": "x", "algebraic": "y", "control": "u"}[kind]
            kw = {}
            for key, name in (("min", pre + "_min"), ("max", pre + "_max"), ("dmin", "delta_u_min"), ("dmax", "delta_u_max")):
                if o.get(key):
                    kw[name] = form(o[key])
            if kind == "state":
                kw["ode"] = vertcat(*[symbolic(e, s) for e in o["ode"]])
                if o["initial"] is None:
                    kw["x_0"] = form(o["x_0"])
                else:
                    kw["h_initial"] = vertcat(*[symbolic(e, s) for e in o["initial"]])
                late = {"ode": kw.pop("ode")} if o.get("late") else {}
                if o.get("how") == "create":
                    returned(p.create_state(o["base"], o["size"], **kw))
                else:
                    p.include_state(v, **kw)
                if late:
                    p.include_system_equations(**late)
            elif kind == "algebraic":
                if o["guess"] is not None:
                    kw["y_guess"] = form(o["guess"])
                    w.probe("guess")
                kw["alg"] = vertcat(*[symbolic(e, s) for e in o["alg"]])
                late = {"alg": kw.pop("alg")} if o.get("late") else {}
                if o.get("how") == "create":
                    returned(p.create_algebraic(o["base"], o["size"], **kw))
                else:
                    p.include_algebraic(v, **kw)
                if late:
                    p.include_system_equations(**late)
            else:
                if o["guess"] is not None:
                    kw["u_guess"] = DM(o["guess"])
                    w.probe("guess")
                if o.get("how", "include") != "include":
                    returned((p.create_control if o["how"] == "create" else p.create_input)(o["base"], o["size"], **kw))
                else:
                    p.include_control(v, **kw)
        elif kind == "opt":
            w.probe("optimised parameter")
            lo, hi = (form(o[q]) if o[q] else None for q in ("min", "max"))
            v = SX.sym(o["base"], o["size"])
            if o["kind"] == "p":
                if o["how"] == "create":
                    p.create_optimization_parameter(o["base"], o["size"], p_opt_min=lo, p_opt_max=hi)
                elif o["how"] == "include":
                    p.include_optimization_parameter(v, p_opt_min=lo, p_opt_max=hi)
                else:
                    v = p.create_parameter(o["base"], o["size"])
                    p.set_parameter_as_optimization_parameter(v, lo, hi)
            else:
                if o["how"] == "create":
                    p.create_optimization_theta(o["base"], o["size"], new_theta_opt_min=lo, new_theta_opt_max=hi)
                elif o["how"] == "include":
                    p.include_optimization_theta(v, theta_opt_min=lo, theta_opt_max=hi)
                else:
                    v = p.create_theta(o["base"], o["size"])
                    p.set_theta_as_optimization_theta(v, lo, hi)
        elif kind == "cost":
            e = symbolic(op[3], s) if op[4] != "number" else op[3][1]
            setattr(p, op[2], getattr(p, op[2]) + e if op[4] == "add" else e)
        elif kind == "constraint":
            es = [symbolic(e, s) for e in op[3]]
            es = es if op[5] == "list" else vertcat(*es)
            if op[2] == "h":
                p.include_equality(es)
            elif op[2] == "h_initial":
                p.include_initial_time_equality(es)
            elif op[2] == "h_final":
                p.include_final_time_equality(es)
            elif op[2] == "g_eq":
                p.include_time_equality(es, when=op[4])
            else:
                p.include_time_inequality(es, when=op[4])
        elif kind == "connect":
            us, ys = [s[n] for n in op[2]], [symbolic(e, s) for e in op[3]]
            p.connect(vertcat(*us), vertcat(*ys), replace=op[4])
            w.probe("connected")
        elif kind == "replace":
            vs, es = [s[n] for n in op[2]], [symbolic(e, s) for e in op[3]]
            if op[4] == "vector":
                vs, es = vertcat(*vs), vertcat(*es)
            p.replace_variable(vs, es)
            w.probe("replaced")
        elif kind == "parametrize":
            par = {n: SX.sym(n) for n in op[4]}
            s.update(par)
            p.parametrize_control(vertcat(*[s[n] for n in op[2]]), vertcat(*[symbolic(e, s) for e in op[3]]), vertcat(*par.values()) if par else None)
            w.probe("parametrized")
        elif kind == "remove":
            (p.remove_algebraic if op[2] == "y" else p.remove_control)(s[op[3]])
            w.probe("removed")

    def bad(self, w, real, probs, kind):
        from casadi import DM, SX, vertcat

        p, ref = real.p, real.ref
        m = ref.m
        s = Real(p.model, m).sym()
        before = plain_problem(p)
        two = SX.sym("z", 2)
        free = [n for n in m.v["u"] if n in m.upar and n not in m.par]
        try:
            if kind == "state bounds":
                p.include_state(two, ode=-two, x_0=DM([0, 0]), x_max=DM([1, 2, 3]))
            elif kind == "state x_0":
                p.include_state(two, ode=-two, x_0=DM([0, 0, 0]))
            elif kind == "no initial":
                p.include_state(two, ode=-two)
            elif kind == "algebraic bounds":
                p.include_algebraic(two, alg=two, y_min=DM([0, 0, 0]), y_guess=DM([1, 1]))
            elif kind == "control bounds":
                p.include_control(two, delta_u_max=DM([0, 0, 0]), u_guess=DM([1, 1]))
            elif kind == "control without guess":
                if ref.guess["u"] is None or not m.v["u"]:
                    return
                p.include_control(two)
            elif kind == "control guess":
                p.include_control(two, u_guess=DM([1, 1, 1]))
            elif kind == "merge times":
                other = next((q for q in probs if q.alive and q is not real and q.ref.t != ref.t), None)
                good = next((q for q in probs if q.alive and q is not real and q.ref.t == ref.t and not q.ref.m.all() & m.all()), None)
                if other is None:
                    return
                p.merge(([good.p] if good else []) + [other.p])
            elif kind == "replace":
                if not m.usable():
                    return
                p.replace_variable(s[m.usable()[0]], two)
            elif kind == "connect":
                if not free:
                    return
                p.connect(s[free[0]], two)
            elif kind == "p_opt bounds":
                p.include_optimization_parameter(two, p_opt_max=DM([1, 2, 3]))
            elif kind == "theta_opt bounds":
                p.create_optimization_theta("z", 2, new_theta_opt_min=DM([1, 2, 3]))
            elif kind == "parametrize again":
                if not m.par:
                    return
                p.parametrize_control(vertcat(*([s[free[0]]] if free else []), s[sorted(m.par)[0]]), two if free else SX.sym("z"), two)
        except Exception:
            w.fault("rejected operation")
        else:
            raise Violation("accepted", kind)
        w.require(plain_problem(p) == before, "rejected-operation-changed-it", lambda: "{}: {}".format(kind, [(a, b) for a, b in zip(before, plain_problem(p)) if a != b]))


PROPS = {"Q01": Q01, "Q02": Q02}
