"""N01: networks of systems, built by any history of operations."""
import copy

from sim.core import Discard, InjectedInterrupt, Prop, Violation
from sim.lines import LineInterrupt
from sim.props.building import INF, KINDS, Gen, Q01, Q02, RM, RO, env_of, judge_model, judge_problem, near, plain_problem, value
from sim.props.mpc import flat


class BenignGen(Gen):
    """Models that can be simulated: stable, linear, of index one."""

    def new_model(self):
        rng = self.rng
        r = RM("m{}".format(len(self.refs)), False)
        self.refs.append(r)
        self.add("new", r.name, r.prefix)
        for kind, q in (("x", 0.95), ("y", 0.6), ("u", 0.8)):
            if rng.random() < q:
                self.variable(len(self.refs) - 1, kind)
        self.equations(len(self.refs) - 1)

    def equations(self, k):
        rng, r = self.rng, self.refs[k]
        small = lambda n: [["*", ["c", self.u(-0.15, 0.15)], ["v", m]] for m in r.usable() if m != n]
        odes = [["+", ["c", self.u(-1, 1)], ["*", ["c", self.u(-1.5, -0.5)], ["v", n]]] + small(n) for n in r.v["x"]]
        algs = [["+", ["c", self.u(-1, 1)], ["*", ["c", self.u(1.5, 2)], ["v", n]]] + small(n) for n in r.v["y"]]
        if odes or algs:
            todo = list(r.v["x"])
            r.equations(todo, odes, algs)
            self.add("equations", k, todo, odes, algs, "x")


class Skip(Exception):
    """An operation that does not apply (any more)."""


class RNode:
    def __init__(self, name, node_id, ref, prob=None, model=None):
        self.name, self.id, self.ref = name, node_id, ref  # ref: RO (or RM: no problem)
        self.prob = prob  # index
        self.node = None

    def m(self):
        return self.ref.m if isinstance(self.ref, RO) else self.ref


class RNet:
    def __init__(self, intermediary):
        self.nodes = []
        self.edges = {}  # (RNode, RNode) -> [(y, u)]
        self.intermediary = intermediary
        self.net = None
        self.loose = []  # nodes that are not in the network

    def connected(self):
        return {u for v in self.edges.values() for _, u in v}


class N01(Prop):
    pid = "N01"
    quick_runs = 700
    thorough_runs = 30000
    chunk = 10
    rule = "One run is a history of building problems and networks of them: nodes are created and included, connected, disconnected, given intermediary nodes, composed to one model or problem, and asked for their initial condition, with operations that are rejected or interrupted at an arbitrary line. After each operation the networks and all problems are compared with references kept by name; a composition with the composition of the references; the initial condition with the exact solution of the linear reference."
    faults = ["rejected operation", "interrupt at a line"]
    probes = ["composed problem", "composed model", "intermediary nodes", "disconnected", "initial condition", "node of two networks", "id given", "composed again after a change", "coloring", "connected twice", "included by connecting"]
    shrink_lists = ("ops",)
    components = {"real": ["yaocptool.modelling.network", "yaocptool.modelling.OptimalControlProblem", "yaocptool.modelling.SystemModel", "networkx", "CasADi, IDAS"], "simulated": ["the caller: its operations, mistakes and interrupts"]}
    assumptions = ["names of nodes and variables are unique in a history", "an input is connected to one output"]

    # plan

    def gen(self, rng, tier):
        benign = rng.random() < 0.35
        models_only = not benign and rng.random() < 0.12
        g = (BenignGen if benign else Gen)(rng)
        q2 = Q02()
        n = rng.choice([2, 2, 3, 3, 4, 5])
        u = lambda a=-3, b=3: round(rng.uniform(a, b), 2)
        probs, same = [], (u(-1, 1), u(1.5, 3))
        for k in range(n):
            g.new_model()
            m = copy.deepcopy(g.refs[k])
            if models_only:
                probs.append(m)
                continue
            t = same if rng.random() < 0.96 else (0.25, 5.0)
            q = 1.0 if benign else 0.3
            o = {"t_0": t[0], "t_f": t[1], "x_0": [u() for _ in m.v["x"]], "u_max": [u(0, 3) for _ in m.v["u"]] if rng.random() < 0.4 else None,
                 "y_guess": [u() for _ in m.v["y"]] if m.v["y"] and rng.random() < 0.3 else None, "u_guess": [u() for _ in m.v["u"]] if m.v["u"] and rng.random() < q else None}
            g.add("problem", k, o)
            probs.append(q2.fresh_ref(m, o))
            for _ in range(rng.choice([0, 1, 2])):
                self.change(rng, g, probs, k, None if not benign else ("cost", "constraint"))
        nets = []
        free = list(range(n))
        rng.shuffle(free)

        def new_net():
            net = RNet(rng.random() < 0.15)
            nets.append(net)
            g.add("network", net.intermediary)

        def node(i):
            """Put a problem into a network."""
            k = free.pop()
            how = rng.choice(["create", "include", "list"] + ["loose"] * bool(nets[i].nodes))
            # an identity of its own
            used = {x.id for x in nets[i].nodes}
            given = rng.choice([q for q in range(8) if q not in used]) if rng.random() < 0.25 else None
            name = "n{}".format(k) if rng.random() < 0.5 else None
            o = {"how": how, "id": given, "name": name}
            g.add("node", i, k, o)
            r = RNode(name or g.refs[k].name, given if given is not None else "auto{}".format(k), probs[k], k)
            nets[i].nodes.append(r)
            if how == "loose" and not self.plan_connect(rng, g, nets, i, models_only, r):
                nets[i].nodes.remove(r)
                g.ops.pop()
                free.insert(0, k)

        new_net()
        for _ in range(rng.randrange(6, 18)):
            x = rng.random()
            i = rng.randrange(len(nets))
            net = nets[i]
            if free and (len(net.nodes) < 2 or x < 0.2):
                node(i)
            elif x < 0.5:
                self.plan_connect(rng, g, nets, i, models_only)
            elif x < 0.56:
                if net.edges:
                    e = rng.choice(sorted(net.edges, key=lambda e: (e[0].name, e[1].name)))
                    g.add("disconnect", i, net.nodes.index(e[0]), net.nodes.index(e[1]))
                    del net.edges[e]
            elif x < 0.62:
                if net.edges and len(net.nodes) < 9:
                    f = g.fault()
                    g.add("intermediary", i, f)
                    if not f and not models_only:
                        self.interpose(net, None)
            elif x < 0.8:
                if net.nodes:
                    g.add("compose", i, "model" if models_only or rng.random() < 0.3 else "problem", g.fault())
            elif x < 0.86:
                if benign and net.nodes:
                    g.add("initial", i, round(rng.uniform(0.5, 2), 2))
                elif not benign and not models_only:
                    self.change(rng, g, probs, rng.randrange(n), ("cost", "constraint", "state", "algebraic", "control", "opt"))
            elif x < 0.89:
                if len(nets) < 2 and net.nodes:
                    new_net()
                    some = rng.sample(range(len(net.nodes)), rng.randrange(1, len(net.nodes) + 1))
                    plain = [net.nodes[q] for q in some if net.nodes[q].prob is not None]
                    if plain:
                        g.add("share", len(nets) - 1, i, [q.name for q in plain])
                        nets[-1].nodes += plain
            elif x < 0.91:
                if net.nodes:
                    g.add("again", i, rng.randrange(len(net.nodes)))
            else:
                g.add("bad", i, rng.choice(["foreign y", "foreign u", "part y", "part u", "size", "empty", "no edge", "unknown id", "unknown name", "key", "intermediary"]))
        net = nets[0]
        if net.nodes and rng.random() < 0.7:
            g.add("compose", 0, "model" if models_only else "problem", None)
        return {"ops": g.ops}

    def change(self, rng, g, probs, k, kinds):
        """A change of one problem."""
        for _ in range(6):
            trial, before = copy.deepcopy(probs[k]), len(g.ops)
            Q02().step(rng, g, [trial])
            new = g.ops[before:]
            if len(new) == 1 and (kinds is None and new[0][0] not in ("bad", "merge", "cost state") or kinds and new[0][0] in kinds):
                new[0][1] = k
                probs[k].__dict__.update(trial.__dict__)
                return
            del g.ops[before:]

    def inputs(self, net, r):
        m = r.m()
        return [n for n in m.v["u"] if n in m.upar and n not in m.par and n not in net.connected()]

    def outputs(self, r):
        m = r.m()
        return m.v["x"] + m.v["y"]

    def plan_connect(self, rng, g, nets, i, models_only, new=None):
        net = nets[i]
        pairs = [(a, b) for a in net.nodes for b in net.nodes if a is not b and self.outputs(a) and self.inputs(net, b)]
        pairs = [(a, b) for a, b in pairs if a.prob is not None and b.prob is not None]
        if net.intermediary and models_only:
            return
        if new is not None:
            pairs = [q for q in pairs if new in q]
        if not pairs:
            return
        a, b = rng.choice(pairs)
        us = g.split(self.inputs(net, b))
        ys = [rng.choice(self.outputs(a)) for _ in us]
        g.add("join", i, a.name, b.name, ys, us)
        self.connect(net, a, b, ys, us)
        return True

    # reference

    def connect(self, net, a, b, ys, us):
        if not net.intermediary:
            net.edges.setdefault((a, b), []).extend(zip(ys, us))
        else:
            self.put_between(net, a, b, list(zip(ys, us)))

    def put_between(self, net, a, b, pairs):
        m = RM("d{}".format(len(net.nodes)), False)
        base = "dummy{}_{}_".format(len(net.nodes), a.name + b.name)
        du = [base + "u{}".format(i) for i in range(len(pairs))]
        dy = [base + "y{}".format(i) for i in range(len(pairs))]
        m.include("u", du)
        m.include("y", dy)
        m.alg = [["+", ["v", p], ["*", ["c", -1.0], ["v", q]]] for p, q in zip(du, dy)]
        ro = RO(m, *(a.ref.t if isinstance(a.ref, RO) else (0.0, 1.0)))
        for n in du + dy:
            ro.b[n] = {"min": -INF, "max": INF, "dmin": -INF, "dmax": INF}
        d = RNode("dummy of {} and {} no {}".format(a.name, b.name, len(net.nodes)), "auto", ro)
        d.between = (a, b)
        net.nodes.append(d)
        net.edges[(a, d)] = [(y, n) for (y, _), n in zip(pairs, du)]
        net.edges[(d, b)] = [(n, u) for (_, u), n in zip(pairs, dy)]
        return d

    def interpose(self, net, order):
        old, net.edges = net.edges, {}
        return [self.put_between(net, a, b, pairs) for (a, b), pairs in old.items()]

    def compose(self, net, what):
        if what == "model":
            m = RM("network", False)
            for r in net.nodes:
                m.merge(copy.deepcopy(r.m()))
            for pairs in net.edges.values():
                m.connect([u for _, u in pairs], [["v", y] for y, _ in pairs], False)
            return m
        first = net.nodes[0].ref
        out = RO(RM("network", False), *first.t)
        for r in sorted(net.nodes, key=lambda r: r.node.node_id):
            if r.ref.t != out.t:
                return None
            out.merge(copy.deepcopy(r.ref))
        probs = [out]
        for pairs in net.edges.values():
            Q02().reference(["connect", 0, [u for _, u in pairs], [["v", y] for y, _ in pairs], False], probs)
        return out

    # run

    def run(self, plan, w):
        q1, q2 = Q01(), Q02()
        models, probs, nets = [], [], []
        state = {"rejected": False}
        self.changed = False
        for op in plan["ops"]:
            w.event(*[str(q) for q in op[:3]])
            w.step()
            kind = op[0]
            if kind in ("new", "variable", "equations"):
                q1.apply(w, models, op, state)
                continue
            if kind == "problem":
                q2.problem(w, models, probs, op)
                continue
            if kind == "network":
                from yaocptool.modelling import Network

                net = RNet(op[1])
                net.net = Network(name="net{}".format(len(nets)), intermediary_nodes=op[1]) if op[1] or len(nets) % 2 else Network()
                nets.append(net)
            elif kind in ("node", "join", "disconnect", "intermediary", "compose", "initial", "share", "again", "bad"):
                if op[1] >= len(nets):
                    raise Discard("shrunk")
                try:
                    getattr(self, "do_" + kind)(w, nets, op, models, probs)
                except Skip:
                    w.event("skipped")
            else:
                if op[1] >= len(probs):
                    raise Discard("shrunk")
                q2.apply(w, probs, op)
                self.changed = True
            for real in models:
                judge_model(w, real, kind)
            for real in probs:
                judge_problem(w, real, kind)
            for net in nets:
                self.judge(w, net, kind)
        w.nontrivial = w.nontrivial or any(len(n.nodes) > 1 for n in nets)

    def find(self, net, name):
        r = next((r for r in net.nodes + net.loose if r.name == name), None)
        if r is None:
            raise Skip()
        return r

    def do_node(self, w, nets, op, models, probs):
        from yaocptool.modelling import Node

        _, i, k, o = op
        net = nets[i]
        if probs and k >= len(probs) or k >= len(models) or any(r.prob == k for n in nets for r in n.nodes + n.loose):
            raise Skip()
        if o["id"] is not None:  # not one that a node has got that was not given one
            o = dict(o, id=next(q for q in range(o["id"], 99) if q not in [r.id for r in net.nodes]))
        kw = {"name": o["name"]} if o["name"] else {}
        if o["id"] is not None:
            kw["node_id"] = o["id"]
            w.probe("id given")
        if probs:
            kw["problem"] = probs[k].p
        else:
            kw["model"] = models[k].m
        r = RNode(o["name"] or models[k].ref.name, o["id"], probs[k].ref if probs else models[k].ref, k)
        if o["how"] == "create":
            r.node = net.net.create_node(**kw)
        elif o["how"] == "loose":
            r.node = Node(**kw)
            net.loose.append(r)
            return
        else:
            r.node = Node(**kw)
            net.net.include_nodes(r.node if o["how"] == "include" else [r.node])
        r.id = r.node.node_id if o["id"] is None else o["id"]
        w.require(isinstance(r.id, int), "identity", "the node has no id")
        w.require(r.node.name == r.name, "identity", "name {}".format(r.node.name))
        net.nodes.append(r)

    def do_share(self, w, nets, op, models, probs):
        if op[2] >= len(nets):
            raise Skip()
        rs = [self.find(nets[op[2]], n) for n in op[3]]
        if any(r.node not in nets[op[2]].net.nodes for r in rs):
            raise Skip()
        if any(r in nets[op[1]].nodes or r.id in [q.id for q in nets[op[1]].nodes] for r in rs):
            raise Skip()
        to = nets[op[1]]
        if to.nodes or len(rs) % 2 == 0:
            to.net.include_nodes([r.node for r in rs])
        else:  # a network made of these nodes
            from yaocptool.modelling import Network

            to.net = Network([r.node for r in rs], intermediary_nodes=to.intermediary) if len(rs) == 1 else Network(nodes=[r.node for r in rs], name="shared", intermediary_nodes=to.intermediary)
        to.nodes += rs
        w.probe("node of two networks")

    def do_again(self, w, nets, op, models, probs):
        net = nets[op[1]]
        if op[2] >= len(net.nodes):
            raise Skip()
        net.net.include_nodes(net.nodes[op[2]].node)

    def symbols(self, net, r):
        m = r.node.model
        s = {}
        names = r.m()
        for k in KINDS + ("u_par",):
            v = getattr(m, k)
            want = names.upar if k == "u_par" else names.v[k]
            for e, n in zip(v.nz, want):
                s[n] = e
        return s

    def do_join(self, w, nets, op, models, probs):
        from casadi import vertcat

        _, i, an, bn, ys, us = op
        net = nets[i]
        a, b = self.find(net, an), self.find(net, bn)
        if not set(ys) <= set(self.outputs(a)) or not set(us) <= set(self.inputs(net, b)) or net.intermediary and not probs:
            raise Skip()
        sa, sb = self.symbols(net, a), self.symbols(net, b)
        if (a, b) in net.edges:
            w.probe("connected twice")
        known = set(net.net.nodes)
        net.net.connect(y=vertcat(*[sa[n] for n in ys]), u=vertcat(*[sb[n] for n in us]), node1=a.node, node2=b.node)
        self.changed = True
        for r in (a, b):
            if r in net.loose:
                # a node that is connected is one of the network
                net.loose.remove(r)
                net.nodes.append(r)
                r.id = r.node.node_id if r.id is None else r.id
                known.add(r.node)
                w.probe("included by connecting")
        if not net.intermediary:
            self.connect(net, a, b, ys, us)
        else:
            d = self.put_between(net, a, b, list(zip(ys, us)))
            self.adopt(w, net, [d], known)
            w.probe("intermediary nodes")

    def adopt(self, w, net, dummies, known):
        """Find the intermediary nodes that have been inserted."""
        g = net.net
        new = [n for n in g.nodes if n not in known]
        w.require(len(new) == len(dummies), "nodes", lambda: "{} new nodes for {} connections".format(len(new), len(dummies)))
        # of a chain of intermediary nodes, the ends are known
        for d in dummies:
            a, b = d.between
            fits = [n for n in new if (a.node, n) in g.connections and (n, b.node) in g.connections]
            w.require(len(fits) == 1, "connections", lambda: "{} nodes between {} and {}".format(len(fits), a.name, b.name))
            d.node = fits[0]
            new.remove(fits[0])
            d.id = d.node.node_id
            d.name = d.node.name
            m = d.ref.m
            w.require(d.node.model.n_u == len(m.v["u"]) and d.node.model.n_y == len(m.v["y"]) and d.node.model.n_x == 0, "nodes", "variables of an intermediary node")

    def do_disconnect(self, w, nets, op, models, probs):
        net = nets[op[1]]
        if max(op[2:4]) >= len(net.nodes):
            raise Skip()
        a, b = net.nodes[op[2]], net.nodes[op[3]]
        if (a, b) not in net.edges:
            raise Skip()
        net.net.remove_connection(a.node, b.node)
        del net.edges[(a, b)]
        self.changed = True
        w.probe("disconnected")

    def do_intermediary(self, w, nets, op, models, probs):
        net = nets[op[1]]
        known = set(net.net.nodes)
        if not probs and net.edges:
            return self.rejected(w, net.net.insert_intermediary_nodes, "intermediary nodes without problems")
        if op[2]:
            try:
                with LineInterrupt(w, ("network.py",), op[2][1]):
                    net.net.insert_intermediary_nodes()
            except InjectedInterrupt:
                return  # and nothing has changed
        else:
            net.net.insert_intermediary_nodes()
        self.adopt(w, net, self.interpose(net, None), known)
        self.changed = True
        w.probe("intermediary nodes")

    def rejected(self, w, call, kind):
        try:
            call()
        except Exception:
            w.fault("rejected operation")
        else:
            raise Violation("accepted", kind)

    def do_bad(self, w, nets, op, models, probs):
        from casadi import SX, vertcat

        net, kind = nets[op[1]], op[2]
        g = net.net
        plain = [r for r in net.nodes if r.prob is not None]
        pairs = [(a, b) for a in plain for b in plain if a is not b and self.outputs(a) and self.inputs(net, b)]
        if kind in ("foreign y", "foreign u", "part y", "part u", "size", "empty"):
            if not pairs:
                return
            a, b = pairs[-1]
            sa, sb = self.symbols(net, a), self.symbols(net, b)
            y, u = sa[self.outputs(a)[0]], sb[self.inputs(net, b)[0]]
            z = SX.sym("z")
            if kind == "foreign y":
                y = z
            elif kind == "foreign u":
                u = z
            elif kind == "empty":
                y = u = SX()
            elif kind == "part y":
                y, u = vertcat(y, z), vertcat(*[sb[n] for n in self.inputs(net, b)][:2])
                if u.numel() < 2:
                    return
            elif kind == "part u":
                y, u = vertcat(y, y), vertcat(z, u)
            else:
                y = vertcat(y, y)
            return self.rejected(w, lambda: g.connect(y=y, u=u, node1=a.node, node2=b.node), kind)
        if kind == "no edge":
            pair = next(((a, b) for a in net.nodes for b in net.nodes if (a, b) not in net.edges), None)
            if pair:
                self.rejected(w, lambda: g.remove_connection(pair[0].node, pair[1].node), kind)
        elif kind == "unknown id":
            self.rejected(w, lambda: g[1234], kind)
            w.require(g.get_node_by_id(1234) is None, "lookup", "a node of an unknown id")
        elif kind == "unknown name":
            self.rejected(w, lambda: g["nobody"], kind)
            w.require(g.get_node_by_name("nobody") is None, "lookup", "a node of an unknown name")
        elif kind == "key":
            self.rejected(w, lambda: g[1.5], kind)

    def do_compose(self, w, nets, op, models, probs):
        _, i, what, fault = op
        net = nets[i]
        if not net.nodes or what == "problem" and not probs:
            raise Discard("shrunk")
        if any(e is None for r in net.nodes for e in r.m().ode.values()):
            raise Discard("equations are missing")
        want = self.compose(net, what)
        call = net.net.get_model if what == "model" else net.net.get_problem
        if want is None:
            return self.rejected(w, call, "problems with different times")
        if fault:
            try:
                with LineInterrupt(w, ("network.py", "modelling/ocp.py", "modelling/system_model.py", "_mixin.py"), fault[1] * 6):
                    got = call()
            except InjectedInterrupt:
                got = call()
        else:
            got = call()
        if self.changed:
            w.probe("composed again after a change")
        w.probe("composed " + what)
        self.changed = False
        self.judge_composed(w, net, got if what == "model" else got.model, want if what == "model" else want.m, None if what == "model" else got, want)

    def judge_composed(self, w, net, m, ref, p, ro):
        from casadi import Function, vertcat

        ids = {hash(e): n for r in net.nodes for n, e in self.symbols(net, r).items()}
        nm = lambda v: [ids.get(hash(e), str(e)) for e in v.nz]
        for k in KINDS + ("u_par",):
            got, want = nm(getattr(m, k)), ref.upar if k == "u_par" else ref.v[k]
            w.require(sorted(got) == sorted(want), "variables", lambda: "composed: {} are {} expected {}".format(k, got, want))
        w.require(m.n_x == m.x_0.numel(), "variables", "initial states")
        order = nm(m.x) + nm(m.y) + nm(m.u_par) + nm(m.p) + nm(m.theta)
        arg = vertcat(m.t, m.tau, m.x, m.y, m.u_par, m.p, m.theta)
        outs = [m.ode, m.alg, m.u_expr]
        if p is not None:
            outs += [vertcat(getattr(p, n)) for n in ("L", "V", "S", "h", "h_initial", "h_final", "g_eq", "g_ineq")]
        try:
            f = Function("f", [arg, m.x_0], outs)
        except Exception as e:
            raise Violation("unknown-variable", "composed: an equation contains a variable that it does not have: {}".format(str(e)[-300:]))
        for seed in (0, 1):
            env = env_of(ref, seed)
            x0 = [1.7 + 0.31 * i + seed for i in range(m.n_x)]
            got = [flat(q) for q in f([env["t"], 0.0] + [env[n] for n in order], x0)]
            ode, want = dict(zip(nm(m.x), got[0])), {n: value(e, env) for n, e in ref.ode.items()}
            w.require(ode.keys() == want.keys() and all(near([ode[n]], [want[n]]) for n in want), "equations", lambda: "composed: ode {} expected {}".format(ode, want))
            mag = lambda v: sorted(abs(q) for q in v)
            want = [value(e, env) for e in ref.alg]
            w.require(near(mag(got[1]), mag(want)), "equations", lambda: "composed: alg {} expected {}".format(got[1], want))
            ue, want = dict(zip(nm(m.u), got[2])), {n: value(ref.uexpr[n], env) for n in ref.v["u"]}
            w.require(ue.keys() == want.keys() and all(near([ue[n]], [want[n]]) for n in want), "equations", lambda: "composed: controls {} expected {}".format(ue, want))
            if p is None:
                continue
            for n, v in zip(("L", "V", "S"), got[3:6]):
                want = [value(ro.cost[n], env)]
                w.require(near(v, want), "costs", lambda: "composed: {} is {} expected {}".format(n, v, want))
            at = dict(env, **{"x0:" + n: q for n, q in zip(nm(m.x), x0)})
            for n, v in zip(("h", "h_initial", "h_final"), got[6:9]):
                want = [value(e, at) for e in ro.h[n]]
                w.require(near(mag(v), mag(want)), "constraints", lambda: "composed: {} is {} expected {}".format(n, v, want))
            for n, v, times in (("g_eq", got[9], p.time_g_eq), ("g_ineq", got[10], p.time_g_ineq)):
                have = sorted((str(t), round(q, 8)) for t, q in zip(times, v))
                want = sorted((str(t), round(value(e, env), 8)) for e, t in ro.g[n])
                w.require(len(times) == len(v) and [a for a, _ in have] == [a for a, _ in want] and near([b for _, b in have], [b for _, b in want]), "constraints", lambda: "composed: {} is {} expected {}".format(n, have, want))
        if p is None:
            return
        for kind, attr, key in (("x", "x_min", "min"), ("x", "x_max", "max"), ("y", "y_min", "min"), ("y", "y_max", "max"), ("u", "u_min", "min"), ("u", "u_max", "max"), ("u", "delta_u_min", "dmin"), ("u", "delta_u_max", "dmax"), ("x", "x_0", "x_0")):
            v = flat(getattr(p, attr))
            w.require(len(v) == len(ref.v[kind]), "bounds", lambda: "composed: {} has {} elements".format(attr, len(v)))
            got, want = dict(zip(nm(getattr(m, kind)), v)), {n: ro.b[n][key] for n in ref.v[kind]}
            w.require(all(near([got[n]], [want[n]]) for n in want), "bounds", lambda: "composed: {} is {} expected {}".format(attr, got, want))
        for attr, ns in (("p_opt", ro.popt), ("theta_opt", ro.topt)):
            v = nm(getattr(p, attr))
            w.require(sorted(v) == sorted(ns), "variables", lambda: "composed: {} is {} expected {}".format(attr, v, ns))
            for end, k in (("_min", "min"), ("_max", "max")):
                got = dict(zip(v, flat(getattr(p, attr + end))))
                w.require(all(near([got[n]], [ro.b[n][k]]) for n in ns), "bounds", lambda: "composed: {} is {}".format(attr + end, got))
        for k in ("y", "u"):
            guess, want = getattr(p, k + "_guess"), ro.guess[k]
            if not ref.v[k] or want == [] or guess is not None and guess.numel() == 0:
                continue
            w.require((guess is None) == (want is None), "guess", lambda: "composed: {}_guess is {} expected {}".format(k, guess, want))
            if want is not None:
                got, want = dict(zip(nm(getattr(m, k)), flat(guess))), dict(zip(ref.v[k], want))
                w.require(got.keys() == want.keys() and all(near([got[n]], [want[n]]) for n in want), "guess", lambda: "composed: {}_guess is {} expected {}".format(k, got, want))
        w.require((float(p.t_0), float(p.t_f)) == ro.t, "bounds", "times")
        p.pre_solve_check()

    def do_initial(self, w, nets, op, models, probs):
        import numpy as np
        from scipy.linalg import expm

        net = nets[op[1]]
        if not net.nodes or not probs or len({r.name for r in net.nodes}) < len(net.nodes):
            raise Discard("shrunk")
        ro = self.compose(net, "problem")
        if ro is None or not ro.m.v["x"]:
            return
        m = ro.m
        if ro.guess["u"] is None and m.v["u"] or m.v["p"] or m.v["theta"] or m.par:
            return  # it cannot be simulated
        t_f = ro.t[0] + op[2]
        xs, ys, us = m.v["x"], m.v["y"], m.v["u"]
        u = dict(zip(us, ro.guess["u"] or []))
        exprs = [m.ode[n] for n in xs] + m.alg

        def f(at):
            env = dict({n: 0.0 for n in xs + ys}, t=0.0, **u)
            env.update(at)
            return np.array([value(e, env) for e in exprs])

        c = f({})
        J = np.array([f({n: 1.0}) - c for n in xs + ys]).T
        mid = {n: 0.5 + 0.1 * i for i, n in enumerate(xs + ys)}
        if np.abs(f(mid) - c - J @ np.array([mid[n] for n in xs + ys])).max() > 1e-9:
            return  # not linear
        nx = len(xs)
        A, B, C, D = J[:nx, :nx], J[:nx, nx:], J[nx:, :nx], J[nx:, nx:]
        if D.shape[0] != D.shape[1] or D.size and np.linalg.cond(D) > 1e6:
            return
        if D.size:
            G, h = -np.linalg.solve(D, C), -np.linalg.solve(D, c[nx:])
        else:
            G, h = np.zeros((0, nx)), np.zeros(0)
        M = np.zeros((nx + 1, nx + 1))
        M[:nx, :nx] = A + B @ G
        M[:nx, nx] = c[:nx] + B @ h
        x = (expm(M * op[2]) @ np.array([ro.b[n]["x_0"] for n in xs] + [1.0]))[:nx]
        want = dict(zip(xs, x), **dict(zip(ys, G @ x + h)), **u)
        got = net.net.get_initial_condition(t_f)
        w.require(set(got) == {r.name for r in net.nodes}, "initial-condition", lambda: "for {}".format(list(got)))
        for r in net.nodes:
            for k in ("x", "y", "u"):
                v = flat(got[r.name][k])
                expect = [want[n] for n in r.m().v[k]]
                w.require(len(v) == len(expect) and all(abs(a - b) <= 2e-4 * (1 + abs(b)) for a, b in zip(v, expect)), "initial-condition", lambda: "{} of {} is {} expected {}".format(k, r.name, v, expect))
        w.sim_time += op[2]
        w.probe("initial condition")

    def judge(self, w, net, where):
        g = net.net
        by = {r.node: r for r in net.nodes}
        w.require(set(g.nodes) == set(by), "nodes", lambda: "{}: {} expected {}".format(where, [n.name for n in g.nodes], [r.name for r in net.nodes]))
        for r in net.nodes:
            w.require(r.node.node_id == r.id and r.node.name == r.name, "identity", lambda: "{}: node {} has become {}".format(where, (r.id, r.name), r.node))
        ids = [r.id for r in net.nodes]
        w.require(len(set(ids)) == len(ids), "identity", lambda: "{}: two nodes have the same id: {}".format(where, [(r.name, r.id) for r in net.nodes]))
        want = {(a.node, b.node) for a, b in net.edges}
        w.require(set(g.connections) == want, "connections", lambda: "{}: {} expected {}".format(where, [(a.name, b.name) for a, b in g.connections], [(a.name, b.name) for a, b in want]))
        sym = {hash(e): n for r in net.nodes for n, e in self.symbols(net, r).items()}
        for (a, b), pairs in net.edges.items():
            e = g.connections[a.node, b.node]
            y, u = ([sym.get(hash(q), str(q)) for q in e[k].nz] for k in ("y", "u"))
            w.require(len(y) == len(u) and sorted(zip(y, u)) == sorted(pairs), "connections", lambda: "{}: {} to {} joins {} and {} expected {}".format(where, a.name, b.name, y, u, pairs))
        for r in net.nodes:
            w.require(g[r.id] is r.node and g.get_node_by_id(r.id) is r.node, "lookup", "by id")
            same = [q.node for q in net.nodes if q.name == r.name]
            w.require(g[r.name] in same and g.get_node_by_name(r.name) in same, "lookup", "by name")
        order = sorted(net.nodes, key=lambda r: r.id)
        w.require([id(m) for m in g.models] == [id(r.node.model) for r in order] and [id(p) for p in g.problems] == [id(r.node.problem) for r in order], "lookup", "models and problems are in the order of the ids")
        for r in net.nodes:
            if r.prob is None:  # an intermediary node
                m = r.node.model
                s = self.symbols(net, r)
                from casadi import Function, vertcat

                n = m.n_u
                got = flat(Function("f", [vertcat(m.u, m.y)], [m.alg])([1.0 + 3 * i for i in range(n)] + [0.5 - i * i for i in range(n)]))
                expect = [abs(0.5 + 3 * i + i * i) for i in range(n)]
                w.require(near([abs(q) for q in got], expect), "nodes", "equations of an intermediary node")
        groups = g.get_map_coloring_groups()
        flatten = [n for q in groups for n in q]
        w.require(len(flatten) == len(by) and set(flatten) == set(by), "coloring", "groups are not a partition")
        for q in groups:
            w.require(not any((a, b) in want for a in q for b in q), "coloring", lambda: "{}: connected nodes in a group: {}".format(where, [n.name for n in q]))
        if want:
            w.probe("coloring")


PROPS = {"N01": N01}
