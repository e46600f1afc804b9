"""C02: the PennyLane backend (mentpy/simulators/pennylane_simulator.py)

The quantum function is run against a tape that records what PennyLane is told to do; PennyLane
itself executes a tape faithfully (trusted, compared on concrete circuits by the battery)."""
from .common import *
from pyvc.core import multi
from pyvc.spec import put
from .c01 import Plain, Angles, AngleOf, src

PN = "mentpy.simulators.pennylane_simulator."
PC = PN + "PennylaneSimulator"
MK = PN + "mbqcircuit_to_circuit"
WALL = 200
TRUSTED = [
    "PennyLane executes the recorded operations in order (QubitStateVector, Hadamard, CZ, RZ, mid-circuit measure, conditional Paulis, density_matrix on the listed wires); every wire starts in |0>",
    "RZ(-p), H, measure in the computational basis is a measurement in the X-Y plane at angle p; X on the flow successor and Z on its other neighbours undo outcome 1 (determinism of causal flow)",
    "graph.edges() lists every edge once (networkx)",
]


class Circ2:
    """a circuit with causal flow f and a measurement order compatible with it (C03, C05)"""

    def __init__(self, it):
        ctx = self.ctx = it.ctx
        self.it = it
        g = self.g = Plain(it)
        self.ins, self.outs = sublist(it, "inputs", g), sublist(it, "outputs", g)
        self.inc, self.outc = sublist(it, "inputc", g), sublist(it, "outputc", g)
        o = self.order = sublist(it, "order", g)
        v, w, i = z3.Ints("v!c2 w!c2 i!c2")
        for a, b in ((self.ins, self.inc), (self.outs, self.outc)):
            ctx.assume(z3.ForAll([v], z3.Implies(g.isnode(v), b.mem(v) == z3.Not(a.mem(v))), patterns=[b.mem(v)]))
            ctx.assume(z(b.n) == g.n - z(a.n))
        ctx.assume(z(o.n) == g.n)
        ctx.assume(z3.ForAll([v], z3.Implies(g.isnode(v), o.mem(v)), patterns=[o.mem(v)]))
        ctx.trust("the nodes outside a list of distinct nodes are as many as are left (inputc, outputc: C23)")
        self.pos = lambda v: z(o.index_of(v))
        F = self.F = ctx.func("flow", I, I)
        u = lambda x: z3.And(g.isnode(x), z3.Not(self.outs.mem(x)))
        ctx.assume(z3.ForAll([v], z3.Implies(u(v), z3.And(g.adj(v, F(v)), g.isnode(F(v)), self.pos(v) < self.pos(F(v)))), patterns=[F(v)]))
        ctx.assume(z3.ForAll([v, w], z3.Implies(z3.And(u(v), g.adj(F(v), w), w != v), self.pos(v) < self.pos(w)), patterns=[g.adj(F(v), w)]))
        self.EN = ctx.int("edges_n")
        EU, EV, EX = ctx.func("edge_u", I, I), ctx.func("edge_v", I, I), ctx.func("edge_at", I, I, I)
        ctx.assume(self.EN >= 0)
        ctx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < self.EN), z3.And(g.adj(EU(i), EV(i)), EX(EU(i), EV(i)) == i)), patterns=[multi(EU(i), EV(i))]))
        ctx.assume(z3.ForAll([v, w], z3.Implies(g.adj(v, w), z3.And(EX(v, w) >= 0, EX(v, w) < self.EN, EX(v, w) == EX(w, v), z3.Or(z3.And(EU(EX(v, w)) == v, EV(EX(v, w)) == w), z3.And(EU(EX(v, w)) == w, EV(EX(v, w)) == v)))), patterns=[EX(v, w)]))
        self.EU, self.EV, self.EX = EU, EV, EX
        self.deg, self.nb, self.nbx = ctx.func("degree", I, I), ctx.func("neighbour", I, I, I), ctx.func("neighbour_at", I, I, I)
        j = z3.Int("j!c2")
        ctx.assume(z3.ForAll([v, j], z3.Implies(z3.And(g.isnode(v), j >= 0, j < self.deg(v)), z3.And(g.adj(v, self.nb(v, j)), self.nbx(v, self.nb(v, j)) == j)), patterns=[self.nb(v, j)]))
        ctx.assume(z3.ForAll([v, w], z3.Implies(g.adj(v, w), z3.And(self.nbx(v, w) >= 0, self.nbx(v, w) < self.deg(v), self.nb(v, self.nbx(v, w)) == w)), patterns=[self.nbx(v, w)]))
        ctx.assume(z3.ForAll([v], self.deg(v) >= 0, patterns=[self.deg(v)]))
        self.attrs = {}
        self.graph = Graph2(self)

    def __pyvc_len__(self, it):
        return self.g.n

    def __pyvc_getattr__(self, it, name):
        if name in self.attrs:
            return self.attrs[name]
        r = dict(graph=self.graph, input_nodes=self.ins, quantum_output_nodes=self.outs, output_nodes=self.outs, inputc=self.inc, outputc=self.outc, measurement_order=self.order)
        if name in r:
            return r[name]
        if name == "flow":
            def f(it_, a, k):
                x = z(a[0])
                self.ctx.prove("flow of a measured node", And(self.g.isnode(x), Not(self.outs.mem(x))))
                return self.F(x)

            return HostFn(f)
        raise Unsupported("circuit." + name)


class Graph2:
    def __init__(self, c):
        self.c = c

    def __pyvc_len__(self, it):
        return self.c.g.n

    def __pyvc_contains__(self, it, v):
        return self.c.g.isnode(v)

    def __pyvc_iter__(self, it):
        return self.c.g.nodes()

    def __pyvc_getattr__(self, it, name):
        c = self.c
        if name == "edges":
            return Edges2(c)
        if name in ("neighbors", "adj"):
            if name == "neighbors":
                def nb(it_, a, k):
                    u = z(a[0])
                    s = SSeq(c.deg(u), lambda j: c.nb(u, z(j)))
                    s.mem = lambda t: c.g.adj(u, z(t))
                    s.index_of = lambda t: c.nbx(u, z(t))
                    return s

                return Builtin(name, nb)
        return c.g.__pyvc_getattr__(it, name)


class Edges2:
    def __init__(self, c):
        self.c = c

    def __pyvc_iter__(self, it):
        return SSeq(self.c.EN, lambda k: (self.c.EU(z(k)), self.c.EV(z(k))))

    def __pyvc_call__(self, it, a, k):
        if a or k:
            raise Unsupported("edges(data)")
        return self


# ------------------------------------------------------------------ the tape


class Tape:
    """what was applied so far.  had(v): Hadamards that prepare v; cz(u, v): parity of CZ;
    done(v): v was measured and corrected; cur: the node being measured, with the corrections
    applied for it"""

    def __init__(self, c):
        self.c = c
        self.born = birth()
        self.prep = None
        self.had = lambda v: z3.BoolVal(False)
        self.cz = lambda u, v: z3.BoolVal(False)
        self.done = lambda v: z3.BoolVal(False)
        self.cur = None
        self.noise = None

    def log(self, it):
        it.write_log(self)

    def started(self, it):
        """the resource state is complete"""
        c, ctx = self.c, it.ctx
        u, v = ctx.int("u"), ctx.int("v")
        ctx.prove("the input state was prepared", self.prep is not None)
        ctx.prove("|+> on every node that is no input", Implies(c.g.isnode(v), Iff(self.had(v), Not(c.ins.mem(v)))))
        ctx.prove("one controlled-Z per edge", Iff(self.cz(u, v), c.g.adj(u, v)))

    def closed(self, it):
        """the corrections of the node measured last are complete"""
        if self.cur is None:
            return
        ctx, c = it.ctx, self.c
        x, st, X, Z = self.cur["node"], self.cur["stage"], self.cur["X"], self.cur["Z"]
        v = ctx.int("v")
        ctx.prove("rotated, turned and measured", st == 3)
        ctx.prove("X on the flow successor", Iff(X(v), v == c.F(x)))
        ctx.prove("Z on the other neighbours of the successor", Iff(Z(v), And(c.g.adj(c.F(x), v), v != x)))
        done = self.done
        self.done = lambda t: z3.Or(done(t), t == x)
        self.cur = None


class Outcome:
    def __init__(self, node):
        self.node = node


def wire(it, a, k, at=0):
    """the one wire of an operation"""
    k = dict(k)
    if "wires" in k:
        v = k.pop("wires")
    else:
        a = list(a)
        v = a.pop(at)
    if isinstance(v, (VList, tuple)) and len(v) == 1:
        v = v[0]
    return v, a, k


def lib(name, f):
    def g(it, a, k):
        t = getattr(it, "tape", None)
        if t is None:
            raise Unsupported("pennylane." + name)
        return f(it, t, list(a), dict(k))

    LIB["pennylane." + name] = Builtin("pennylane." + name, g)


def _prep(it, t, a, k):
    st = a.pop(0)
    w = k.get("wires", a[0] if a else None)
    it.ctx.prove("the state is prepared first", t.prep is None and t.fresh)
    t.prep = (st, w)
    t.log(it)


def _had(it, t, a, k):
    v, a, k = wire(it, a, k)
    v = z(v)
    ctx = it.ctx
    t.fresh = False
    t.log(it)
    if t.cur is not None:
        ctx.prove("H: on the node being measured, after its rotation", And(v == t.cur["node"], t.cur["stage"] == 1))
        t.cur["stage"] = 2
        return
    u = ctx.int("u")
    ctx.prove("H: a qubit in |0>", And(t.prep is not None, t.c.g.isnode(v), Not(t.c.ins.mem(v)), Not(t.had(v))))
    ctx.prove("H: before the entangling gates", Implies(t.c.g.isnode(u), Not(t.cz(v, u))))
    had = t.had
    t.had = lambda x: z3.Or(had(x), x == v)


def _cz(it, t, a, k):
    w = k.get("wires", a[0] if len(a) == 1 else a)
    if not isinstance(w, (VList, tuple, list)) or len(w) != 2:
        raise Unsupported("CZ wires")
    i, j = (z(x) for x in w)
    ctx = it.ctx
    t.log(it)
    for v in (i, j):
        ctx.prove("CZ: on a qubit in its initial state", And(t.prep is not None, t.cur is None, t.c.g.isnode(v), Or(t.c.ins.mem(v), t.had(v)), Not(t.done(v))))
    ctx.prove("CZ: two qubits", i != j)
    cz = t.cz
    t.cz = lambda u, v: z3.Xor(z(cz(u, v)), z3.Or(z3.And(u == i, v == j), z3.And(u == j, v == i)))


def _rz(it, t, a, k):
    phi = a.pop(0) if a else k.pop("phi")
    v, a, k = wire(it, a, k)
    v = z(v)
    ctx = it.ctx
    c = t.c
    if t.cur is not None:
        t.closed(it)
    t.log(it)
    t.started(it)
    ctx.prove("only nodes that are no outputs are measured, each once", And(c.g.isnode(v), Not(c.outs.mem(v)), Not(t.done(v))))
    ctx.prove("the angle that belongs to the node", z(phi) == -t.angle(v))
    t.cur = dict(node=v, stage=1, X=lambda u: z3.BoolVal(False), Z=lambda u: z3.BoolVal(False))


def _measure(it, t, a, k):
    v, a, k = wire(it, a, k)
    if a or k:
        raise Unsupported("measure options")
    it.ctx.prove("measure: the node that was rotated", t.cur is not None and And(z(v) == t.cur["node"], t.cur["stage"] == 2))
    t.cur["stage"] = 3
    t.log(it)
    return Outcome(z(v))


def _cond(it, t, a, k):
    m, op = a
    if not isinstance(m, Outcome) or not isinstance(op, Builtin) or op.name not in ("pennylane.PauliX", "pennylane.PauliZ"):
        raise Unsupported("cond")

    def g(it_, a, k):
        v, a, k = wire(it_, a, k)
        v = z(v)
        ctx = it_.ctx
        ctx.prove("correction: for the outcome of the node just measured", t.cur is not None and m.node is not None and And(m.node == t.cur["node"], t.cur["stage"] == 3))
        ctx.prove("correction: on a qubit not measured yet", And(t.c.g.isnode(v), Not(t.done(v)), v != t.cur["node"]))
        what = "X" if op.name.endswith("X") else "Z"
        old = t.cur[what]
        t.cur[what] = lambda u: z3.Xor(z(old(u)), u == v)
        t.log(it_)

    return HostFn(g)


def _pauli(it, t, a, k):
    raise Unsupported("unconditional Pauli")


class Result:
    def __init__(self, wires):
        self.wires = wires


def _density(it, t, a, k):
    w = k.get("wires", a[0] if a else None)
    t.closed(it)
    t.started(it)
    v = it.ctx.int("v")
    it.ctx.prove("every node that is no output was measured", Implies(t.c.g.isnode(v), Iff(t.done(v), Not(t.c.outs.mem(v)))))
    return Result(w)


lib("QubitStateVector", _prep)
lib("StatePrep", _prep)
lib("Hadamard", _had)
lib("CZ", _cz)
lib("RZ", _rz)
lib("measure", _measure)
lib("cond", _cond)
lib("PauliX", _pauli)
lib("PauliZ", _pauli)
lib("density_matrix", _density)


def _device(it, t, a, k):
    w = k.get("wires", a[1] if len(a) > 1 else None)
    it.ctx.prove("one wire per node", isinstance(w, SSeq) and z(w.n) == t.c.g.n)
    v = it.ctx.int("v")
    it.ctx.prove("every node is a wire", Iff(w.mem(v), t.c.g.isnode(v)))
    t.device = (a[0] if a else k.get("name"), Opaque("device"))
    return t.device[1]


def _qnode(it, t, a, k):
    it.ctx.prove("the quantum function runs on the device of the circuit", a[0] is t.device[1])
    return HostFn(lambda it_, a2, k2: a2[0])


lib("device", _device)
lib("qnode", _qnode)


# ------------------------------------------------------------------ loops of the quantum function


class TapeLoop:
    """generic: a loop that only extends the tape"""

    kind = "for"

    def __init__(self, t):
        self.t = t

    def bind(self, L):
        pass

    def enter(self, L, k):
        pass

    def on_break(self, L, k):
        L.ctx.prove("not cut short", False)

    def on_exit(self, L, n):
        pass


class HLoop(TapeLoop):
    def matches(self, it, st, fr):
        s = src(st)
        return "Hadamard" in s and "RZ" not in s

    def inv(self, k):
        c = self.t.c
        return lambda v: z3.And(c.inc.mem(v), z(c.inc.index_of(v)) < z(k))

    def check(self, L, k, phase):
        ctx, t = L.ctx, self.t
        nm = "%s/%s: " % (L.where, phase)
        if phase == "init":
            q = ctx.int("q")
            ctx.prove(nm + "over the nodes that are no inputs", And(z(L.seq.n) == z(t.c.inc.n), Implies(rng(q, L.seq.n), z(ops.seq_get(L.seq, q)) == z(t.c.inc.f(q)))))
        v, u = ctx.int("v"), ctx.int("u")
        if phase == "preserve":
            x = z(t.c.inc.f(z(k) - 1))
            ctx.prove(nm + "lemma: the node", Iff(And(t.c.inc.mem(v), z(t.c.inc.index_of(v)) == z(k) - 1), v == x))
        ctx.prove(nm + "nodes in |+> so far", Iff(t.had(v), self.inv(k)(v)))
        ctx.prove(nm + "prepared, not entangled", And(t.prep is not None, t.cur is None, Not(t.cz(u, v)), Not(t.done(v))))

    def havoc(self, L, k):
        t = self.t
        t.had = self.inv(k)
        t.cz = lambda u, v: z3.BoolVal(False)
        t.done = lambda v: z3.BoolVal(False)
        L.covered.append(t)


class CZLoop(TapeLoop):
    def matches(self, it, st, fr):
        return ".CZ" in src(st)

    def inv(self, k):
        c = self.t.c
        return lambda u, v: z3.And(c.g.adj(u, v), c.EX(u, v) < z(k))

    def check(self, L, k, phase):
        ctx, t = L.ctx, self.t
        c = t.c
        nm = "%s/%s: " % (L.where, phase)
        v, u = ctx.int("v"), ctx.int("u")
        if phase == "init":
            self.had = t.had
            q = ctx.int("q")
            e = ops.seq_get(L.seq, q)
            if not isinstance(e, tuple):
                raise Unsupported("edges")
            ctx.prove(nm + "over the edges", And(z(L.seq.n) == c.EN, Implies(rng(q, c.EN), And(z(e[0]) == c.EU(q), z(e[1]) == c.EV(q)))))
        if phase == "preserve":
            i, j = c.EU(z(k) - 1), c.EV(z(k) - 1)
            ctx.prove(nm + "lemma: the edge", Iff(And(c.g.adj(u, v), c.EX(u, v) == z(k) - 1), Or(And(u == i, v == j), And(u == j, v == i))))
        ctx.prove(nm + "edges so far", Iff(t.cz(u, v), self.inv(k)(u, v)))
        ctx.prove(nm + "|+> stays", Iff(t.had(v), self.had(v)))
        ctx.prove(nm + "prepared, nothing measured", And(t.prep is not None, t.cur is None, Not(t.done(v))))

    def havoc(self, L, k):
        t = self.t
        t.cz = self.inv(k)
        t.had = self.had
        t.done = lambda v: z3.BoolVal(False)
        L.covered.append(t)

    def enter(self, L, k):
        ctx, c = L.ctx, self.t.c
        for v in (c.EU(z(k)), c.EV(z(k))):
            ctx.prove("an end of an edge is a qubit", And(c.g.isnode(v), Or(c.ins.mem(v), c.inc.mem(v))))


class MeasureLoop(TapeLoop):
    """the nodes of the measurement order that are no outputs"""

    def matches(self, it, st, fr):
        return "RZ" in src(st)

    def bind(self, L):
        self.L = L
        L.ctx.prove(L.where + ": over nodes in measurement order", isinstance(L.seq, SSeq) and getattr(L.seq, "raw_filter", None) is not None)
        sel, inv, keep, s, vc = L.seq.raw_filter
        c = self.t.c
        if s.f is not c.order.f:
            raise Unsupported("measured nodes")
        self.sel, self.inv_ = sel, inv
        q = L.ctx.int("q")
        L.ctx.prove(L.where + ": the nodes that are no outputs", Implies(rng(q, c.order.n), Iff(keep(q), Not(c.outs.mem(z(c.order.f(q)))))))

    def done(self, k):
        c, inv, n = self.t.c, self.inv_, z(self.L.seq.n)
        at = lambda v: inv(c.pos(v))
        return lambda v: z3.And(c.g.isnode(v), z3.Not(c.outs.mem(v)), at(v) >= 0, at(v) < z(k))

    def check(self, L, k, phase):
        ctx, t = L.ctx, self.t
        c = t.c
        nm = "%s/%s: " % (L.where, phase)
        v, u = ctx.int("v"), ctx.int("u")
        if phase == "init":
            t.started(L.it)
            self.had, self.cz = t.had, t.cz
        t.closed(L.it)
        if phase == "preserve":
            x = z(L.seq.f(z(k) - 1))
            at = self.inv_(c.pos(v))
            ctx.prove(nm + "lemma: the node", Iff(And(c.g.isnode(v), Not(c.outs.mem(v)), at == z(k) - 1), v == x))
        ctx.prove(nm + "measured so far", Iff(t.done(v), self.done(k)(v)))
        ctx.prove(nm + "resource state unchanged", And(t.prep is not None, Iff(t.had(v), self.had(v)), Iff(t.cz(u, v), self.cz(u, v))))

    def havoc(self, L, k):
        t = self.t
        t.had, t.cz, t.done, t.cur = self.had, self.cz, self.done(k), None
        L.covered.append(t)

    def enter(self, L, k):
        ctx, c = L.ctx, self.t.c
        x = z(L.seq.f(k))
        self.x = x
        v = ctx.int("v")
        p = self.sel(z(k))
        ctx.prove("lemma: the next node", And(c.g.isnode(x), Not(c.outs.mem(x)), c.pos(x) == p, self.inv_(p) == z(k), c.outc.mem(x)))
        ctx.prove("lemma: nodes measured before come earlier in the order", Implies(self.done(k)(v), c.pos(v) < p), assume=False)
        v_ = z3.Int("v!ml")
        ctx.assume(z3.ForAll([v_], z3.Implies(self.done(k)(v_), c.pos(v_) < p), patterns=[c.pos(v_)]))
        ctx.prove("lemma: the successor is measured later", And(c.g.isnode(c.F(x)), c.pos(c.F(x)) > p))

    def on_exit(self, L, n):
        ctx, c = L.ctx, self.t.c
        v = ctx.int("v")
        v_ = z3.Int("v!mx")
        ctx.assume(z3.ForAll([v_], z3.Implies(z3.And(c.g.isnode(v_), z3.Not(c.outs.mem(v_))), self.done(n)(v_)), patterns=[c.pos(v_)])) if ctx.prove("every node that is no output is visited", Implies(And(c.g.isnode(v), Not(c.outs.mem(v))), self.done(n)(v)), assume=False) else None


class ZLoop(TapeLoop):
    def __init__(self, t, outer):
        self.t, self.outer = t, outer

    def matches(self, it, st, fr):
        s = src(st)
        return "PauliZ" in s and "RZ" not in s

    def zs(self, k):
        c = self.t.c
        x = self.x
        return lambda v: z3.And(c.g.adj(c.F(x), v), v != x, c.nbx(c.F(x), v) < z(k))

    def check(self, L, k, phase):
        ctx, t = L.ctx, self.t
        c = t.c
        nm = "%s/%s: " % (L.where, phase)
        if t.cur is None:
            raise Unsupported("no node is being measured")
        if phase == "init":
            self.x, self.X, self.done_ = t.cur["node"], t.cur["X"], t.done
            q = ctx.int("q")
            ctx.prove(nm + "over the neighbours of the successor", And(z(L.seq.n) == c.deg(c.F(self.x)), Implies(rng(q, L.seq.n), z(ops.seq_get(L.seq, q)) == c.nb(c.F(self.x), q))))
        v = ctx.int("v")
        if phase == "preserve":
            w = c.nb(c.F(self.x), z(k) - 1)
            ctx.prove(nm + "lemma: the neighbour", Iff(And(c.g.adj(c.F(self.x), v), c.nbx(c.F(self.x), v) == z(k) - 1), v == w))
        ctx.prove(nm + "Z on the neighbours so far", Iff(t.cur["Z"](v), self.zs(k)(v)))
        ctx.prove(nm + "nothing else changes", And(t.cur["node"] is self.x, t.cur["stage"] == 3, Iff(t.cur["X"](v), self.X(v)), Iff(t.done(v), self.done_(v))))

    def havoc(self, L, k):
        t = self.t
        t.cur = dict(node=self.x, stage=3, X=self.X, Z=self.zs(k))
        t.done = self.done_
        L.covered.append(t)

    def enter(self, L, k):
        ctx, c, t = L.ctx, self.t.c, self.t
        w = c.nb(c.F(self.x), z(k))
        ctx.prove("lemma: a neighbour of the successor", And(c.g.isnode(w), c.g.adj(c.F(self.x), w)))
        ctx.prove("lemma: other neighbours are measured later", Implies(w != self.x, And(c.pos(self.x) < c.pos(w), Not(t.done(w)))))


def t_build(it):
    ctx = it.ctx
    c = Circ2(it)
    t = it.tape = Tape(c)
    t.fresh = True
    t.device = (None, None)
    dev = Opaque("device name")
    params = ctx.int("param_n")
    ctx.assume(params >= 0)
    angles = Angles(it, params)
    t.angle = lambda v: angles.f(z(c.outc.index_of(v)))
    f = it.call(it.fn(MK), [c] + ([dev] if ctx.choose(2) else []), {"p": 0})
    wrong = ctx.choose(2) == 1
    n = c.g.n - z(c.outs.n)
    ctx.assume(params != n if wrong else params == n)
    ml = MeasureLoop(t)
    it.loop_specs[("circuit*", "H")] = HLoop(t)
    it.loop_specs[("circuit*", "CZ")] = CZLoop(t)
    it.loop_specs[("circuit*", "M")] = ml
    it.loop_specs[("circuit*", "Z")] = ZLoop(t, ml)
    st = Opaque("input state")
    # x in outputc of an angle of the list
    tag, r = attempt(it, lambda: it.call(f, [angles], {"st": st}))
    if wrong:
        ctx.prove("a wrong number of angles is rejected", tag == "exc" and r == "AssertionError")
        return
    ctx.prove("no error", tag == "val")
    if tag != "val":
        return
    ctx.prove("post: the input state goes on the input nodes, in their order", t.prep is not None and t.prep[0] is st and t.prep[1] is c.ins)
    ctx.prove("post: the state of the output nodes, in their order", isinstance(r, Result) and r.wires is c.outs)


class Planes:
    """the plane declared for each node"""

    def __init__(self, it):
        self.code = it.ctx.func("plane", I, I)

    def __pyvc_getitem__(self, it, v):
        ctx = it.ctx
        for j, nm in enumerate(("X", "Y", "XY")):
            if ctx.branch(self.code(z(v)) == j):
                return nm
        return "YZ"

    def __pyvc_getattr__(self, it, name):
        raise Unsupported("planes." + name)


def t_run(it):
    ctx = it.ctx
    c = Circ2(it)
    g = c.g
    tr = sublist(it, "trainable", g)
    pl = Planes(it)
    fixed = ctx.func("fixed_angle", I, R)
    c.attrs.update(trainable_nodes=tr, planes=pl)

    class Ment:
        def __init__(self, v):
            self.v = z(v)

        def __pyvc_getattr__(self, it_, name):
            if name == "angle":
                return fixed(self.v)
            if name == "plane":
                return pl.__pyvc_getitem__(it_, self.v)
            raise Unsupported("measurement." + name)

    c.__class__ = type("ItemCirc", (Circ2,), {"__pyvc_getitem__": lambda self, it_, v: Ment(v)})
    nA = ctx.int("angles_n")
    wrong = ctx.choose(2) == 1
    ctx.assume(nA >= 0)
    ctx.assume(nA != z(tr.n) if wrong else nA == z(tr.n))
    angles = Angles(it, nA)
    # pi as in numpy
    pi2 = z(LIB["numpy.pi"]) / 2
    code = pl.code

    def spec(v):
        v = z(v)
        return z3.If(tr.mem(v), angles.f(z(tr.index_of(v))), z3.If(code(v) == 0, z3.RealVal(0), z3.If(code(v) == 1, pi2, fixed(v))))

    el = lambda k: spec(c.outc.f(z(k)))
    bad = lambda v: Or(code(z(v)) < 0, code(z(v)) > 2)
    q_ = z3.Int("q!pr")
    st = {}
    from pyvc.spec import put as put_

    class ExtLoop(TapeLoop):
        def __init__(self):
            pass

        def matches(self, it_, s, fr):
            return ".append(" in src(s)

        def bind(self, L):
            self.vars = [v for v in L.fr.vars if isinstance(L.fr.vars[v], VList) and len(L.fr.vars[v]) == 0]
            if len(self.vars) != 1:
                raise Unsupported("no list of angles")
            q = L.ctx.int("q")
            L.ctx.prove(L.where + ": over the measured nodes", And(z(L.seq.n) == z(c.outc.n), Implies(rng(q, L.seq.n), z(ops.seq_get(L.seq, q)) == z(c.outc.f(q)))))

        def check(self, L, k, phase):
            nm = "%s/%s: " % (L.where, phase)
            l = L.v(self.vars[0])
            q = ctx.int("q")
            ctx.prove(nm + "one angle per node so far", z(ops.seq_len(l)) == z(k))
            if phase != "init":
                with ctx.scope(rng(q, k)):
                    ctx.prove(nm + "the angle of the node", z(ops.seq_get(l, q)) == el(q))
            ctx.prove(nm + "supported planes so far", Implies(rng(q, k), Not(bad(c.outc.f(q)))))

        def havoc(self, L, k):
            l = SSeq(z(k), lambda t: el(t))
            put_(L, self.vars[0], l)
            ctx.assume(z3.ForAll([q_], z3.Implies(z3.And(q_ >= 0, q_ < z(k)), z3.Not(z(bad(c.outc.f(q_))))), patterns=[z(c.outc.f(q_))]))
            for v in ("plane", "angle"):
                L.fr.vars.pop(v, None)
                L.carried.add(v)

        def enter(self, L, k):
            st["at"] = z(c.outc.f(k))

    got = []
    res, state = Opaque("density matrix"), Opaque("input state")

    def circuit(it_, a, k):
        got.append((list(a), dict(k)))
        return res

    o = Obj(it.fn(PC), _mbqcirc=c, _input_state=state, _outcomes=VDict(), circuit=HostFn(circuit))
    it.loop_specs[(PC + ".run*", "append")] = ExtLoop()
    tag, r = attempt(it, lambda: it.call(it.fn(PC + ".run"), [o, angles]))
    if wrong:
        ctx.prove("a wrong number of angles is rejected", tag == "exc" and r == "ValueError")
        return
    if tag != "val":
        ctx.prove("rejected only for an unsupported plane", And(r == "ValueError", "at" in st and And(c.outc.mem(st["at"]), bad(st["at"]))))
        return
    p = ctx.int("p")
    ctx.prove("accepted only with supported planes", Implies(rng(p, c.outc.n), Not(bad(c.outc.f(p)))))
    ctx.prove("post: the quantum function is run once and its result returned", len(got) == 1 and r is res)
    a, k = got[0]
    ctx.prove("post: on the input state", len(a) == 1 and k.get("st") is state and set(k) == {"st"})
    l = a[0]
    ctx.prove("post: one angle per measured node", z(ops.seq_len(l)) == z(c.outc.n))
    ctx.prove("post: the angle that belongs to each node", Implies(rng(p, c.outc.n), z(ops.seq_get(l, p)) == el(p)))


def t_init(it):
    ctx = it.ctx
    c = Circ2(it)
    nc, no = ctx.int("controlled_n"), ctx.int("classical_n")
    ctx.assume(And(nc >= 0, no >= 0))
    f = ctx.func("some", I, I)
    c.attrs.update(controlled_nodes=SSeq(nc, lambda k: f(z(k))), classical_output_nodes=SSeq(no, lambda k: f(z(k))))
    built = Opaque("quantum function")
    got = []

    def mk(it_, a, k):
        got.append(list(it.bind(it.fn(MK), a, k).items()))
        return built

    it.contracts[MK] = mk
    st = Opaque("input state")
    tag, o = attempt(it, lambda: it.call(it.fn(PC), [c, st]))
    bad = Or(nc > 0, no > 0)
    if tag != "val":
        ctx.prove("rejected only for controlled nodes or measured outputs", And(o == "NotImplementedError", bad))
        return
    ctx.prove("controlled nodes and measured outputs are rejected", Not(bad))
    ctx.prove("post: the quantum function of this circuit, without noise", len(got) == 1 and dict(got[0])["gsc"] is c and dict(got[0])["circuit_noise"] is None and o.fields["circuit"] is built)
    ctx.prove("post: circuit and input state", o.fields["_mbqcirc"] is c and o.fields["_input_state"] is st)


def t_reset(it):
    ctx = it.ctx
    old, new = Opaque("input state"), Opaque("new state")
    fq = Opaque("quantum function")
    o = Obj(it.fn(PC), _mbqcirc=Opaque("circuit"), _input_state=old, _outcomes=VDict(), circuit=fq)
    n = ctx.choose(2)
    it.call(it.fn(PC + ".reset"), [o] + ([new] if n else []))
    ctx.prove("post: the state of the next run", o.fields["_input_state"] is (new if n else old))
    ctx.prove("frame: the circuit stays", o.fields["circuit"] is fq)


UNITS = [
    Unit("C02.quantum_function", t_build, [MK]),
    Unit("C02.run", t_run, [PC + ".run"]),
    Unit("C02.init", t_init, [PC + ".__init__"]),
    Unit("C02.reset", t_reset, [PC + ".reset"]),
]
