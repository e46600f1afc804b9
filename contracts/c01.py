"""C01: the numpy simulators (mentpy/simulators/np_simulator_sv.py, np_simulator_dm.py, base_simulator.py)

A quantum state is followed through what was done to it: which node of the circuit every qubit
stands for, which controlled-Z gates were applied (by node), which nodes were projected and at
what angle.  Every matrix the simulators multiply with is one of the gates proved in C16."""
from .common import *
from pyvc.core import multi
from pyvc.lib_nx import SGraph
from pyvc.spec import put

SV = "mentpy.simulators.np_simulator_sv.NumpySimulatorSV"
DM = "mentpy.simulators.np_simulator_dm.NumpySimulatorDM"
BASE = "mentpy.simulators.base_simulator.BaseSimulator"
G = "mentpy.operators.gates."
ST = "mentpy.calculator.state_ops."
WALL = 200
TRUSTED = [
    "physics of the recorded history: controlled-Z gates commute with each other and with projections of other qubits, so a run that applies each edge's gate once, projects each measured node after all gates on it, and permutes the qubits by recorded swaps yields the branch state (the matrices themselves are proved in C16, projectors in C13/C14, the partial trace in C17)",
]


class Swaps:
    """a list of swaps; perm(k, p): the position that the first k of them bring to p"""

    def __init__(self, it, name, n, fresh=True):
        ctx = self.ctx = it.ctx
        self.it, self.n, self.born = it, n, birth()
        self.N = ctx.int(name + "_len")
        ctx.assume(self.N >= 0)
        self.P, self.Q = ctx.func(name + "_perm", I, I), ctx.func(name + "_inv", I, I)
        self.perm, self.inv = lambda p: self.P(z(p)), lambda p: self.Q(z(p))
        self.added = []

    def __pyvc_getattr__(self, it, name):
        if name == "append":
            return Builtin(name, self.append)
        raise Unsupported("swaps." + name)

    def append(self, it, a, k):
        it.write_log(self)
        self.add(a[0])

    def add(self, pair):
        i, j = (z(x) for x in pair)
        perm, inv = self.perm, self.inv
        s = lambda p: z3.If(z(p) == i, j, z3.If(z(p) == j, i, z(p)))
        self.perm = lambda p: perm(s(p))
        self.inv = lambda p: s(inv(p))
        self.added.append((i, j))


def two_lists(it):
    """two lists of distinct nodes of the same length"""
    ctx = it.ctx
    g = SGraph(it)
    a, b = sublist(it, "source", g), sublist(it, "target", g)
    ctx.assume(a.n == b.n)
    return g, a, b


def same(a, b):
    v = z3.Int("v!sm")
    return z3.ForAll([v], a.mem(v) == b.mem(v), patterns=[z3.MultiPattern(a.mem(v))] if False else [a.mem(v)])


class SwapLoop:
    kind = "for"

    def __init__(self, a, b):
        self.a, self.b = a, b
        self.af, self.bf = a.f, b.f

    def bind(self, L):
        self.what = [v for v in L.fr.vars if isinstance(L.fr.vars[v], VList) and len(L.fr.vars[v]) == 0]
        if len(self.what) != 1:
            raise Unsupported("no list of swaps")
        src = [v for v, x in L.fr.vars.items() if isinstance(x, SSeq) and x is not self.a and x is not self.b and x.f is self.af]
        if "source" in L.fr.vars and isinstance(L.fr.vars["source"], SSeq) and "source" not in src and not src:
            src = ["source"]
        if len(src) != 1:
            raise Unsupported("no copy of the source list")
        self.src = src[0]

    def check(self, L, k, phase):
        ctx, a = L.ctx, self.a
        w = "%s/%s: " % (L.where, phase)
        sw, cur = L.v(self.what[0]), L.v(self.src)
        if isinstance(sw, VList):
            s = Swaps(L.it, "s0", a.n)
            s.perm = s.inv = lambda p: z(p)
            for x in sw:
                s.add(x)
            sw = s
        if not isinstance(sw, Swaps) or not isinstance(cur, (SSeq, VList)):
            raise Unsupported("swap loop")
        for i, j in sw.added:
            ctx.prove(w + "a swap of two different qubits of the register", And(rng(i, a.n), rng(j, a.n), i != j))
        p = ctx.int("p")
        ctx.prove(w + "length", z(ops.seq_len(cur)) == z(a.n))
        with ctx.scope(rng(p, a.n)):
            ctx.prove(w + "the list is the source with the swaps applied", z(ops.seq_get(cur, p)) == z(self.af(sw.perm(p))))
            ctx.prove(w + "the swaps permute", And(rng(sw.perm(p), a.n), rng(sw.inv(p), a.n), sw.inv(sw.perm(p)) == p, sw.perm(sw.inv(p)) == p))
            ctx.prove(w + "the first positions are done", Implies(p < z(k), z(ops.seq_get(cur, p)) == z(self.bf(p))))

    def havoc(self, L, k):
        ctx, a = L.ctx, self.a
        sw = Swaps(L.it, "sw", a.n)
        L.fr.vars[self.what[0]] = sw
        L.covered.append(sw)
        af = self.af
        src = SSeq(a.n, lambda p: af(sw.P(z(p))))
        put(L, self.src, src)
        p = z3.Int("p!sl")
        ctx.assume(z3.ForAll([p], z3.Implies(z3.And(p >= 0, p < z(a.n)), z3.And(sw.P(p) >= 0, sw.P(p) < z(a.n), sw.Q(sw.P(p)) == p)), patterns=[sw.P(p)]))
        ctx.assume(z3.ForAll([p], z3.Implies(z3.And(p >= 0, p < z(a.n)), z3.And(sw.Q(p) >= 0, sw.Q(p) < z(a.n), sw.P(sw.Q(p)) == p)), patterns=[sw.Q(p)]))
        ctx.assume(z3.ForAll([p], z3.Implies(z3.And(p >= 0, p < z(k), p < z(a.n)), z(af(sw.P(p))) == z(self.bf(p))), patterns=[sw.P(p)]))
        if k is not None:
            t = z(self.bf(k))
            w = sw.Q(a.index_of(t))
            with ctx.scope(And(z(k) < z(a.n), z(af(sw.P(z(k)))) != t)):
                ctx.assume(self.b.mem(t) == self.b.mem(t))
                ctx.prove("the wanted node stands further on", And(w > z(k), w < z(a.n), z(af(sw.P(w))) == t))

    def enter(self, L, k):
        pass

    def on_break(self, L, k):
        L.ctx.prove("not cut short", False)

    def on_exit(self, L, n):
        pass


def t_find_swaps(C):
    def unit(it):
        ctx = it.ctx
        g, a, b = two_lists(it)
        o = Obj(it.fn(C))
        fn = it.fn(C + ".find_swaps")
        if ctx.choose(2) == 0:
            ctx.assume(z3.Not(same(a, b)))
            must_raise(it, "different nodes are rejected", lambda: it.call(fn, [o, a, b]), "AssertionError")
            return
        ctx.assume(same(a, b))
        it.loop_specs[(C + ".find_swaps", 0)] = SwapLoop(a, b)
        tag, r = attempt(it, lambda: unwritten(it, "frame: the lists are not modified", [a, b], lambda: it.call(fn, [o, a, b])))
        ctx.prove("no error", tag == "val")
        if isinstance(r, VList) and len(r) == 0:
            prove_eq(it, "nothing to do", a, b)
            return
        if not isinstance(r, Swaps) or r.added:
            raise Unsupported("result of find_swaps")
        p = ctx.int("p")
        ctx.prove("post: the swaps bring the source into the order of the target", Implies(rng(p, a.n), z(a.f(r.perm(p))) == z(b.f(p))))

    return unit


# ------------------------------------------------------------------ quantum states by history


class Side:
    """a register: qubit p stands for the node lab(p); cz(u, v): a controlled-Z was applied to
    them an odd number of times; proj: the qubit just projected"""

    def __init__(self, n, lab, cz, proj=None):
        self.n, self.lab, self.cz, self.proj = n, lab, cz, proj

    def swap(self, i, j):
        lab = self.lab
        return Side(self.n, lambda p: lab(z3.If(z(p) == z(i), z(j), z3.If(z(p) == z(j), z(i), z(p)))), self.cz, self.proj)

    def toggle(self, i, j):
        a, b, cz = z(self.lab(i)), z(self.lab(j)), self.cz
        return Side(self.n, self.lab, lambda u, v: z3.Xor(z(cz(u, v)), z3.Or(z3.And(u == a, v == b), z3.And(u == b, v == a))), self.proj)

    def toggles(self, pairs):
        """pairs(p, q): the set of position pairs (smaller first)"""
        raise Unsupported("toggles")


class State:
    """sides: (ket,) for a vector, (ket, bra) for a density matrix.  psi names the input state"""

    def __init__(self, it, sides, psi):
        self.it, self.sides, self.psi, self.born = it, tuple(sides), psi, birth()
        self.loaded = None

    def like(self, sides):
        r = State(self.it, sides, self.psi)
        r.loaded = self.loaded
        return r

    def __pyvc_getattr__(self, it, name):
        if name == "copy":
            return Builtin(name, lambda it_, a, k: self.like(self.sides))
        if name == "shape":
            d = ops.pow2(it.ctx, self.sides[0].n)
            return (d,) * len(self.sides)
        if name == "ndim":
            return len(self.sides)
        if name == "T":
            if len(self.sides) == 1:
                return self  # of a vector
        raise Unsupported("state." + name)

    def __pyvc_binop__(self, it, op, a, b):
        ctx = it.ctx
        if op == "@" and isinstance(a, (Gate, CZs)) and b is self:
            ctx.prove("gate for as many qubits as the register has", z(a.n) == z(self.sides[0].n))
            return self.like((a.on(it, self.sides[0]),) + self.sides[1:])
        if op == "@" and a is self and isinstance(b, (Gate, CZs)) and len(self.sides) == 2:
            ctx.prove("gate for as many qubits as the register has", z(b.n) == z(self.sides[1].n))
            return self.like((self.sides[0], b.on(it, self.sides[1])))
        raise Unsupported("operation on a state")


class Gate:
    """a real symmetric gate: its conjugate and its transpose are itself"""

    def __init__(self, n, on, pair=None):
        self.n, self.on, self.pair = n, on, pair

    def __pyvc_getattr__(self, it, name):
        if name == "T":
            return self
        if name in ("conj", "conjugate", "transpose"):
            return Builtin(name, lambda it_, a, k: self)
        raise Unsupported("gate." + name)

    def __pyvc_binop__(self, it, op, a, b):
        if op != "@" or not (isinstance(a, Gate) and isinstance(b, CZs) or isinstance(b, Gate) and isinstance(a, CZs)):
            return NotImplemented
        g, m = (a, b) if isinstance(a, Gate) else (b, a)
        if g.pair is None:
            raise Unsupported("product of gates")
        it.ctx.prove("gates for the same number of qubits", z(g.n) == z(m.n))
        i, j = g.pair
        R = m.R
        return CZs(m.w, m.n, lambda p, q: z3.Xor(z(R(p, q)), z3.Or(z3.And(p == z(i), q == z(j)), z3.And(p == z(j), q == z(i)))))


class CZs:
    """a product of controlled-Z gates on a register of n qubits, on the pairs of positions R"""

    def __init__(self, w, n, R):
        self.w, self.n, self.R = w, n, R

    __pyvc_getattr__ = Gate.__pyvc_getattr__

    def on(self, it, side):
        """applied to the qubits of the first n nodes of the schedule"""
        ctx, w, R = it.ctx, self.w, self.R
        p = ctx.int("p")
        ctx.prove("the gates act on the qubits of the first nodes of the schedule", Implies(rng(p, side.n), z(side.lab(p)) == z(w.sched.f(p))))
        cz, n = side.cz, z(self.n)
        ins = lambda v: z3.And(w.g.isnode(v), w.pos(v) < n)
        return Side(side.n, side.lab, lambda u, v: z3.Xor(z(cz(u, v)), z3.And(ins(z(u)), ins(z(v)), z(R(w.pos(z(u)), w.pos(z(v)))))), side.proj)


def wrap(name, f):
    """the library function, except on recorded states and gates"""
    old = LIB[name].fn

    def g(it, a, k):
        if any(isinstance(x, (State, Gate, CZs, Conj)) for x in list(a) + list(k.values())):
            return f(it, a, k)
        return old(it, a, k)

    LIB[name] = Builtin(name, g)


def _conj(it, a, k):
    if len(a) != 1 or k:
        raise Unsupported("conj")
    return a[0] if isinstance(a[0], (Gate, CZs)) else Conj(a[0])


wrap("numpy.conj", _conj)
wrap("numpy.conjugate", _conj)
wrap("numpy.transpose", lambda it, a, k: it.getattr(a[0], "T"))


def hosts(it):
    """numpy on recorded states and gates"""
    ctx = it.ctx
    def swap(it_, a, kw):
        i, j, n = list(it.bind(it.fn(G + "swap_ij"), a, kw).values())
        ctx.prove("swap_ij: two different qubits of the register", And(rng(i, n), rng(j, n), z(i) != z(j)))
        return Gate(n, lambda it_, s: s.swap(i, j))

    def cz(it_, a, kw):
        i, j, n = list(it.bind(it.fn(G + "controlled_z"), a, kw).values())
        ctx.prove("controlled_z: two different qubits of the register", And(rng(i, n), rng(j, n), z(i) != z(j)))
        return Gate(n, lambda it_, s: s.toggle(i, j), (i, j))

    it.contracts[G + "swap_ij"] = swap
    it.contracts[G + "controlled_z"] = cz


class Conj:
    """the conjugate of a state vector"""

    def __init__(self, s):
        self.s = s

    def __pyvc_getattr__(self, it, name):
        if name == "T" and len(self.s.sides) == 1:
            return self
        raise Unsupported("conj." + name)


def t_reorder(C, kind):
    def unit(it):
        ctx = it.ctx
        hosts(it)
        g, a, b = two_lists(it)
        ctx.assume(same(a, b))
        n = a.n
        af, bf = a.f, b.f
        sw = Swaps(it, "sw", n)
        i, p = z3.Ints("i!ro p!ro")
        SI, SJ, PF = ctx.func("swap_i", I, I), ctx.func("swap_j", I, I), ctx.func("prefix", I, I, I)
        ctx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < sw.N), z3.And(SI(i) >= 0, SJ(i) >= 0, SI(i) < z(n), SJ(i) < z(n), SI(i) != SJ(i))), patterns=[SI(i)]))
        ctx.assume(z3.ForAll([p], PF(0, p) == p, patterns=[PF(0, p)]))
        ctx.assume(z3.ForAll([p], z3.Implies(z3.And(p >= 0, p < z(n)), z(af(PF(sw.N, p))) == z(bf(p))), patterns=[PF(sw.N, p)]))
        sw.__class__ = type("SwapList", (Swaps,), {"__pyvc_iter__": lambda self, it_: SSeq(sw.N, lambda k: (SI(z(k)), SJ(z(k))))})

        def fs(it_, args, kw):
            v = it.bind(it.fn(C + ".find_swaps"), args, kw)
            x = list(v.values())
            ctx.prove("find_swaps: from the current to the wanted order", len(x) == 3 and x[1] is a and x[2] is b)
            return sw

        it.contracts[C + ".find_swaps"] = fs
        lo = ctx.func("czd", I, I, B)
        cz = lambda u, v: lo(u, v)
        sides = [Side(n, lambda q: z(af(q)), cz) for _ in range(kind)]
        s0 = State(it, sides, "psi")
        o = Obj(it.fn(C))
        it.loop_specs[(C + ".reorder_qubits", 0)] = ReorderLoop(a, sw, PF, SI, SJ, cz)
        tag, r = attempt(it, lambda: it.call(it.fn(C + ".reorder_qubits"), [o, s0, a, b]))
        ctx.prove("no error", tag == "val")
        if not isinstance(r, State):
            raise Unsupported("result of reorder_qubits")
        ctx.prove("frame: the state is not modified", r is not s0)
        ctx.prove("post: kind", len(r.sides) == kind)
        q, u, v = ctx.int("q"), ctx.int("u"), ctx.int("v")
        for sd in r.sides:
            ctx.prove("post: as many qubits", z(sd.n) == z(n))
            ctx.prove("post: the qubits stand in the target order", Implies(rng(q, n), z(sd.lab(q)) == z(bf(q))))
            ctx.prove("post: no other gate", Iff(sd.cz(u, v), cz(u, v)))

    return unit


class ReorderLoop:
    kind = "for"

    def __init__(self, a, sw, PF, SI, SJ, cz):
        self.a, self.sw, self.PF, self.SI, self.SJ, self.cz = a, sw, PF, SI, SJ, cz
        self.af = a.f

    def bind(self, L):
        st = [v for v in L.assigned if v in L.fr.vars and isinstance(L.fr.vars[v], State)]
        if len(st) != 1:
            raise Unsupported("no state in the loop")
        self.var = st[0]
        self.s0 = L.fr.vars[self.var]

    def check(self, L, k, phase):
        ctx = L.ctx
        w = "%s/%s: " % (L.where, phase)
        s = L.v(self.var)
        if not isinstance(s, State):
            raise Unsupported("no state")
        ctx.prove(w + "kind", len(s.sides) == len(self.s0.sides))
        p, u, v = ctx.int("p"), ctx.int("u"), ctx.int("v")
        n = z(self.a.n)
        if phase == "preserve":
            i, j = self.SI(z(k) - 1), self.SJ(z(k) - 1)
            # definition of the prefixes
            ctx.define(self.PF(z(k), p) == self.PF(z3.simplify(z(k) - 1), z3.If(p == i, j, z3.If(p == j, i, p))))
        for sd in s.sides:
            ctx.prove(w + "size", z(sd.n) == n)
            ctx.prove(w + "the first swaps were applied", Implies(rng(p, n), z(sd.lab(p)) == z(self.af(self.PF(z(k), p)))))
            ctx.prove(w + "no other gate", Iff(sd.cz(u, v), self.cz(u, v)))

    def havoc(self, L, k):
        sd = Side(self.a.n, lambda p: z(self.af(self.PF(z(k), z(p)))), self.cz)
        put(L, self.var, State(L.it, [sd] * len(self.s0.sides), self.s0.psi))

    def enter(self, L, k):
        pass

    def on_break(self, L, k):
        L.ctx.prove("not cut short", False)

    def on_exit(self, L, n):
        pass


# ------------------------------------------------------------------ the window


class Plain(SGraph):
    """the same with adjacency and node-hood as predicates"""

    def __init__(self, it):
        SGraph.__init__(self, it)
        ctx = it.ctx
        A, ND = ctx.func("edge", I, I, B), ctx.func("node", I, B)
        u, v, i = z3.Ints("u!pl v!pl i!pl")
        ctx.assume(z3.ForAll([u, v], z3.Implies(A(u, v), z3.And(A(v, u), u != v, ND(u), ND(v))), patterns=[A(u, v)]))
        ctx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < self.n), ND(self.node(i))), patterns=[self.node(i)]))
        ctx.assume(z3.ForAll([v], z3.Implies(ND(v), z3.And(self.idx(v) >= 0, self.idx(v) < self.n, self.node(self.idx(v)) == v)), patterns=[self.idx(v)]))
        self.isnode = lambda v: ND(z(v))
        self.adj = lambda u, v: A(z(u), z(v))


class Win:
    """a circuit, a schedule (a permutation of its nodes) and the list of measured nodes"""

    def __init__(self, it, schedule=True):
        ctx = self.ctx = it.ctx
        self.it = it
        g = self.g = Plain(it)
        self.N = g.n
        self.ins, self.outs, self.qouts = sublist(it, "inputs", g), sublist(it, "outputs", g), sublist(it, "qouts", g)
        self.deg, self.nb, self.nbx = ctx.func("degree", I, I), ctx.func("neighbour", I, I, I), ctx.func("neighbour_at", I, I, I)
        u, v, j = z3.Ints("u!wi v!wi j!wi")
        ctx.assume(z3.ForAll([u, j], z3.Implies(z3.And(g.isnode(u), j >= 0, j < self.deg(u)), z3.And(g.adj(u, self.nb(u, j)), self.nbx(u, self.nb(u, j)) == j)), patterns=[self.nb(u, j)]))
        ctx.assume(z3.ForAll([u, v], z3.Implies(g.adj(u, v), z3.And(self.nbx(u, v) >= 0, self.nbx(u, v) < self.deg(u), self.nb(u, self.nbx(u, v)) == v)), patterns=[self.nbx(u, v)]))
        ctx.assume(z3.ForAll([u], self.deg(u) >= 0, patterns=[self.deg(u)]))
        if schedule:
            self.permutation()
            self.measured()

    def permutation(self):
        ctx, g = self.ctx, self.g
        s = self.sched = sublist(self.it, "schedule", g)
        v, i = z3.Ints("v!wp i!wp")
        ctx.assume(z(s.n) == self.N)
        ctx.assume(z3.ForAll([v], z3.Implies(g.isnode(v), s.mem(v)), patterns=[s.mem(v)]))
        ctx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < self.N), s.mem(g.node(i))), patterns=[g.node(i)]))
        self.pos = lambda v: z(s.index_of(v))
        # a list of distinct nodes is no longer than the list of all nodes
        for l in (self.ins, self.outs, self.qouts):
            ctx.assume(z(l.n) <= self.N)
        ctx.trust("a list of distinct nodes is at most as long as the list of all nodes; the nodes outside it are as many as are left")

    def measured(self):
        ctx, g = self.ctx, self.g
        m = self.meas = sublist(self.it, "measure", g)
        v, i = z3.Ints("v!wm i!wm")
        S = lambda k: z(self.sched.f(k))
        self.M = z(m.n)
        self.mpos = lambda v: z(m.index_of(v))
        ctx.assume(self.M == self.N - z(self.qouts.n))
        ctx.assume(z3.ForAll([v], z3.Implies(g.isnode(v), m.mem(v) == z3.Not(self.qouts.mem(v))), patterns=[m.mem(v)]))
        ctx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < self.N), m.mem(S(i)) == z3.Not(self.qouts.mem(S(i)))), patterns=[S(i)]))

    def neighbours(self, u):
        u = z(u)
        s = SSeq(self.deg(u), lambda j: self.nb(u, z(j)))
        s.mem = lambda t: self.g.adj(u, z(t))
        s.index_of = lambda t: self.nbx(u, z(t))
        return s

    def needed(self, k, x):
        """x must be loaded when the k-th node is measured"""
        m = z(self.meas.f(z(k)))
        return z3.Or(x == m, self.g.adj(m, x))

    def enough(self, W):
        """the window is large enough"""
        k, x = z3.Ints("k!en x!en")
        m = z(self.meas.f(k))
        return [
            z(W) >= z(self.ins.n),
            z(W) >= self.N - self.M,
            z3.ForAll([k, x], z3.Implies(z3.And(k >= 0, k < self.M, self.needed(k, x)), self.pos(x) < z(W) + k), patterns=[multi(m, self.pos(x))]),
        ]


class Graph:
    """the graph of the circuit"""

    def __init__(self, w):
        self.w, self.g = w, w.g

    def __pyvc_len__(self, it):
        return self.g.n

    def __pyvc_contains__(self, it, v):
        return self.g.isnode(v)

    def __pyvc_iter__(self, it):
        return self.g.nodes()

    def __pyvc_getattr__(self, it, name):
        if name in ("neighbors", "adj"):
            if name == "neighbors":
                return Builtin(name, lambda it_, a, k: self.w.neighbours(a[0]))
        if name == "subgraph":
            return Builtin(name, lambda it_, a, k: Sub(it, self.w, a[0]))
        return self.g.__pyvc_getattr__(it, name)


class Circuit:
    def __init__(self, w):
        self.w = w
        self.graph = Graph(w)
        self.attrs = {}

    def __pyvc_len__(self, it):
        return self.w.N

    def __pyvc_getattr__(self, it, name):
        w = self.w
        if name in self.attrs:
            return self.attrs[name]
        if name == "graph":
            return self.graph
        if name == "input_nodes":
            return w.ins
        if name == "output_nodes":
            return w.outs
        if name == "quantum_output_nodes":
            return w.qouts
        raise Unsupported("circuit." + name)


def t_required(it):
    ctx = it.ctx
    C = SV
    o = Obj(it.fn(C))
    name = BASE + "._required_window_size"
    if ctx.choose(2) == 0:
        # any list that is not a permutation of the nodes is rejected
        w = Win(it, False)
        f = ctx.func("list", I, I)
        n = ctx.int("list_n")
        ctx.assume(n >= 0)
        s = SSeq(n, lambda k: f(z(k)))
        m = sublist(it, "measure", w.g)
        w.meas, w.M = m, z(m.n)
        i, v = z3.Ints("i!rq v!rq")
        ix = ctx.func("where", I, I)
        inside = z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), w.g.isnode(f(i))), patterns=[f(i)])
        cover = z3.ForAll([v], z3.Implies(w.g.isnode(v), z3.Exists([i], z3.And(i >= 0, i < n, f(i) == v))))
        ctx.assume(z3.Not(z3.And(n == w.N, inside, cover)))
        ctx.trust("a list of N nodes that covers all N nodes has no repetition")
        o.fields.update(_mbqcirc=Circuit(w), schedule=s, schedule_measure=m)
        must_raise(it, "other schedules are rejected", lambda: it.call(it.fn(name), [o]), "ValueError")
        return
    w = Win(it)
    o.fields.update(_mbqcirc=Circuit(w), schedule=w.sched, schedule_measure=w.meas)
    k_, x_ = z3.Ints("k!rw x!rw")
    st = {}

    def upto(r, k):
        return z3.ForAll([k_, x_], z3.Implies(z3.And(k_ >= 0, k_ < z(k), w.needed(k_, x_)), w.pos(x_) < z(r) + k_), patterns=[multi(z(w.meas.f(k_)), w.pos(x_))])

    def basic(r):
        return [("at least the inputs", z(r) >= z(w.ins.n)), ("at least the outputs", z(r) >= w.N - w.M), ("at most all nodes", z(r) <= w.N)]

    var = "required"
    it.loop_specs[(name, 0)] = Inv(fresh={var: lambda L, k: ctx.int("required")}, inv=lambda L, k: basic(L.v(var)) + [("the nodes so far", upto(L.v(var), k))], enter=lambda L, k: st.__setitem__("k", z(k)))

    def inner(L, j):
        k = st["k"]
        m = z(w.meas.f(k))
        r = z(L.v(var))
        q = z3.Int("q!rw")
        el = lambda t: z(ops.seq_get(L.seq, t))
        return basic(r) + [("the nodes so far", upto(r, k)), ("their neighbours so far", z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < z(j)), w.pos(el(q)) < r + k)))]

    def covered(L, n):
        # the inner loop visits the node and all its neighbours
        k = st["k"]
        m = z(w.meas.f(k))
        r = z(L.v(var))
        el = lambda t: z(ops.seq_get(L.seq, t))
        x = ctx.int("x")
        j = z3.simplify(w.nbx(m, x) + 1)
        ctx.prove("every needed node is visited", Implies(w.needed(k, x), z3.Or(el(z3.IntVal(0)) == x, z3.And(j >= 1, j < z(L.seq.n), el(j) == x))), assume=False)
        ctx.assume(z3.ForAll([x_], z3.Implies(w.needed(k, x_), w.pos(x_) < r + k), patterns=[w.pos(x_)])) if ctx.prove("every needed node is inside", Implies(w.needed(k, x), w.pos(x) < r + k), assume=False) else None

    it.loop_specs[(name, 1)] = Inv(fresh={var: lambda L, k: ctx.int("required")}, inv=inner, on_exit=covered)
    tag, r = attempt(it, lambda: it.call(it.fn(name), [o]))
    ctx.prove("a permutation of the nodes is accepted", tag == "val")
    if tag != "val":
        return
    ctx.prove("post: no more than all nodes", z(r) <= w.N)
    for q, f in enumerate(w.enough(r)):
        ctx.prove("post: %s" % ["room for the inputs", "room for the outputs", "nodes are measured after all their neighbours are loaded"][q], f)


# ------------------------------------------------------------------ one measurement


class AMent:
    """a measurement, through its matrix and its effects (C13)"""

    def __init__(self, it, plane, angle, povm):
        self.plane, self.angle, self.povm = plane, angle, povm
        self.asked = []

    def __pyvc_getattr__(self, it, name):
        if name == "plane":
            return self.plane
        if name == "copy":
            return Builtin(name, lambda it_, a, k: self)
        if name == "matrix":
            return Builtin(name, lambda it_, a, k: carr(it, "op", 2, 2))
        if name == "get_povm":
            def f(it_, a, k):
                self.asked.append(list(a) + list(k.values()))
                return self.povm

            return Builtin(name, f)
        raise Unsupported("measurement." + name)


def t_measure_ment(C, kind):
    def unit(it):
        ctx = it.ctx
        n, i = ctx.int("n"), ctx.int("i")
        ctx.assume(And(n >= 1, i >= 0, i < n))
        dim = ops.pow2(ctx, n)
        p0, p1 = carr(it, "p0", 2, 2), carr(it, "p1", 2, 2)
        plane = ["X", "Y", "XY", "XZ"][ctx.choose(4 if kind == 1 else 3)]
        angle = ctx.real("angle")
        m = AMent(it, plane, angle, (p0, p1))
        outcomes = VDict()
        full = {id(p0): carr(it, "P0", dim, dim), id(p1): carr(it, "P1", dim, dim)}

        def ext(it_, a, kw):
            u, j, k = list(it.bind(it.fn(G + "arbitrary_qubit_gate"), a, kw).values())
            ctx.prove("arbitrary_qubit_gate: the qubit, in a register of the state's size", And(z(j) == i, z(k) == n))
            if id(u) not in full:
                raise Unsupported("extended gate")
            return full[id(u)].copy()

        it.contracts[G + "arbitrary_qubit_gate"] = ext
        it.contracts[C + ".current_number_simulated_nodes"] = lambda it_, a, k: n
        psi = carr(it, "psi", *([dim] * kind))
        o = Obj(it.fn(C), qstate=psi, _outcomes=outcomes)
        fn = it.fn(C + ".measure_ment")
        P = full[id(p0)]
        if plane == "XZ":
            must_raise(it, "unsupported planes are rejected", lambda: it.call(fn, [o, m, angle, i], {"force0": True}), "ValueError")
            return
        mm = lambda a, b: ops.matmul(ctx, a, b)
        if kind == 1:
            v = mm(P, psi.copy())
            nrm = LIB["numpy.linalg.norm"].fn(it, [v], {})
            ctx.assume(z(nrm) > 0)
            spec = ops.arr_binop(ctx, "/", v, nrm)
        else:
            tr = LIB["numpy.real"].fn(it, [LIB["numpy.trace"].fn(it, [mm(psi.copy(), P)], {})], {})
            ctx.assume(z(tr) >= z3.RealVal("0.0001"))
            Pd = LIB["numpy.transpose"].fn(it, [LIB["numpy.conj"].fn(it, [P], {})], {})
            spec = ops.arr_binop(ctx, "/", mm(mm(P, psi.copy()), Pd), tr)
        tag, r = attempt(it, lambda: unwritten(it, "frame: the state before is not modified", [psi, p0, p1], lambda: it.call(fn, [o, m, angle, i], {"force0": True})))
        ctx.prove("no error", tag == "val")
        if tag != "val":
            return
        if not isinstance(r, tuple) or len(r) != 2:
            raise Unsupported("result of measure_ment")
        ctx.prove("the effects at this angle, given the outcomes so far", len(m.asked) == 1 and m.asked[0][0] is angle and m.asked[0][1] is outcomes)
        prove_eq(it, "post: projected on outcome 0 and normalised", r[0], spec)
        prove_eq(it, "post: outcome 0", r[1], 0)
        ctx.prove("post: the simulator holds the projected state", o.fields["qstate"] is r[0])

    return unit


# ------------------------------------------------------------------ the invariant of a run


class Now:
    """after c measurements with a window of W nodes"""

    def __init__(self, w, W, c):
        self.w, self.W, self.c = w, z(W), z(c)

    def size(self):
        w = self.w
        return z3.If(self.W < w.N - self.c, self.W, w.N - self.c)

    def loaded(self, v):
        w = self.w
        return z3.And(w.g.isnode(v), w.pos(v) < self.W + self.c)

    def mem(self, v):
        """v is loaded and not measured"""
        w = self.w
        return z3.And(self.loaded(v), z3.Not(z3.And(w.meas.mem(v), w.mpos(v) < self.c)))

    def cz(self, u, v):
        return z3.And(self.w.g.adj(u, v), self.loaded(u), self.loaded(v))

    def some(self, it, kind, psi="psi"):
        """an arbitrary simulated-node list and state that satisfy the invariant"""
        ctx, w = it.ctx, self.w
        F, X = ctx.func("cur", I, I), ctx.func("cur_at", I, I)
        n = self.size()
        p, q, v = z3.Ints("p!no q!no v!no")
        inr = lambda t: z3.And(t >= 0, t < n)
        ctx.assume(z3.ForAll([p], z3.Implies(inr(p), z3.And(self.mem(F(p)), X(F(p)) == p)), patterns=[F(p)]))
        ctx.assume(z3.ForAll([p, q], z3.Implies(z3.And(p >= 0, p < q, q < n), w.pos(F(p)) < w.pos(F(q))), patterns=[multi(F(p), F(q))]))
        ctx.assume(z3.ForAll([v], z3.Implies(self.mem(v), z3.And(inr(X(v)), F(X(v)) == v)), patterns=[X(v)]))
        s = SSeq(n, lambda k: F(z(k)))
        s.mem = lambda t: self.mem(z(t))
        s.index_of = lambda t: X(z(t))
        cz = self.cz
        sd = Side(n, lambda k: F(z(k)), lambda u, v: cz(z(u), z(v)))
        st = State(it, [sd] * kind, psi)
        st.loaded = z3.simplify(self.W + self.c)
        self.seq, self.state, self.at = s, st, X
        return s, st

    def check(self, it, name, seq, state, kind, psi="psi", witness=None):
        ctx, w = it.ctx, self.w
        if not isinstance(state, State) or not isinstance(seq, (SSeq, VList)):
            raise Unsupported("simulated nodes / state")
        n = self.size()
        ctx.prove(name + "number of simulated nodes", z(ops.seq_len(seq)) == n)
        p, q, v, u = (ctx.int(x) for x in "pqvu")
        el = lambda k: z(ops.seq_get(seq, k))
        ctx.prove(name + "kind of state", len(state.sides) == kind)
        ctx.prove(name + "same input state", state.psi == psi)
        with ctx.scope(And(p >= 0, p < n)):
            ctx.prove(name + "simulated nodes are loaded and not measured", self.mem(el(p)))
            ctx.prove(name + "in the order of the schedule", Implies(And(q > p, q < n), w.pos(el(p)) < w.pos(el(q))))
        wit = witness(v) if witness else (z(seq.index_of(v)) if hasattr(seq, "index_of") else None)
        if wit is not None:
            goal = And(wit >= 0, wit < n, el(wit) == v)
        else:
            j = z3.Int("j!wt")
            goal = z3.Exists([j], z3.And(j >= 0, j < n, el(j) == v))
        ctx.prove(name + "every loaded, unmeasured node is simulated", Implies(self.mem(v), goal))
        for sd in state.sides:
            ctx.prove(name + "number of qubits", z(sd.n) == n)
            ctx.prove(name + "nothing left projected", sd.proj is None)
            with ctx.scope(And(p >= 0, p < n)):
                ctx.prove(name + "qubit p stands for the p-th simulated node", z(sd.lab(p)) == el(p))
            ctx.prove(name + "the gates applied are the edges between loaded nodes", Iff(sd.cz(u, v), self.cz(u, v)))


class MentOf:
    """the measurement the circuit declares for a node"""

    def __init__(self, w, node):
        self.w, self.node = w, node

    def __pyvc_getattr__(self, it, name):
        if name == "copy":
            return Builtin(name, lambda it_, a, k: self)
        if name == "angle":
            return AngleOf(self.node)
        raise Unsupported("measurement." + name)


class AngleOf:
    """the fixed angle declared for a node"""

    def __init__(self, node):
        self.node = node


def _kron(it, a, k):
    s, v = a
    ctx = it.ctx
    if not isinstance(s, State) or not isinstance(v, SArr) or v.ndim != len(s.sides):
        raise Unsupported("kron")
    if v.ndim == 1:
        ctx.prove("the new qubit is |+>: shape", z(v.shape[0]) == 2)
        x, y = (to_cx(v.get(i)) for i in range(2))
        ctx.prove("the new qubit is |+>", And(z(x.re) > 0, 2 * z(x.re) * z(x.re) == 1, z(y.re) == z(x.re), z(x.im) == 0, z(y.im) == 0))
    else:
        ctx.prove("the new qubit is |+><+|: shape", And(z(v.shape[0]) == 2, z(v.shape[1]) == 2))
        for i in range(2):
            for j in range(2):
                x = to_cx(v.get(i, j))
                ctx.prove("the new qubit is |+><+| [%d%d]" % (i, j), And(2 * z(x.re) == 1, z(x.im) == 0))
    return it.win.load(it, s)


wrap("numpy.kron", _kron)


class NoNan:
    def __pyvc_getattr__(self, it, name):
        if name in ("any",):
            return Builtin(name, lambda it_, a, k: False)
        raise Unsupported(name)


def _isnan(it, a, k):
    it.ctx.trust("real arithmetic: no NaN arises (outcome 0 has probability at least 1e-4)")
    return NoNan()


wrap("numpy.isnan", _isnan)
_nb = LIB.get("networkx.neighbors")
LIB["networkx.neighbors"] = Builtin("networkx.neighbors", lambda it, a, k: it.getattr(a[0], "neighbors").fn(it, [a[1]], {}))


def load(self, it, s):
    """the next qubit of the schedule enters as |+> (all fresh qubits are alike: naming is free)"""
    ctx = it.ctx
    t = z(s.loaded)
    ctx.prove("there is a node to load", And(t >= 0, t < self.N))
    out = []
    for sd in s.sides:
        def lab(p, sd=sd):
            return z3.If(z(p) == z(sd.n), z(self.sched.f(t)), z(sd.lab(p)))

        out.append(Side(z3.simplify(z(sd.n) + 1), lab, sd.cz, sd.proj))
    r = State(it, out, s.psi)
    r.loaded = z3.simplify(t + 1)
    return r


Win.load = load


def sim_contracts(it, w, C, kind, events):
    """measure_ment, partial_trace and pure2density by their contracts"""
    ctx = it.ctx
    it.win = w

    def mm(it_, a, kw):
        b = it.bind(it.fn(C + ".measure_ment"), a, kw)
        o, ment, angle, i = b["self"], b["ment"], b["angle"], b["i"]
        s = o.fields["qstate"]
        if not isinstance(s, State) or not isinstance(ment, MentOf):
            raise Unsupported("measure_ment")
        ctx.prove("measure_ment: outcome 0 is forced", it.truth(b["force0"]))
        n = it.call(it.fn(C + ".current_number_simulated_nodes"), [o])
        x = ctx.int("x")
        out = []
        for sd in s.sides:
            ctx.prove("measure_ment: the register has the number of simulated nodes", z(sd.n) == z(n))
            ctx.prove("measure_ment: a qubit of the register", rng(i, sd.n))
            ctx.prove("measure_ment: the measurement of the node the qubit stands for", z(sd.lab(i)) == z(ment.node))
            ctx.prove("measure_ment: all gates on the node were applied", Iff(sd.cz(z(ment.node), x), w.g.adj(z(ment.node), x)))
            out.append(Side(sd.n, sd.lab, sd.cz, z(i)))
        r = State(it, out, s.psi)
        r.loaded = s.loaded
        o.fields["qstate"] = r
        it.write_log(o, "qstate")
        events.append((ment.node, angle, b.get("mode")))
        return (r, 0)

    def pt(it_, a, kw):
        b = it.bind(it.fn(ST + "partial_trace"), a, kw)
        s, idx = list(b.values())[:2]
        if not isinstance(s, State):
            raise Unsupported("partial trace")
        if not isinstance(idx, (VList, tuple)) or len(idx) != 1:
            raise Unsupported("partial trace of several qubits")
        i = z(idx[0])
        out = []
        for sd in s.sides:
            ctx.prove("partial_trace: the projected qubit, and no other, is traced out", sd.proj is not None and And(sd.proj == i, rng(i, sd.n)))
            out.append(Side(z3.simplify(z(sd.n) - 1), lambda p, sd=sd: sd.lab(z3.If(z(p) < i, z(p), z(p) + 1)), sd.cz, None))
        r = State(it, out, s.psi)
        r.loaded = s.loaded
        return r

    def p2d(it_, a, kw):
        s = list(it.bind(it.fn(ST + "pure2density"), a, kw).values())[0]
        if not isinstance(s, State):
            if isinstance(s, SArr):
                return LIB["numpy.outer"].fn(it, [s, LIB["numpy.conj"].fn(it, [s], {})], {})
            raise Unsupported("pure2density")
        if len(s.sides) != 1:
            raise Unsupported("pure2density of a matrix")
        r = State(it, s.sides * 2, s.psi)
        r.loaded = s.loaded
        return r

    it.contracts[C + ".measure_ment"] = mm
    it.contracts[ST + "partial_trace"] = pt
    it.contracts[ST + "pure2density"] = p2d


def window(it, w):
    """a window size the simulator accepts"""
    W = it.ctx.int("W")
    for f in w.enough(W):
        it.ctx.assume(f)
    it.ctx.assume(And(W <= w.N, W >= 0))
    return W


class LoadLoop:
    """the gates between the new qubit and its simulated neighbours"""

    kind = "for"

    def __init__(self, w, now, nxt, rank):
        self.w, self.now, self.nxt, self.rank = w, now, nxt, rank

    def matches(self, it, st, fr):
        return fr.fn.name == "measure"

    def bind(self, L):
        self.sim = L.v("self")
        self.s0 = self.sim.fields["qstate"]
        self.new = z(L.it.ctx.int("new"))
        L.ctx.assume(self.new == z(self.w.sched.f(self.now.W + self.now.c)))
        q = L.ctx.int("q")
        if not isinstance(self.s0, State):
            raise Unsupported("state")
        L.ctx.prove(L.where + ": over the neighbours of the new node", And(z(L.seq.n) == self.w.deg(self.new), Implies(rng(q, L.seq.n), z(L.seq.f(q)) == self.w.nb(self.new, q))))

    def cz(self, k):
        w, new, now = self.w, self.new, self.now
        side = lambda u, v: z3.And(u == new, w.g.adj(new, v), w.nbx(new, v) < z(k), now.loaded(v))
        return lambda u, v: z3.Or(now.cz(u, v), side(u, v), side(v, u))

    def check(self, L, k, phase):
        ctx = L.ctx
        w = "%s/%s: " % (L.where, phase)
        s = self.sim.fields["qstate"]
        if not isinstance(s, State):
            raise Unsupported("state")
        p, u, v = ctx.int("p"), ctx.int("u"), ctx.int("v")
        ctx.prove(w + "kind", len(s.sides) == len(self.s0.sides) and s.psi == self.s0.psi)
        if phase == "preserve":
            W_, new, now, j = self.w, self.new, self.now, z(k) - 1
            x = W_.nb(new, j)
            for t in (u, v):
                ctx.prove(w + "lemma: the neighbour", Iff(And(W_.g.adj(new, t), W_.nbx(new, t) == j), t == x))
                ctx.prove(w + "lemma: the new node was not loaded", Implies(t == new, Not(now.loaded(t))))
                ctx.prove(w + "lemma: no loop", Implies(t == x, t != new))
                ctx.prove(w + "lemma: loaded neighbours are not measured", Implies(And(t == x, now.loaded(t)), self.nxt.mem(t)))
                ctx.prove(w + "lemma: simulated nodes are loaded", Implies(And(t == x, self.nxt.mem(t)), now.loaded(t)))
        for sd, s0 in zip(s.sides, self.s0.sides):
            ctx.prove(w + "size", And(z(sd.n) == z(s0.n), sd.proj is None))
            ctx.prove(w + "qubits in place", Implies(rng(p, sd.n), z(sd.lab(p)) == z(s0.lab(p))))
            ctx.prove(w + "gates between the new qubit and the neighbours so far", Iff(sd.cz(u, v), self.cz(k)(u, v)))

    def havoc(self, L, k):
        s = State(L.it, [Side(sd.n, sd.lab, self.cz(k), None) for sd in self.s0.sides], self.s0.psi)
        s.loaded = self.s0.loaded
        self.sim.fields["qstate"] = s
        L.covered.append((self.sim, "qstate"))

    def enter(self, L, k):
        ctx, now = L.ctx, self.now
        x = z(L.seq.f(k))
        l = self.sim.fields["_current_simulated_nodes"]
        p = self.rank(now.at(x))
        ctx.prove("loaded neighbours of the new node were not measured", Implies(now.loaded(x), now.mem(x)))
        ctx.prove("they are simulated", Implies(now.loaded(x), And(rng(p, ops.seq_len(l)), z(ops.seq_get(l, p)) == x)))

    def on_break(self, L, k):
        L.ctx.prove("not cut short", False)

    def on_exit(self, L, n):
        pass


def simulator(it, w, C, W, c, cur, state, cls_fields=None):
    circ = Circuit(w)
    circ.__class__ = type("ItemCircuit", (Circuit,), {"__pyvc_getitem__": lambda self, it_, v: MentOf(w, v)})
    o = Obj(it.fn(C))
    o.fields.update(_mbqcirc=circ, window_size=W, schedule=w.sched, schedule_measure=w.meas, force0=True, dev_mode=False, wires=None, current_measurement=c, _current_simulated_nodes=cur, qstate=state, _outcomes=VDict())
    o.fields.update(cls_fields or {})
    return o


def t_measure(C, kind):
    def unit(it):
        ctx = it.ctx
        w = Win(it)
        hosts(it)
        events = []
        sim_contracts(it, w, C, kind, events)
        W = window(it, w)
        c = ctx.int("c")
        now = Now(w, W, c)
        angle = Opaque("angle")
        fn = it.fn(C + ".measure")
        if ctx.choose(2) == 0:
            ctx.assume(c >= w.M)
            cur, st = now.some(it, kind)
            o = simulator(it, w, C, W, c, cur, st)
            must_raise(it, "no measurement is repeated", lambda: it.call(fn, [o, angle]), "ValueError")
            return
        ctx.assume(And(c >= 0, c < w.M))
        cur, st = now.some(it, kind)
        o = simulator(it, w, C, W, c, cur, st)
        nxt = Now(w, W, z3.simplify(c + 1))
        node = z(w.meas.f(c))
        idx = now.at(node)
        m = now.size()
        # the next node stands among the simulated ones
        ctx.assume(w.pos(node) == w.pos(node))
        ctx.prove("lemma: the next node is simulated", And(now.mem(node), rng(idx, m), z(cur.f(idx)) == node))
        new = z(w.sched.f(z3.simplify(W + c)))
        F = cur.f
        gone = lambda q: z3.If(z(q) < idx, z(q), z(q) + 1)  # positions after the removal
        rank = lambda q: z3.If(z(q) > idx, z(q) - 1, z(q))

        it.loop_specs[(C + ".measure", 1)] = LoadLoop(w, now, nxt, rank)

        def removal(out):
            """the list without the measured node is the list with that position left out"""
            sel, inv, keep, src, vc = out.raw_filter
            if src.f is not F:
                return
            q = ctx.int("q")
            ctx.prove("the measured node, and no other, is removed", Implies(rng(q, m), Iff(keep(q), q != idx)))

            q_ = z3.Int("q!rm")
            seen = ctx.func("seen", I, B)
            ctx.define(z3.ForAll([q_], seen(q_), patterns=[seen(q_)]))
            ctx.assume(z3.ForAll([q_], z3.Implies(z3.And(q_ >= 0, q_ < m, q_ != idx), z3.And(inv(q_) >= 0, inv(q_) < z(out.n), sel(inv(q_)) == q_)), patterns=[inv(q_)]))

            def stmt(k):
                f = lambda t: Implies(And(t >= 0, t < m, t != idx), inv(t) == rank(t))
                k = z(k)
                return And(f(k), f(z3.simplify(k - 1)), seen(sel(rank(k))), seen(sel(rank(k) + 1)), seen(sel(rank(k) - 1)))

            use = induct(it, "lemma: positions after a removal", stmt, [])
            ctx.assume(z3.ForAll([q_], z3.Implies(z3.And(q_ >= 0, q_ < m, q_ != idx), inv(q_) == rank(q_)), patterns=[inv(q_)]))
            use(m - 1)
            ctx.assume(sel(z(out.n) - 1) == sel(z(out.n) - 1))
            ctx.prove("one node less", z(out.n) == m - 1)
            ctx.prove("the others keep their order", Implies(rng(q, out.n), And(sel(q) == gone(q), z(out.f(q)) == z(F(gone(q))))))
            out.n = z3.simplify(m - 1)
            out.f = lambda q: F(gone(q))
            out.mem = lambda v: z3.And(now.mem(z(v)), z(v) != node)
            out.index_of = lambda v: rank(now.at(z(v)))

        it.on_filter = removal
        wit = lambda v: z3.If(And(v == new, W + c < w.N), z(ops.seq_len(o.fields["_current_simulated_nodes"])) - 1, rank(now.at(v)))
        tag, r = attempt(it, lambda: it.call(fn, [o, angle]))
        ctx.prove("no error", tag == "val")
        if tag != "val":
            return
        ctx.prove("post: exactly the next node of the schedule is measured, at the given angle", len(events) == 1 and events[0][1] is angle and z(events[0][0]) == node)
        prove_eq(it, "post: one more measurement", o.fields["current_measurement"], z3.simplify(c + 1))
        ctx.prove("post: result", isinstance(r, tuple) and len(r) == 2 and r[0] is o.fields["qstate"] and r[1] == 0)
        s2 = o.fields["_current_simulated_nodes"]
        nxt.check(it, "post: ", s2, o.fields["qstate"], kind, witness=wit)

    return unit


# ------------------------------------------------------------------ construction and reset


def src(st):
    import ast

    return ast.unparse(st)


class KronLoop:
    """|+> on the nodes that follow the inputs in the schedule"""

    kind = "for"

    def __init__(self, w, attr="_input_state"):
        self.w, self.attr = w, attr

    def matches(self, it, st, fr):
        return "kron" in src(st)

    def bind(self, L):
        self.sim = L.v("self")
        self.s0 = self.sim.fields[self.attr]
        if not isinstance(self.s0, State) or len(self.s0.sides) != 1:
            raise Unsupported("input state")

    def check(self, L, k, phase):
        ctx, w = L.ctx, self.w
        nm = "%s/%s: " % (L.where, phase)
        s = self.sim.fields[self.attr]
        if not isinstance(s, State) or len(s.sides) != 1:
            raise Unsupported("input state")
        sd = s.sides[0]
        p, u, v = ctx.int("p"), ctx.int("u"), ctx.int("v")
        n = z3.simplify(z(w.ins.n) + z(k))
        ctx.prove(nm + "number of qubits", And(z(sd.n) == n, z(s.loaded) == n))
        ctx.prove(nm + "the qubits of the first nodes of the schedule", Implies(rng(p, n), z(sd.lab(p)) == z(w.sched.f(p))))
        ctx.prove(nm + "no gate yet", Not(sd.cz(u, v)))
        ctx.prove(nm + "input state", s.psi == self.s0.psi and sd.proj is None)

    def havoc(self, L, k):
        n = z3.simplify(z(self.w.ins.n) + z(k))
        self.sim.fields[self.attr] = fresh_state(L.it, self.w, n, self.s0.psi)
        L.covered.append((self.sim, self.attr))

    def enter(self, L, k):
        pass

    def on_break(self, L, k):
        L.ctx.prove("not cut short", False)

    def on_exit(self, L, n):
        pass


def fresh_state(it, w, n, psi):
    """the input state, and |+> on the next nodes of the schedule"""
    s = State(it, [Side(n, lambda p: z(w.sched.f(z(p))), lambda u, v: z3.BoolVal(False))], psi)
    s.loaded = n
    return s


class Sub:
    """the subgraph of the simulated nodes"""

    def __init__(self, it, w, seq):
        ctx = self.ctx = it.ctx
        self.w, n = w, z(ops.seq_len(seq))
        self.n = ctx.int("sub_n")
        self.mem = lambda v: z3.And(w.g.isnode(v), w.pos(v) < n)
        p = ctx.int("p")
        ctx.prove("the subgraph of the first nodes of the schedule", Implies(rng(p, n), z(ops.seq_get(seq, p)) == z(w.sched.f(p))))
        SN, SX = self.SN, self.SX = ctx.func("sub_node", I, I), ctx.func("sub_at", I, I)
        D, NB, NX = self.D, self.NB, self.NX = ctx.func("sub_deg", I, I), ctx.func("sub_nb", I, I, I), ctx.func("sub_nb_at", I, I, I)
        i, u, v, j = z3.Ints("i!su u!su v!su j!su")
        adj = self.adj = lambda a, b: z3.And(w.g.adj(a, b), self.mem(a), self.mem(b))
        ctx.define(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < self.n), z3.And(self.mem(SN(i)), SX(SN(i)) == i)), patterns=[SN(i)]))
        ctx.define(z3.ForAll([v], z3.Implies(self.mem(v), z3.And(SX(v) >= 0, SX(v) < self.n, SN(SX(v)) == v)), patterns=[SX(v)]))
        ctx.define(z3.ForAll([u, j], z3.Implies(z3.And(self.mem(u), j >= 0, j < D(u)), z3.And(adj(u, NB(u, j)), NX(u, NB(u, j)) == j)), patterns=[NB(u, j)]))
        ctx.define(z3.ForAll([u, v], z3.Implies(adj(u, v), z3.And(NX(u, v) >= 0, NX(u, v) < D(u), NB(u, NX(u, v)) == v)), patterns=[NX(u, v)]))
        ctx.define(z3.ForAll([u], D(u) >= 0, patterns=[D(u)]))
        w.sub = self

    def __pyvc_getattr__(self, it, name):
        if name == "nodes":
            return SubNodes(self)
        if name == "neighbors":
            return Builtin(name, lambda it_, a, k: SSeq(self.D(z(a[0])), lambda j: self.NB(z(a[0]), z(j))))
        raise Unsupported("subgraph." + name)


class SubNodes:
    def __init__(self, s):
        self.s = s

    def __pyvc_iter__(self, it):
        return SSeq(self.s.n, lambda i: self.s.SN(z(i)))

    def __pyvc_call__(self, it, a, k):
        return self


class CzLoop:
    """one gate per edge of the subgraph, at the end that is smaller"""

    kind = "for"

    def __init__(self, w, inner):
        self.w, self.inner = w, inner

    def matches(self, it, st, fr):
        import ast

        nested = any(isinstance(x, ast.For) for x in ast.walk(st) if x is not st)
        return "controlled_z" in src(st) and nested != self.inner

    def bind(self, L):
        self.sim = L.v("self")
        sub = self.w.sub
        self.W = self.sim.fields["window_size"]
        if not self.inner:
            self.w.outer = self
        self.node = None

    def R(self, k, j=None, node=None):
        """positions (p, q) whose gate was applied"""
        w, sub = self.w, self.w.sub

        def f(p, q):
            u, v = z(w.sched.f(p)), z(w.sched.f(q))
            lo, hi = z3.If(u < v, u, v), z3.If(u < v, v, u)
            done = sub.SX(lo) < z(k)
            if j is not None:
                done = z3.Or(done, z3.And(lo == node, sub.NX(node, hi) < z(j)))
            return z3.And(p >= 0, q >= 0, p < z(self.W), q < z(self.W), w.g.adj(u, v), done)

        return f

    def cur(self, k):
        if not self.inner:
            return self.R(k)
        return self.R(self.w.outer.k, k, self.node)

    def check(self, L, k, phase):
        ctx, w = L.ctx, self.w
        nm = "%s/%s: " % (L.where, phase)
        if phase == "init" and self.inner:
            self.node = z(w.sub.SN(w.outer.k))
        m = self.sim.fields.get("initial_czs")
        p, q = ctx.int("p"), ctx.int("q")
        if isinstance(m, SArr):
            d = ops.pow2(ctx, self.W)
            prove_eq(L.it, nm + "identity", m, SArr((d, d), lambda r, c: z3.If(z(r) == z(c), z3.RealVal(1), z3.RealVal(0)), "f"))
            m = CZs(w, self.W, lambda a, b: z3.BoolVal(False))
        if not isinstance(m, CZs):
            raise Unsupported("initial gates")
        ctx.prove(nm + "number of qubits", z(m.n) == z(self.W))
        S = lambda t: z(w.sched.f(t))
        with ctx.scope(And(rng(p, self.W), rng(q, self.W))):
            if self.inner and phase == "preserve":
                x, j = w.sub.NB(self.node, z(k) - 1), z(k) - 1
                for t in (p, q):
                    ctx.prove(nm + "lemma: the neighbour", Iff(And(w.g.adj(self.node, S(t)), w.sub.NX(self.node, S(t)) == j), S(t) == x))
                    ctx.prove(nm + "lemma: the node", Iff(S(t) == self.node, t == w.pos(self.node)))
                    ctx.prove(nm + "lemma: positions", Iff(S(t) == x, t == w.pos(x)))
            if not self.inner and phase == "preserve":
                nd = z(w.sub.SN(z(k) - 1))
                for t in (p, q):
                    ctx.prove(nm + "lemma: the node", Iff(S(t) == nd, w.sub.SX(S(t)) == z(k) - 1))
                for a, b in ((p, q), (q, p)):
                    ctx.prove(nm + "lemma: its neighbours were visited", Implies(And(S(a) == nd, w.g.adj(nd, S(b))), w.sub.NX(nd, S(b)) < w.sub.D(nd)))
            ctx.prove(nm + "the gates of the edges visited so far", Iff(m.R(p, q), self.cur(k)(p, q)))

    def havoc(self, L, k):
        self.sim.fields["initial_czs"] = CZs(self.w, self.W, self.cur(k))
        L.covered.append((self.sim, "initial_czs"))
        if not self.inner:
            self.k = z(k)

    def enter(self, L, k):
        ctx, w = L.ctx, self.w
        if self.inner:
            for v in (self.node, z(L.seq.f(k))):
                ctx.prove("a simulated node", And(w.sub.mem(v), z(w.sched.f(w.pos(v))) == v, w.pos(v) >= 0))

    def on_break(self, L, k):
        L.ctx.prove("not cut short", False)

    def on_exit(self, L, n):
        pass


class PlaneLoop:
    """the planes of the nodes are checked one by one"""

    kind = "for"

    def matches(self, it, st, fr):
        return "plane" in src(st) and "kron" not in src(st)

    def __init__(self, w, bad):
        self.w, self.bad, self.at = w, bad, None

    def bind(self, L):
        self.at = None

    def check(self, L, k, phase):
        i = L.ctx.int("i")
        L.ctx.prove("%s/%s: supported so far" % (L.where, phase), Implies(rng(i, k), Not(self.bad(z(L.seq.f(i))))))

    def havoc(self, L, k):
        i = z3.Int("i!pn")
        L.ctx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < z(k)), z3.Not(z(self.bad(z(L.seq.f(i)))))), patterns=[z(L.seq.f(i))]))

    def enter(self, L, k):
        self.at = z(L.seq.f(k))

    def on_break(self, L, k):
        L.ctx.prove("not cut short", False)

    def on_exit(self, L, n):
        pass


def reorder_contract(it, w, C, ok):
    """states stand in the current order before, in the target order afterwards"""
    ctx = it.ctx

    def f(it_, a, kw):
        b = list(it.bind(it.fn(C + ".reorder_qubits"), a, kw).values())
        s, cur, tgt = b[-3:]
        if not isinstance(s, State):
            raise Unsupported("reorder_qubits")
        p = ctx.int("p")
        n = ops.seq_len(cur)
        for sd in s.sides:
            ctx.prove("reorder_qubits: the register is in the current order", And(z(sd.n) == z(n), Implies(rng(p, n), z(sd.lab(p)) == z(ops.seq_get(cur, p)))))
            ctx.prove("reorder_qubits: nothing projected", sd.proj is None)
        ctx.prove("reorder_qubits: lists of the same length", z(ops.seq_len(tgt)) == z(n))
        ok(cur, tgt)
        t = tgt.snap() if isinstance(tgt, SSeq) else tgt
        r = State(it, [Side(sd.n, lambda q: z(ops.seq_get(t, z(q))), sd.cz, None) for sd in s.sides], s.psi)
        r.loaded = s.loaded
        return r

    it.contracts[C + ".reorder_qubits"] = f


def input_state(it, w, psi):
    n = w.ins.n
    f = w.ins.f
    s = State(it, [Side(n, lambda p: z(f(z(p))), lambda u, v: z3.BoolVal(False))], psi)
    s.loaded = n
    return s


def same_nodes(it, w, tgt):
    """the target lists the input nodes"""
    q = z3.Int("q!sn")
    return z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < z(w.ins.n)), w.ins.mem(z(ops.seq_get(tgt, q)))))


def ready(it, w, W, o, kind, psi, czs=True):
    """the simulator stands before the first measurement"""
    ctx = it.ctx
    now = Now(w, W, 0)
    # every node at its place in the schedule
    now.check(it, "post: ", o.fields.get("_current_simulated_nodes"), o.fields.get("qstate"), kind, psi, witness=lambda v: w.pos(v))
    ctx.prove("post: no measurement yet", o.fields["current_measurement"] == 0)
    oc = o.fields["_outcomes"]
    ctx.prove("post: no outcome yet", isinstance(oc, VDict) and len(oc) == 0)
    s = o.fields["_input_state"]
    if not isinstance(s, State):
        raise Unsupported("input state")
    p, u, v = ctx.int("p"), ctx.int("u"), ctx.int("v")
    sd = s.sides[0]
    ctx.prove("post: the loaded input is kept for a reset", And(len(s.sides) == 1, s.psi == psi, z(sd.n) == z(W), Implies(rng(p, sd.n), z(sd.lab(p)) == z(w.sched.f(p))), Not(sd.cz(u, v))))
    if czs:
        m = o.fields["initial_czs"]
        if not isinstance(m, CZs):
            raise Unsupported("initial gates")
        q = ctx.int("q")
        S = lambda t: z(w.sched.f(t))
        ctx.prove("post: the gates of the window are kept for a reset", And(z(m.n) == z(W), Implies(And(rng(p, W), rng(q, W)), Iff(m.R(p, q), w.g.adj(S(p), S(q))))))


def t_reset(C, kind):
    def unit(it):
        ctx = it.ctx
        w = Win(it)
        hosts(it)
        sim_contracts(it, w, C, kind, [])
        W = window(it, w)
        c = ctx.int("c")
        ctx.assume(And(c >= 0, c <= w.M))
        cur, st = Now(w, W, c).some(it, kind, "old")
        S = lambda t: z(w.sched.f(t))
        czs = CZs(w, W, lambda p, q: w.g.adj(S(p), S(q)))
        o = simulator(it, w, C, W, c, cur, st, dict(initial_czs=czs, _input_state=fresh_state(it, w, W, "old")))
        same_ = lambda tgt: same_nodes(it, w, tgt)
        new = ctx.choose(2)
        bad = []

        def ok(cur, tgt):
            # construction succeeded, so the schedule starts with the inputs
            ctx.assume(same_(tgt))

        reorder_contract(it, w, C, ok)
        it.loop_specs[("reset*", "kron")] = KronLoop(w)
        args = [o] + ([input_state(it, w, "new")] if new else [])
        tag, r = attempt(it, lambda: it.call(it.fn(C + ".reset"), args))
        ctx.prove("no error", tag == "val")
        if tag == "val":
            ready(it, w, W, o, kind, "new" if new else "old")

    return unit


def t_init(C, kind, given):
    def unit(it):
        ctx = it.ctx
        w = Win(it, False)
        hosts(it)
        sim_contracts(it, w, C, kind, [])
        g = w.g
        circ = Circuit(w)
        PL = ctx.func("supported_plane", I, B)
        HASM = ctx.func("has_measurement", I, B)

        class M:
            def __init__(self, v):
                self.v = v

            def __pyvc_getattr__(self, it_, name):
                if name == "plane":
                    return Plane(self.v)
                raise Unsupported("measurement." + name)

        class Plane:
            def __init__(self, v):
                self.v = v

        def item(self, it_, v):
            if ctx.branch(HASM(z(v))):
                return M(z(v))
            return None

        Plane.__pyvc_eq__ = lambda self, it_, a, b: (_ for _ in ()).throw(Unsupported("plane comparison"))
        circ.__class__ = type("ItemCircuit", (Circuit,), {"__pyvc_getitem__": item})
        bad = lambda v: z3.And(HASM(v), z3.Not(PL(v)))
        i, v_ = z3.Ints("i!in v!in")
        plane_in(it, Plane, PL)
        planes = it.loop_specs[("init*", "plane")] = PlaneLoop(w, bad)
        it.loop_specs[("init*", "kron")] = KronLoop(w)
        it.loop_specs[("init*", "cz")] = CzLoop(w, False)
        it.loop_specs[("init*", "cz2")] = CzLoop(w, True)
        w.permutation()
        st = {}
        kw = {}
        if given:
            perm = ctx.choose(2) == 0
            sched = w.sched
            kw["schedule"] = sched
        else:
            perm = True
            mo = sublist(it, "order", g)
            ctx.assume(z(mo.n) == w.N)
            ctx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < w.N), mo.mem(g.node(i))), patterns=[g.node(i)]))
            ctx.assume(z3.ForAll([v_], z3.Implies(g.isnode(v_), mo.mem(v_)), patterns=[mo.mem(v_)]))
            circ.attrs["measurement_order"] = mo
            circ.attrs["flow"] = HostFn(lambda it_, a, k: None) if ctx.choose(2) else None
        wr = ctx.int("requested")
        default = not ctx.choose(2)
        if not default:
            kw["window_size"] = wr

        def required(it_, a, k):
            o = a[0]
            s, m = o.fields["schedule"], o.fields["schedule_measure"]
            if not perm:
                ops.pyraise("ValueError", "schedule")
            if not given:
                derived(s)
                o.fields["schedule"] = w.sched
            fl = getattr(m, "raw_filter", None)
            w.measured()
            ctx.assume(z(w.qouts.n) <= w.N)
            # the list at hand enumerates the nodes that are not outputs
            q = ctx.int("q")
            base = w.sched if given else mo
            if fl is None:
                if not isinstance(m, SSeq):
                    raise Unsupported("schedule_measure")
                inv = lambda v: z(base.index_of(v))
            else:
                inv = lambda v: fl[1](z(base.index_of(v)))
            el = lambda t: z(ops.seq_get(m, t))
            with ctx.scope(rng(q, m.n)):
                ctx.prove("measured nodes are no outputs, each once", And(g.isnode(el(q)), Not(w.qouts.mem(el(q))), inv(el(q)) == q))
            x = ctx.int("x")
            ctx.prove("every other node is measured", Implies(And(g.isnode(x), Not(w.qouts.mem(x))), And(rng(inv(x), m.n), el(inv(x)) == x)))
            ctx.assume(z(m.n) == w.M)
            mf = w.meas.f
            q_ = z3.Int("q!mq")
            ctx.assume(z3.ForAll([q_], z3.Implies(z3.And(q_ >= 0, q_ < w.M), z(mf(q_)) == el(q_)), patterns=[z(mf(q_))]))
            o.fields["schedule_measure"] = w.meas
            W0 = ctx.int("required")
            for f in w.enough(W0):
                ctx.assume(f)
            ctx.assume(W0 <= w.N)
            st["W0"] = W0
            return W0

        def derived(s):
            """inputs first, then the rest of the measurement order"""
            fl = [f.raw_filter for f in getattr(it, "filters", [])]
            if not fl:
                raise Unsupported("derived schedule")
            inv = fl[0][1]
            ctx.assume(z(it.filters[0].n) == w.N - z(w.ins.n))
            n = z(w.ins.n)
            at = lambda v: z3.If(w.ins.mem(v), z(w.ins.index_of(v)), n + inv(z(mo.index_of(v))))
            el = lambda t: z(ops.seq_get(s, t))
            q, x = ctx.int("q"), ctx.int("x")
            ctx.prove("default schedule: as many entries as nodes", z(ops.seq_len(s)) == w.N)
            with ctx.scope(rng(q, w.N)):
                ctx.prove("default schedule: every entry is a node, once", And(g.isnode(el(q)), at(el(q)) == q))
                ctx.prove("default schedule: the inputs come first", Implies(q < n, el(q) == z(w.ins.f(q))))
            ctx.prove("default schedule: every node", Implies(g.isnode(x), And(rng(at(x), w.N), el(at(x)) == x)))
            q_ = z3.Int("q!dq")
            sf = w.sched.f
            ctx.assume(z3.ForAll([q_], z3.Implies(z3.And(q_ >= 0, q_ < w.N), z(sf(q_)) == el(q_)), patterns=[z(sf(q_))]))

        it.contracts[BASE + "._required_window_size"] = required

        def ok(cur, tgt):
            ctx.prove("the input is reordered from the order of the input nodes", cur is w.ins)
            c = same_nodes(it, w, tgt)
            q = ctx.int("q")
            ctx.prove("to the first nodes of the schedule", Implies(rng(q, w.ins.n), z(ops.seq_get(tgt, q)) == z(w.sched.f(q))))
            if given:
                if ctx.choose(2):
                    ctx.assume(z3.Not(c))
                    st["rejected"] = True
                    ops.pyraise("AssertionError", "different nodes")
                ctx.assume(c)
            else:
                ctx.prove("the default schedule starts with the inputs", Implies(rng(q, w.ins.n), w.ins.mem(z(ops.seq_get(tgt, q)))))

        reorder_contract(it, w, C, ok)
        tag, o = attempt(it, lambda: it.call(it.fn(C), [circ, input_state(it, w, "psi")], kw))
        if tag != "val":
            if st.get("rejected"):
                ctx.prove("a schedule that does not start with the inputs is rejected", o == "AssertionError")
            elif not perm:
                ctx.prove("a schedule that is no permutation of the nodes is rejected", o == "ValueError")
            else:
                # the default window holds one node
                why = wr > w.N if not default else w.N < 1
                if planes.at is not None:
                    why = z3.Or(why, z3.And(g.isnode(planes.at), bad(planes.at)))
                ctx.prove("rejected only for a window larger than the circuit or an unsupported plane", And(o == "ValueError", why))
            return
        ctx.prove("accepted only with a valid schedule", perm and not st.get("rejected", False))
        if kind == 1:
            i0 = ctx.int("i")
            ctx.prove("accepted only with supported planes", Implies(rng(i0, g.n), Not(bad(g.node(i0)))))
        W = o.fields["window_size"]
        W0 = st.get("W0")
        if W0 is None:
            raise Unsupported("the window is not computed")
        ctx.prove("post: the window is large enough and fits", And(z(W) >= W0, z(W) <= w.N))
        ctx.prove("post: schedule and measured nodes", o.fields["schedule"] is w.sched and o.fields["schedule_measure"] is w.meas and o.fields["_mbqcirc"] is circ)
        ctx.prove("post: mode", o.fields["force0"] is True and o.fields["dev_mode"] is False)
        ready(it, w, W, o, kind, "psi")

    return unit


def plane_in(it, Plane, PL):
    """plane in [X, Y, XY]"""
    c = it.ctx.func("plane_code", I, I)

    def eq(self, it, a, b):
        o = b if a is self else a
        if not isinstance(o, str):
            raise Unsupported("plane comparison")
        return self.which(it)[o] if o in ("X", "Y", "XY") else z3.And(z3.Not(PL(z(self.v))), it.ctx.bool("other_plane"))

    def which(self, it):
        t = c(z(self.v))
        it.ctx.define((PL(z(self.v))) == z3.And(t >= 0, t <= 2))
        return {"X": t == 0, "Y": t == 1, "XY": t == 2}

    Plane.__pyvc_eq__ = eq
    Plane.which = which


# ------------------------------------------------------------------ a whole run


class Outcomes:
    """the outcomes of the first k measured nodes"""

    def __init__(self, it, w, k):
        self.w, self.k, self.born = w, z(k), birth()
        self.extra = []

    def has(self, v):
        w = self.w
        r = z3.And(w.meas.mem(v), w.mpos(v) < self.k)
        for x in self.extra:
            r = z3.Or(r, v == x)
        return r

    def __pyvc_setitem__(self, it, key, val):
        it.write_log(self)
        prove_eq(it, "the recorded outcome is the one obtained", val, 0)
        self.extra.append(z(key))


def has_outcome(oc, v):
    if isinstance(oc, VDict):
        if len(oc):
            raise Unsupported("outcomes")
        return z3.BoolVal(False)
    if not isinstance(oc, Outcomes):
        raise Unsupported("outcomes")
    return oc.has(v)


class RunLoop:
    """the measured nodes one after the other"""

    kind = "for"

    def __init__(self, w, W, kind, psi, c0):
        self.w, self.W, self.k_, self.psi, self.c0 = w, W, kind, psi, c0

    def matches(self, it, st, fr):
        return ".measure(" in src(st)

    def bind(self, L):
        self.sim = L.v("self")
        q = L.ctx.int("q")
        L.ctx.prove(L.where + ": over the measured nodes of the schedule", And(z(L.seq.n) == self.w.M, Implies(rng(q, L.seq.n), z(L.seq.f(q)) == z(self.w.meas.f(q)))))

    def check(self, L, k, phase):
        ctx, o = L.ctx, self.sim.fields
        nm = "%s/%s: " % (L.where, phase)
        c = z3.simplify(z(self.c0) + z(k))
        ctx.prove(nm + "measurements made", And(z(o["current_measurement"]) == c, c <= self.w.M))
        now = Now(self.w, self.W, c)
        known = getattr(o["qstate"], "now", None)
        if known is None or z3.simplify(known.c - c).eq(z3.IntVal(0)) is False:
            now.check(L.it, nm, o["_current_simulated_nodes"], o["qstate"], self.k_, self.psi)
        else:
            ctx.prove(nm + "state and simulated nodes as measure left them", o["_current_simulated_nodes"] is known.seq and o["qstate"] is known.state and known.state.psi == self.psi)
        v = ctx.int("v")
        w = self.w
        if isinstance(self.c0, int):
            x = z(w.meas.f(z3.simplify(z(k) - 1)))
            if phase == "preserve":
                ctx.prove(nm + "lemma: the node", Iff(And(w.meas.mem(v), w.mpos(v) == z(k) - 1), v == x))
            ctx.prove(nm + "outcomes of the nodes measured so far", Iff(has_outcome(o["_outcomes"], v), And(w.meas.mem(v), w.mpos(v) < z(k))))

    def havoc(self, L, k):
        o = self.sim.fields
        c = z3.simplify(z(self.c0) + z(k))
        L.ctx.assume(c <= self.w.M)
        now = Now(self.w, self.W, c)
        seq, st = now.some(L.it, self.k_, self.psi)
        st.now = now
        o.update(current_measurement=c, _current_simulated_nodes=seq, qstate=st, _outcomes=Outcomes(L.it, self.w, k))
        for f in ("current_measurement", "_current_simulated_nodes", "qstate", "_outcomes"):
            L.covered.append((self.sim, f))
        L.covered.append(o["_outcomes"])
        for v in ("angle", "outcome"):
            L.fr.vars.pop(v, None)
            L.carried.add(v)

    def enter(self, L, k):
        pass

    def on_break(self, L, k):
        L.ctx.prove("not cut short", False)

    def on_exit(self, L, n):
        pass


class Angles:
    def __init__(self, it, n):
        self.n, self.f = n, it.ctx.func("angle", I, R)

    def __pyvc_len__(self, it):
        return self.n

    def __pyvc_getitem__(self, it, i):
        if is_z3(i) or isinstance(i, int):
            it.ctx.prove("an angle of the list", And(z(i) >= -z(self.n), z(i) < z(self.n)))
            return self.f(z(i))
        raise Unsupported("angles[%r]" % (i,))


def t_run(C, kind):
    def unit(it):
        ctx = it.ctx
        w = Win(it)
        hosts(it)
        it.win = w
        W = window(it, w)
        g = w.g
        circ = Circuit(w)
        CTRL = ctx.func("controlled", I, B)
        tr = sublist(it, "trainable", g)
        circ.attrs["trainable_nodes"] = tr

        class M(MentOf):
            def __pyvc_getattr__(self, it_, name):
                if name == "angle":
                    ctx.prove("the angle of an uncontrolled measurement", Not(CTRL(z(self.node))))
                return MentOf.__pyvc_getattr__(self, it_, name)

            def __pyvc_isinstance__(self, it_, t):
                nm = getattr(t, "name", None)
                if nm not in ("Ment", "ControlMent"):
                    raise Unsupported("isinstance of a measurement: %r" % (t,))
                r = ctx.branch(CTRL(z(self.node)))
                return r if nm == "ControlMent" else True

        if kind == 1:
            v_ = z3.Int("v!ct")
            # rejected at construction
            ctx.assume(z3.ForAll([v_], z3.Not(CTRL(v_)), patterns=[CTRL(v_)]))
        circ.__class__ = type("ItemCircuit", (Circuit,), {"__pyvc_getitem__": lambda self, it_, v: M(w, v)})
        case = ["fresh", "reset", "stale", "count"][ctx.choose(4)]
        nA = ctx.int("angles_n")
        ctx.assume(nA >= 0)
        ctx.assume(nA != z(tr.n) if case == "count" else nA == z(tr.n))
        angles = Angles(it, nA)
        c0 = 0
        if case == "stale":
            c0 = ctx.int("c0")
            ctx.assume(And(c0 >= 1, c0 <= w.M))
        now = Now(w, W, c0)
        cur, st = now.some(it, kind, "old")
        st.now = now
        o = simulator(it, w, C, W, c0, cur, st)
        o.fields["_mbqcirc"] = circ
        if case == "stale":
            o.fields["_outcomes"] = Outcomes(it, w, c0)
        if case == "reset":
            o.fields["current_measurement"] = ctx.int("c0")
            o.fields["_current_simulated_nodes"], o.fields["qstate"] = Opaque("simulated nodes"), Opaque("state")
        psi = "new" if case == "reset" else "old"
        given = input_state(it, w, "new")
        kw = {"input_state": given} if case == "reset" else {}

        def reset(it_, a, k):
            b = it.bind(it.fn(C + ".reset"), a, k)
            ctx.prove("reset to the given input state", b["self"] is o and b["input_state"] is given)
            n0 = Now(w, W, 0)
            o.fields["_current_simulated_nodes"], o.fields["qstate"] = n0.some(it, kind, "new")
            o.fields["qstate"].now = n0
            o.fields["current_measurement"] = 0
            o.fields["_outcomes"] = VDict()
            return None

        def measure(it_, a, k):
            b = it.bind(it.fn(C + ".measure"), a, k)
            f = o.fields
            if b["self"] is not o:
                raise Unsupported("another simulator")
            c, s = f["current_measurement"], f["qstate"]
            nw = getattr(s, "now", None)
            if nw is None or not is_z3(z(c)):
                raise Unsupported("measure on an unknown state")
            ctx.prove("measure: simulated nodes, state and position belong together", And(nw.c == z(c), f["_current_simulated_nodes"] is nw.seq))
            if ctx.branch(z(c) >= w.M):
                ops.pyraise("ValueError", "No more measurements to be done.")
            node = z(w.meas.f(z(c)))
            if case != "stale":
                v = ctx.int("v")
                ctx.prove("measure: the outcomes of all earlier nodes are recorded", Iff(has_outcome(f["_outcomes"], v), And(w.meas.mem(v), w.mpos(v) < z(c))))
                ang = b["angle"]
                if isinstance(ang, AngleOf):
                    ctx.prove("measure: the fixed angle of the node", And(Not(tr.mem(node)), Not(CTRL(node)), z(ang.node) == node))
                elif ang is None:
                    ctx.prove("measure: the branch of a controlled measurement fixes the angle", And(CTRL(node), Not(tr.mem(node))))
                else:
                    ctx.prove("measure: the angle given for the node", And(tr.mem(node), z(ang) == angles.f(z(tr.index_of(node)))))
            n1 = Now(w, W, z3.simplify(z(c) + 1))
            seq, s1 = n1.some(it, kind, s.psi)
            s1.now = n1
            f.update(current_measurement=z3.simplify(z(c) + 1), _current_simulated_nodes=seq, qstate=s1)
            for x in ("current_measurement", "_current_simulated_nodes", "qstate"):
                it.write_log(o, x)
            return (s1, 0)

        it.contracts[C + ".reset"] = reset
        it.contracts[C + ".measure"] = measure
        it.loop_specs[(C + ".run*", "measure")] = RunLoop(w, W, kind, psi, c0)
        fin = {}

        def ok(cur, tgt):
            ctx.prove("the output is reordered to the order of the quantum outputs", tgt is w.qouts)
            p = ctx.int("p")
            n = w.qouts.n
            with ctx.scope(rng(p, n)):
                ctx.prove("both lists hold the quantum outputs", And(w.qouts.mem(z(ops.seq_get(cur, p))), member(cur, z(w.qouts.f(p)))))

        def member(cur, v):
            ix = getattr(cur, "index_of", None)
            if ix is None:
                raise Unsupported("current order")
            return And(rng(ix(v), ops.seq_len(cur)), z(ops.seq_get(cur, ix(v))) == v)

        reorder_contract(it, w, C, ok)

        def order(out):
            """the unmeasured nodes in the order of the schedule are the simulated ones"""
            sel, inv, keep, src_, vc = out.raw_filter
            f = o.fields
            nw = getattr(f["qstate"], "now", None)
            if src_.f is not w.sched.f or nw is None:
                return
            F, X, n = nw.seq.f, nw.seq.index_of, z3.simplify(nw.size())
            S = lambda t: z(w.sched.f(t))
            m = z(out.n)
            h = lambda p: z(X(S(sel(p))))
            h2 = lambda q: inv(w.pos(z(F(q))))
            q, p = ctx.int("q"), ctx.int("p")
            ctx.prove("lemma: quantum outputs are what is kept", Implies(rng(q, w.N), Iff(keep(q), w.qouts.mem(S(q)))))
            ctx.prove("lemma: the simulated nodes are the quantum outputs", Iff(nw.mem(q), And(w.g.isnode(q), w.qouts.mem(q))))
            sd = "lemma: schedule and simulated nodes agree"
            with ctx.scope(rng(p, m)):
                ctx.prove(sd + " (a)", And(rng(h(p), n), z(F(h(p))) == S(sel(p)), w.pos(S(sel(p))) == sel(p), w.pos(z(F(h(p)))) == sel(p)))
                with ctx.scope(And(q >= 0, q < p)):
                    ctx.prove(sd + " (order)", sel(q) < sel(p))
                    ctx.prove(sd + " (a order)", h(q) < h(p))
                ctx.prove(sd + " (b after a)", h2(h(p)) == p)
            with ctx.scope(rng(q, n)):
                ctx.prove(sd + " (b)", And(rng(h2(q), m), sel(h2(q)) == w.pos(z(F(q)))))
                with ctx.scope(And(p >= 0, p < q)):
                    ctx.prove(sd + " (b order)", h2(p) < h2(q))
            up = induct(it, sd + " (a up)", lambda k: Implies(And(z(k) >= 0, z(k) < m), h(k) >= z(k)), [])
            up2 = induct(it, sd + " (b up)", lambda k: Implies(And(z(k) >= 0, z(k) < n), h2(k) >= z(k)), [])
            up(m - 1)
            up2(n - 1)
            ctx.prove("lemma: as many", m == n)
            up(p)
            up2(h(p))
            ctx.prove("lemma: same place", Implies(rng(p, m), h(p) == p))
            ctx.prove("lemma: same node", Implies(rng(p, m), z(out.f(p)) == z(F(p))))
            out.n, out.f, out.mem, out.index_of = nw.seq.n, F, nw.seq.mem, X

        it.on_filter = order
        form = None
        if kind == 1:
            form = [None, "dm", "DensityMatrix", "sv", "StateVector", "other"][ctx.choose(6 if case == "fresh" else 1)]
            if form:
                kw["output_form"] = form
        tag, r = attempt(it, lambda: it.call(it.fn(C + ".run"), [o, angles], kw))
        if case == "count":
            ctx.prove("a wrong number of angles is rejected", tag == "exc" and r == "ValueError")
            return
        if case == "stale":
            ctx.prove("no run on top of measurements already made", tag == "exc" and r == "ValueError")
            return
        if form == "other":
            ctx.prove("other output forms are rejected", tag == "exc" and r == "ValueError")
            return
        ctx.prove("no error", tag == "val")
        if tag != "val":
            return
        if not isinstance(r, State):
            raise Unsupported("result of run")
        p, u, v = ctx.int("p"), ctx.int("u"), ctx.int("v")
        ctx.prove("post: state vector or density matrix", len(r.sides) == (1 if form in ("sv", "StateVector") else 2))
        ctx.prove("post: from the input state", r.psi == psi)
        for s in r.sides:
            ctx.prove("post: one qubit per quantum output", And(z(s.n) == z(w.qouts.n), s.proj is None))
            ctx.prove("post: in the order of the quantum outputs", Implies(rng(p, s.n), z(s.lab(p)) == z(w.qouts.f(p))))
            ctx.prove("post: one controlled-Z per edge of the graph", Iff(s.cz(u, v), g.adj(u, v)))
        f = o.fields
        ctx.prove("post: every measured node was measured", z(f["current_measurement"]) == w.M)
        ctx.prove("post: every measured node has an outcome", Iff(has_outcome(f["_outcomes"], v), w.meas.mem(v)))
        nw = getattr(f["qstate"], "now", None)
        ctx.prove("post: state and simulated nodes stay together", nw is not None and nw.state is f["qstate"] and nw.seq is f["_current_simulated_nodes"])

    return unit


def _outer(it, a, k):
    s, t = a
    if not isinstance(s, State) or len(s.sides) != 1 or not isinstance(t, Conj) or t.s is not s:
        raise Unsupported("outer")
    r = State(it, s.sides * 2, s.psi)
    r.loaded = s.loaded
    return r


wrap("numpy.outer", _outer)


# ------------------------------------------------------------------ the front end

PS = "mentpy.simulators.pattern_simulator.PatternSimulator"


class Plus:
    """the state vector of k qubits in |+> (for no qubit, the number 1)"""

    def __init__(self, it, k):
        self.k, self.born = z(k), birth()

    def __pyvc_getattr__(self, it, name):
        raise Unsupported("plus." + name)


def _plus(it, a, k):
    s, v = a
    ctx = it.ctx
    ctx.prove("the new qubit is |+>: shape", isinstance(v, SArr) and v.ndim == 1 and z(v.shape[0]) == 2)
    x, y = (to_cx(v.get(i)) for i in range(2))
    ctx.prove("the new qubit is |+>", And(z(x.re) > 0, 2 * z(x.re) * z(x.re) == 1, z(y.re) == z(x.re), z(x.im) == 0, z(y.im) == 0))
    return Plus(it, z3.simplify(s.k + 1))


_old_kron = LIB["numpy.kron"].fn
LIB["numpy.kron"] = Builtin("numpy.kron", lambda it, a, k: _plus(it, a, k) if isinstance(a[0], Plus) else _old_kron(it, a, k))


class PlusLoop:
    kind = "for"

    def matches(self, it, st, fr):
        return "kron" in src(st)

    def bind(self, L):
        self.vars = [v for v in L.assigned if v in L.fr.vars and isinstance(L.fr.vars[v], (int, Plus))]
        if len(self.vars) != 1:
            raise Unsupported("no product state")

    def check(self, L, k, phase):
        s = L.v(self.vars[0])
        nm = "%s/%s: " % (L.where, phase)
        if isinstance(s, int):
            L.ctx.prove(nm + "the product of no qubit is 1", And(s == 1, z(k) == 0))
        elif isinstance(s, Plus):
            L.ctx.prove(nm + "as many qubits as steps", s.k == z(k))
        else:
            raise Unsupported("product state")

    def havoc(self, L, k):
        put(L, self.vars[0], Plus(L.it, k))

    def enter(self, L, k):
        pass

    def on_break(self, L, k):
        L.ctx.prove("not cut short", False)

    def on_exit(self, L, n):
        pass


def t_front(it):
    ctx = it.ctx
    w = Win(it)
    circ = Circuit(w)
    made = []
    classes = {SV: "numpy-sv", DM: "numpy-dm", "mentpy.simulators.pennylane_simulator.PennylaneSimulator": "pennylane"}
    sim = Opaque("simulator")

    def con(nm):
        def f(it_, a, k):
            made.append((nm, list(a), dict(k)))
            return sim

        return f

    for c, nm in classes.items():
        it.contracts[c] = con(nm)
    name = ["numpy-sv", "NumPy-DM", "pennylane", "qiskit"][ctx.choose(4)]
    st = [None, carr(it, "psi", ctx.int("dim")), VList([1, 0]), "plus"][ctx.choose(4 if name != "qiskit" else 1)]
    it.loop_specs[(PS + "*", "kron")] = PlusLoop()
    opts = {"window_size": ctx.int("W"), "schedule": Opaque("schedule")}
    tag, o = attempt(it, lambda: it.call(it.fn(PS), [circ, st], dict(opts, backend=name)))
    if name == "qiskit":
        ctx.prove("unknown backends are rejected", tag == "exc" and o == "ValueError")
        return
    if isinstance(st, (VList, str)):
        ctx.prove("other input states are rejected", tag == "exc" and o == "TypeError")
        return
    ctx.prove("no error", tag == "val")
    if tag != "val":
        return
    ctx.prove("one simulator of the requested backend", len(made) == 1 and made[0][0] == name.lower() and o.fields.get("simulator") is sim)
    if len(made) != 1:
        return
    a, k = made[0][1], made[0][2]
    s = a[1] if len(a) > 1 else k.pop("input_state", None)
    ctx.prove("for the circuit, with the options given", a[0] is circ and len(a) <= 2 and set(k) == set(opts) and all(k[x] is opts[x] for x in opts))
    if st is None:
        if isinstance(s, int):
            ctx.prove("|+> on every input", And(s == 1, z(w.ins.n) == 0))
        elif isinstance(s, Plus):
            ctx.prove("|+> on every input", s.k == z(w.ins.n))
        else:
            raise Unsupported("input state")
    else:
        ctx.prove("the input state given", s is st)


def t_forward(it):
    """run, measure, reset and calls reach the simulator unchanged"""
    ctx = it.ctx
    seen = []

    class Sim:
        def __pyvc_getattr__(self, it_, name):
            def f(it_, a, k):
                seen.append((name, tuple(a), dict(k)))
                return res

            return HostFn(f)

    res, x, y = Opaque("result"), Opaque("angles"), Opaque("option")
    what = ["call", "run", "measure", "reset", "reset0", "attr", "base"][ctx.choose(7)]
    if what == "base":
        o = Obj(it.fn(SV))
        it.contracts[SV + ".run"] = lambda it_, a, k: seen.append(("run", tuple(a[1:]), dict(k))) or res
    else:
        o = Obj(it.fn(PS), simulator=Sim())
    if what in ("call", "base"):
        r = it.call(o, [x], {"output_form": y})
    elif what == "attr":
        r = it.call(it.getattr(o, "measure_ment"), [x], {})
    elif what == "reset0":
        r = it.call(it.getattr(o, "reset"), [], {})
    else:
        r = it.call(it.getattr(o, what), [x], {} if what == "reset" else {"mode": y})
    ctx.prove("one call, whose result is returned", len(seen) == 1 and r is res)
    n, a, k = seen[0]
    ctx.prove("of the method asked for", n == {"call": "run", "base": "run", "reset0": "reset", "attr": "measure_ment"}.get(what, what))
    if what == "reset0":
        ctx.prove("without a new input state", all(v is None for v in list(a) + list(k.values())))
    else:
        ctx.prove("with the arguments given", (list(a) + list(k.values()))[0] is x and len(a) + len(k) == (1 if what in ("reset", "attr") else 2) and (what in ("reset", "attr") or k.get("output_form" if what in ("call", "base") else "mode") is y))


UNITS = [Unit("C01.required_window_size", t_required, [BASE + "._required_window_size"])]
for nm, C in (("sv", SV), ("dm", DM)):
    UNITS += [
        Unit("C01.%s.find_swaps" % nm, t_find_swaps(C), [C + ".find_swaps"]),
        Unit("C01.%s.reorder_qubits.vector" % nm, t_reorder(C, 1), [C + ".reorder_qubits"]),
    ]
UNITS += [Unit("C01.sv.measure_ment", t_measure_ment(SV, 1), [SV + ".measure_ment"]), Unit("C01.dm.measure_ment", t_measure_ment(DM, 2), [DM + ".measure_ment"])]
UNITS += [Unit("C01.sv.measure", t_measure(SV, 1), [SV + ".measure", SV + ".current_number_simulated_nodes"]), Unit("C01.dm.measure", t_measure(DM, 2), [DM + ".measure", DM + ".current_number_simulated_nodes"])]
for nm, C, kd in (("sv", SV, 1), ("dm", DM, 2)):
    UNITS += [
        Unit("C01.%s.reset" % nm, t_reset(C, kd), [C + ".reset"]),
        Unit("C01.%s.run" % nm, t_run(C, kd), [C + ".run"]),
        Unit("C01.%s.init.schedule" % nm, t_init(C, kd, True), [C + ".__init__"]),
        Unit("C01.%s.init.default" % nm, t_init(C, kd, False), [C + ".__init__"]),
    ]
UNITS.append(Unit("C01.dm.reorder_qubits.matrix", t_reorder(DM, 2), [DM + ".reorder_qubits"]))
UNITS += [
    Unit("C01.front.init", t_front, [PS + ".__init__"]),
    Unit("C01.front.forward", t_forward, [PS + ".__call__", PS + ".run", PS + ".measure", PS + ".reset", PS + ".__getattr__", BASE + ".__call__"]),
]
