"""C07: hstack, vstack, merge (mentpy/mbqc/mbqcircuit.py)"""
import ast
from .common import *
from .c03 import AGraph
from .c05 import circuit
from .c06 import MV, prove_filter
from .c08 import TGraph, sym, at
from pyvc import lib_py
from pyvc.core import multi
from pyvc.spec import put

MB = "mentpy.mbqc.mbqcircuit."
MBQ = MB + "MBQCircuit"


class Contents:
    def controls(self, m):
        raise Unsupported("kind of a measurement")

    trains = ment = plane = controls


TH = Contents()


class NGraph(AGraph):
    """arbitrary graph on 0 .. n-1 in order (what the constructor's default labelling produces, C06)"""

    def __init__(self, it, name):
        ctx = self.ctx = it.ctx
        self.it = it
        n = self.n = ctx.int(name + "_n")
        ctx.assume(n >= 1)
        E = ctx.func(name + "_adj", I, I, B)
        u, v = z3.Ints("u!ng v!ng")
        ctx.assume(z3.ForAll([u, v], z3.Implies(E(u, v), z3.And(E(v, u), u >= 0, u < n, v >= 0, v < n, u != v)), patterns=[E(u, v)]))
        self.E = E
        self.node = self.idx = lambda k: z(k)
        self.isnode = lambda v: And(z(v) >= 0, z(v) < n)
        self.adj = lambda u, v: E(z(u), z(v))

    def nodes(self):
        s = SSeq(self.n, lambda i: z(i))
        s.mem, s.index_of, s.setlike = self.isnode, (lambda v: z(v)), True
        return s


class Held:
    """the measurements of an operand: read-only here"""

    def __init__(self, it, g, name):
        ctx = it.ctx
        self.born = birth()
        self.g = g
        self.mid = ctx.func(name + "_content", I, I)
        f, x = ctx.func(name + "_entry", I, I), ctx.func(name + "_entry_at", I, I)
        i, v = z3.Ints("i!hd v!hd")
        ctx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < g.n), z3.And(z(g.isnode(f(i))), x(f(i)) == i)), patterns=[f(i)]))
        ctx.assume(z3.ForAll([v], z3.Implies(z(g.isnode(v)), z3.And(x(v) >= 0, x(v) < g.n, f(x(v)) == v)), patterns=[x(v)]))
        self.keys = SSeq(g.n, lambda k: f(z(k)))
        self.keys.mem, self.keys.index_of = g.isnode, (lambda v: x(z(v)))
        self.x = x

    def val(self, v):
        return MV(TH, self.mid(z(v)), z(v))

    def copy(self):
        return SDict(self.g.isnode, self.val, self.keys.snap())

    def __pyvc_dict__(self, it):
        return self.copy()

    def __pyvc_len__(self, it):
        return self.g.n

    def __pyvc_contains__(self, it, v):
        return self.g.isnode(v)

    def __pyvc_iter__(self, it):
        return self.keys.snap()

    def __pyvc_getitem__(self, it, v):
        if not is_num(v) or not it.ctx.branch(self.g.isnode(v)):
            ops.pyraise("KeyError", v)
        return self.val(v)

    def __pyvc_getattr__(self, it, name):
        if name == "items":
            return Builtin(name, lambda it_, a, k: SSeq(self.g.n, lambda i: (self.keys.f(i), self.val(self.keys.f(i)))))
        if name == "keys":
            return Builtin(name, lambda it_, a, k: self.keys.snap())
        if name == "values":
            return Builtin(name, lambda it_, a, k: SSeq(self.g.n, lambda i: self.val(self.keys.f(i))))
        if name == "copy":
            return Builtin(name, lambda it_, a, k: self.copy())
        it.write_log(self)
        raise Unsupported("measurements." + name)

    def __pyvc_setitem__(self, it, k, v):
        it.ctx.prove("operand measurements are not written", False)

    __pyvc_delitem__ = __pyvc_setitem__


class Operand:
    def __init__(self, it, name):
        self.g = NGraph(it, name)
        self.ins, self.outs = sublist_k(it, name + "_in", self.g), sublist_k(it, name + "_out", self.g)
        self.D = Held(it, self.g, name)
        self.c = circuit(it, self.g, _input_nodes=self.ins, _output_nodes=self.outs, _measurements=self.D)
        self.saved = dict(self.c.fields), self.ins.n, self.ins.f, self.outs.n, self.outs.f

    def unchanged(self, it, name):
        s = self.saved
        it.ctx.prove("post: %s operand unchanged" % name, self.c.fields == s[0] and self.ins.n is s[1] and self.ins.f is s[2] and self.outs.n is s[3] and self.outs.f is s[4])


def sublist_k(it, name, g):
    return sublist(it, name, g)


class Setup:
    def __init__(self, it):
        ctx = self.ctx = it.ctx
        self.it = it
        self.a, self.b = Operand(it, "a"), Operand(it, "b")
        self.n1, self.n2 = self.a.g.n, self.b.g.n
        self.made, self.calls, self.linked = [], [], False
        LIB["networkx.disjoint_union"] = Builtin("networkx.disjoint_union", self.union)
        LIB["networkx.contracted_edge"] = Builtin("networkx.contracted_edge", self.contract)
        it.contracts[MBQ] = self.make
        if getattr(LIB.get("functools.reduce"), "name", "") != "functools.reduce":
            LIB["functools.reduce"] = Builtin("functools.reduce", lambda it_, a, k: Opaque("reduce"))

    def inall(self, v):
        return And(z(v) >= 0, z(v) < self.n1 + self.n2)

    def du(self, u, v):
        u, v, n1 = z(u), z(v), self.n1
        return Or(self.a.g.adj(u, v), And(u >= n1, v >= n1, self.b.g.adj(u - n1, v - n1)))

    def union(self, it, a, k):
        if len(a) != 2 or a[0] is not self.a.g or a[1] is not self.b.g:
            raise Unsupported("disjoint_union of other graphs")
        g = TGraph(it)
        g.isnode, g.adj = self.inall, self.du
        self.made.append(g)
        it.ctx.trust("networkx.disjoint_union: nodes numbered in order, the second graph's after the first's, in a new graph")
        return g

    def contract(self, it, a, k):
        g = a[0]
        k = dict(k)
        if not isinstance(g, TGraph) or len(a) != 2 or k.pop("self_loops", True) is not False or k.pop("copy", True) is not True or k:
            raise Unsupported("contracted_edge")
        u, v = (z(t) for t in it.unpack(a[1], 2))
        if not it.ctx.branch(g.adj(u, v)):
            ops.pyraise("ValueError", "edge does not exist")
        V0, E0 = g.isnode, g.adj
        h = TGraph(it)
        h.isnode = lambda x: And(V0(x), z(x) != v)
        h.adj = lambda x, y: And(z(x) != v, z(y) != v, z(x) != z(y), Or(E0(x, y), And(z(x) == u, E0(v, y)), And(z(y) == u, E0(x, v))))
        self.made.append(h)
        it.ctx.trust("networkx.contracted_edge(G, (u, v), self_loops=False): new graph in which v is removed and its other edges go to u")
        return h

    def make(self, it, a, k):
        b = it.bind(it.fn(MBQ + ".__init__"), [None] + list(a), k)
        o = Opaque("circuit")
        g = b["graph"]
        if isinstance(g, TGraph):
            b["V"], b["E"] = g.isnode, g.adj
        for n in ("input_nodes", "output_nodes"):
            if isinstance(b[n], SSeq):
                b[n] = b[n].snap()
        self.calls.append((o, b))
        return o

    def result(self, r):
        ctx = self.ctx
        ok = r[0] == "val" and len(self.calls) == 1 and r[1] is self.calls[0][0]
        ctx.prove("post: one circuit is built and returned" + ("" if r[0] == "val" else " (raises %s)" % (r[1],)), ok)
        if not ok:
            return None
        b = self.calls[0][1]
        if "V" not in b:
            raise Unsupported("built on another kind of graph")
        ctx.prove("post: built on a graph of its own", b["graph"] in self.made)
        for n in ("flow", "partial_order", "measurement_order"):
            ctx.prove("post: %s is recomputed" % n, b[n] is None)
        ctx.prove("post: default labels", b["relabel_indices"] is True)
        self.a.unchanged(self.it, "first")
        self.b.unchanged(self.it, "second")
        return b

    def check(self, b, V, E, ins, outs):
        ctx = self.ctx
        n1 = self.n1
        x, y, i = ctx.int("x"), ctx.int("y"), ctx.int("i")
        ctx.prove("post: nodes of the union, identified ones once", Iff(b["V"](x), V(x)), assume=False)
        ctx.prove("post: edges of both, carried over to the identified nodes, and no others", Iff(b["E"](x, y), E(x, y)), assume=False)
        for nm, want in (("input_nodes", ins), ("output_nodes", outs)):
            if want is None:
                continue
            s = b[nm]
            ctx.prove("post: number of %s" % nm, z(ops.seq_len(s)) == z(want.n), assume=False)
            with ctx.scope(rng(i, want.n)):
                if ctx.feasible(z3.BoolVal(True)):
                    ctx.prove("post: %s in order" % nm, at(self.it, s, i) == z(want.f(i)), assume=False)
        self.meas(b["measurements"], V)

    def meas(self, d, V):
        ctx, n1 = self.ctx, self.n1
        x = ctx.int("x")
        if not isinstance(d, SDict):
            raise Unsupported("measurements are not kept in a dictionary")
        self.hint(x)
        ctx.prove("post: measurements of exactly these nodes", Iff(d.has(x), V(x)), assume=False)
        with ctx.scope(V(x)):
            m = d.get(x)
            ctx.prove("post: every node keeps its measurement, identified ones that of the second circuit", isinstance(m, MV) and m.mid == z3.If(x < n1, self.a.D.mid(x), self.b.D.mid(x - n1)), assume=False)

    def hint(self, x):
        """positions of x in the operands' dictionaries"""
        for D, v in ((self.a.D, x), (self.b.D, x - self.n1)):
            self.ctx.prove("entry of a node", Implies(D.g.isnode(v), And(rng(D.x(v), D.g.n), z(D.keys.f(D.x(v))) == v)))


def t_v2(it):
    S = Setup(it)
    r = attempt(it, lambda: it.call(it.fn(MB + "_vstack2"), [S.a.c, S.b.c]))
    b = S.result(r)
    if b is None:
        return
    n1 = S.n1
    cat = lambda p, q: SSeq(p.n + q.n, lambda i: z3.If(z(i) < p.n, z(p.f(i)), z(q.f(z(i) - p.n)) + n1))
    S.check(b, S.inall, S.du, cat(S.a.ins, S.b.ins), cat(S.a.outs, S.b.outs))


class Joined:
    """first k pairs (p(i) of the first graph, q(i) of the second) identified; extra(u, v): further
    edges between the p(i) and q(i)"""

    def __init__(self, S, p, q, extra):
        self.S, self.p, self.q, self.extra = S, p, q, extra

    def gone(self, k, x):
        S, p = self.S, self.p
        return And(z(x) < S.n1, z(p.mem(x)), z(p.index_of(x)) < z(k))

    def V(self, k, x):
        return And(self.S.inall(x), Not(self.gone(k, x)))

    def base(self, u, v):
        S, p, q = self.S, self.p, self.q
        r = S.du(u, v)
        if self.extra is None or not self.S.linked:
            return r
        return Or(r, self.extra(u, v), self.extra(v, u))

    def E(self, k, x, y):
        S, p, q = self.S, self.p, self.q
        x, y = z(x), z(y)

        def old(t):
            """the node of the first graph that was identified with t"""
            j = z(q.index_of(t - S.n1))
            return And(t >= S.n1, z(q.mem(t - S.n1)), j < z(k)), z(p.f(j))

        cx, px = old(x)
        cy, py = old(y)
        b = self.base
        return And(self.V(k, x), self.V(k, y), x != y, Or(b(x, y), And(cx, b(px, y)), And(cy, b(x, py)), And(cx, cy, b(px, py))))


def calls(st, *names):
    for n in ast.walk(st):
        if isinstance(n, ast.Call) and (getattr(n.func, "attr", None) or getattr(n.func, "id", None)) in names:
            return True
    return False


class JoinLoop:
    kind = "for"

    def matches(self, it, st, fr):
        return isinstance(st, ast.For) and calls(st, "contracted_edge", "contracted_nodes")

    def __init__(self, S, J):
        self.S, self.J = S, J

    def bind(self, L):
        vs = L.fr.vars
        gs = [k for k, v in vs.items() if isinstance(v, TGraph)]
        ds = [k for k, v in vs.items() if isinstance(v, SDict) and k != "renamed" and isinstance(v.get(z3.Int("pr!jl")), MV)]
        if len(gs) != 1 or len(ds) != 1:
            raise Unsupported("graph and measurements of the loop")
        self.gname, self.dname = gs[0], ds[0]
        d = vs[self.dname]
        self.d0 = d.has, d.get

    def view(self, L):
        return L.v(self.gname), L.v(self.dname)

    def check(self, L, k, phase):
        ctx, J = L.ctx, self.J
        g, d = self.view(L)
        x, y = ctx.int("x"), ctx.int("y")
        w = "%s/%s: " % (L.where, phase)
        ctx.prove(w + "nodes", Iff(g.isnode(x), J.V(k, x)), assume=False)
        ctx.prove(w + "edges", Iff(g.adj(x, y), J.E(k, x, y)), assume=False)
        ctx.prove(w + "graph is not an operand's", g in self.S.made)
        h0, g0 = self.d0
        ctx.prove(w + "measured nodes", Iff(d.has(x), And(h0(x), Not(J.gone(k, x)))), assume=False)
        if phase != "init":
            with ctx.scope(And(d.has(x))):
                ctx.prove(w + "measurements kept", d.get(x).mid == g0(x).mid, assume=False)

    def havoc(self, L, k):
        J = self.J
        h = TGraph(L.it)
        h.isnode, h.adj = (lambda x: J.V(k, x)), (lambda x, y: J.E(k, x, y))
        self.S.made.append(h)
        h0, g0 = self.d0
        if self.gname in L.assigned:
            L.fr.vars[self.gname] = h
            L.carried.add(self.gname)
        else:
            g = L.v(self.gname)
            g.isnode, g.adj = h.isnode, h.adj
            L.covered.append(g)
        put(L, self.dname, SDict(lambda x: And(h0(x), Not(J.gone(k, x))), g0))

    def enter(self, L, k):
        self.S.hint(z(self.J.p.f(z(k))))

    def on_break(self, L, k):
        raise Unsupported("break")

    def on_exit(self, L, n):
        pass


class AddLoop(JoinLoop):
    def matches(self, it, st, fr):
        return isinstance(st, ast.For) and calls(st, "add_edge") and not JoinLoop.matches(self, it, st, fr)

    def on_exit(self, L, n):
        self.S.linked = True

    def enter(self, L, k):
        pass

    def __init__(self, S, E):
        self.S, self.E0 = S, E

    def bind(self, L):
        gs = [k for k, v in L.fr.vars.items() if isinstance(v, TGraph)]
        if len(gs) != 1:
            raise Unsupported("graph of the loop")
        self.gname = gs[0]

    def check(self, L, k, phase):
        ctx = L.ctx
        g = L.v(self.gname)
        x, y = ctx.int("x"), ctx.int("y")
        w = "%s/%s: " % (L.where, phase)
        ctx.prove(w + "nodes", Iff(g.isnode(x), self.S.inall(x)), assume=False)
        ctx.prove(w + "edges", Iff(g.adj(x, y), self.E0(k, x, y)), assume=False)

    def havoc(self, L, k):
        g = L.v(self.gname)
        g.isnode, g.adj = self.S.inall, lambda x, y: self.E0(k, x, y)
        L.covered.append(g)


def renamed_list(S, p, q, s):
    """nodes of the first graph under their name in the result"""
    return lambda i: z3.If(z(p.mem(s.f(i))), z(q.f(z(p.index_of(s.f(i))))) + S.n1, z(s.f(i)))


def t_h2(it):
    ctx = it.ctx
    S = Setup(it)
    p, q, n1 = S.a.outs, S.b.ins, S.n1
    if ctx.choose(2):
        ctx.assume(p.n != q.n)
        must_raise(it, "post: different widths are rejected", lambda: it.call(it.fn(MB + "_hstack2"), [S.a.c, S.b.c]), "ValueError")
        return
    ctx.assume(p.n == q.n)
    ctx.define(p.n == q.n)
    link = lambda k: lambda u, v: And(z(u) < n1, z(p.mem(u)), z(p.index_of(u)) < z(k), z(v) == z(q.f(z(p.index_of(u)))) + n1)
    J = Joined(S, p, q, link(p.n))
    qn = MB + "_hstack2"
    it.loop_specs["links"] = AddLoop(S, lambda k, x, y: Or(S.du(x, y), sym(lambda u, v: link(k)(z(u), z(v)))(x, y)))
    it.loop_specs["contraction"] = JoinLoop(S, J)
    r = attempt(it, lambda: it.call(it.fn(qn), [S.a.c, S.b.c]))
    b = S.result(r)
    if b is None:
        return
    Jf = Joined(S, p, q, None)
    S.check(b, lambda x: Jf.V(p.n, x), lambda x, y: Jf.E(p.n, x, y), SSeq(S.a.ins.n, renamed_list(S, p, q, S.a.ins)), SSeq(S.b.outs.n, lambda i: z(S.b.outs.f(i)) + n1))


class CheckLoop:
    """pairs handled so far are valid"""

    kind = "for"

    def __init__(self, S, al, bl):
        self.S, self.al, self.bl = S, al, bl

    def matches(self, it, st, fr):
        return isinstance(st, ast.For) and any(isinstance(n, ast.Raise) for n in ast.walk(st))

    def inv(self, k):
        S, i = self.S, z3.Int("i!cl")
        return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < z(k)), z3.And(z(S.a.outs.mem(self.al.f(i))), z(S.b.ins.mem(self.bl.f(i))))))

    def bind(self, L):
        pass

    def check(self, L, k, phase):
        L.ctx.prove("%s/%s: valid so far" % (L.where, phase), self.inv(k), assume=False)

    def havoc(self, L, k):
        L.ctx.assume(self.inv(k))

    def enter(self, L, k):
        pass

    def on_break(self, L, k):
        raise Unsupported("break")

    def on_exit(self, L, n):
        pass


class OutLoop(Inv):
    def __init__(self, exact, F, names):
        Inv.__init__(self, exact=exact)
        self.F = F

    def matches(self, it, st, fr):
        return isinstance(st, ast.For) and calls(st, "append") and not calls(st, "contracted_edge")

    def check(self, L, k, phase):
        if phase == "preserve":
            self.F.step(z3.simplify(z(k) - 1))
        Inv.check(self, L, k, phase)


def pairs_of(it, S, valid=True):
    ctx = it.ctx
    n = ctx.int("along_n")
    ctx.assume(n >= 0)
    a, b = ctx.func("along_from", I, I), ctx.func("along_to", I, I)
    i, v = z3.Ints("i!pa v!pa")
    cols = []
    for f, name, home in ((a, "from", S.a.outs), (b, "to", S.b.ins)):
        mem, x = ctx.func(name + "_has", I, B), ctx.func(name + "_at", I, I)
        ctx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(mem(f(i)), x(f(i)) == i)), patterns=[f(i)]))
        ctx.assume(z3.ForAll([v], z3.Implies(mem(v), z3.And(x(v) >= 0, x(v) < n, f(x(v)) == v)), patterns=[mem(v)]))
        c = SSeq(n, (lambda f: lambda t: f(z(t)))(f), "tuple")
        c.mem = (lambda m: lambda t: m(z(t)))(mem)
        c.index_of = (lambda x: lambda t: x(z(t)))(x)
        if valid:
            ctx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z(home.mem(f(i)))), patterns=[f(i)]))
        cols.append(c)
    s = SSeq(n, lambda t: (a(z(t)), b(z(t))))
    s.columns = cols
    return s, cols[0], cols[1]


def t_merge(it):
    ctx = it.ctx
    S = Setup(it)
    al_, p, q = pairs_of(it, S)
    n1 = S.n1
    A, Bq = S.a, S.b
    t = z3.Int("t!tm")
    pos2 = lambda v: z(Bq.ins.index_of(q.f(z(p.index_of(v)))))
    # an identified input has an output of the same wire
    ctx.assume(z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < p.n), z(Bq.ins.index_of(q.f(t))) < Bq.outs.n), patterns=[z(q.f(t))]))
    o1 = A.outs
    pred = lambda i: z(p.mem(o1.f(z(i))))
    F = Filtered(it, "taken", o1.n, pred, lambda i: pos2(o1.f(z(i))))
    out = lambda i: z3.If(pred(i), z(Bq.outs.f(pos2(o1.f(z(i))))) + n1, z(o1.f(z(i))))
    qn = MB + "merge"
    it.loop_specs["check"] = CheckLoop(S, p, q)
    it.loop_specs["outputs"] = OutLoop({"output_nodes": lambda L, k: SSeq(k, out), "added_ind": lambda L, k: F.upto(k)}, F, None)
    J = Joined(S, p, q, None)
    it.loop_specs["contraction"] = JoinLoop(S, J)
    r = attempt(it, lambda: it.call(it.fn(qn), [A.c, Bq.c, al_]))
    b = S.result(r)
    if b is None:
        return
    S.check(b, lambda x: J.V(p.n, x), lambda x, y: J.E(p.n, x, y), None, None)
    # inputs: the first circuit's, renamed, then the second's that were not identified
    head_tail(it, "input_nodes", b["input_nodes"], A.ins.n, renamed_list(S, p, q, A.ins), Bq.ins, n1, lambda j: Not(z(q.mem(Bq.ins.f(j)))))
    # outputs: the first circuit's, identified ones replaced by the second's output of that wire, then
    # the second's outputs of the other wires
    w = ctx.int("w")
    taken = lambda j: And(z(j) < Bq.ins.n, z(q.mem(Bq.ins.f(j))))
    head_tail(it, "output_nodes", b["output_nodes"], o1.n, out, Bq.outs, n1, lambda j: Not(taken(j)), lambda j: hint_taken(it, S, p, q, F, o1, j))


def hint_taken(it, S, p, q, F, o1, j):
    """the wire j of the second circuit is identified with the output at position r"""
    i = z(q.index_of(S.b.ins.f(j)))
    r = z(o1.index_of(p.f(i)))
    ok = And(z(j) < S.b.ins.n, z(q.mem(S.b.ins.f(j))), rng(j, S.b.ins.n))
    it.ctx.prove("identified wire", Implies(ok, And(rng(i, p.n), z(q.f(i)) == z(S.b.ins.f(j)), rng(r, o1.n), z(o1.f(r)) == z(p.f(i)), z(p.mem(o1.f(r))))))
    it.ctx.prove("identified wire, position", Implies(ok, And(rng(F.cnt(r), F.cnt(z(o1.n))), F.at(F.cnt(r)) == r)))


def head_tail(it, nm, s, n, head, src, shift, want, hint=None):
    """s = [head(i) for i < n] + [src(j) + shift for j if want(j)]"""
    ctx = it.ctx
    i, a, b, j = ctx.int("i"), ctx.int("a"), ctx.int("b"), ctx.int("j")
    m = z(ops.seq_len(s))
    ctx.prove("post: %s: at least those of the first circuit" % nm, m >= z(n))
    with ctx.scope(rng(i, n)):
        if ctx.feasible(z3.BoolVal(True)):
            ctx.prove("post: %s of the first circuit first" % nm, at(it, s, i) == head(i), assume=False)
    el = lambda t: at(it, s, z(n) + t) - z(shift)
    rest = m - z(n)
    with ctx.scope(rng(a, rest)):
        if not ctx.feasible(z3.BoolVal(True)):
            pass
        else:
            pa = z(src.index_of(el(a)))
            if hint:
                hint(pa)
            ctx.prove("post: then %s of the second circuit" % nm, z(src.mem(el(a))), assume=False)
            ctx.prove("post: then %s of wires that are not identified" % nm, want(pa), assume=False)
            with ctx.scope(And(rng(b, rest), a < b)):
                if ctx.feasible(z3.BoolVal(True)):
                    ctx.prove("post: %s of the second circuit in order" % nm, z(src.index_of(el(a))) < z(src.index_of(el(b))), assume=False)
    if hint:
        hint(j)
    for f in it.__dict__.get("filters", []):
        if ctx.quickly_valid(z(f.n) == rest):
            # witness: the rank of j in the filtered list
            inv = z(f.filtered[1](j))
            if ctx.prove("post: %s: none of the second circuit's missing" % nm, Implies(And(rng(j, src.n), want(j)), And(rng(inv, rest), el(inv) == z(src.f(j)))), assume=False):
                return
    pz = z3.Int("p!ht")
    ctx.prove("post: %s: none of the second circuit's missing" % nm, Implies(And(rng(j, src.n), want(j)), z3.Exists([pz], z3.And(pz >= 0, pz < rest, el(pz) == z(src.f(j))))), assume=False)


def t_merge_bad(it):
    ctx = it.ctx
    S = Setup(it)
    al_, p, q = pairs_of(it, S, valid=False)
    r = ctx.int("r")
    ctx.assume(And(rng(r, p.n), Or(Not(z(S.a.outs.mem(p.f(r)))), Not(z(S.b.ins.mem(q.f(r)))))))
    it.loop_specs["check"] = CheckLoop(S, p, q)
    must_raise(it, "post: pairs that are not an output and an input are rejected", lambda: it.call(it.fn(MB + "merge"), [S.a.c, S.b.c, al_]), "ValueError")


def t_stack(name, two):
    def unit(it):
        ctx = it.ctx
        log = []
        res = Opaque("folded")

        def red(it_, a, k):
            log.append((list(a), k))
            return res

        LIB["functools.reduce"] = Builtin("functools.reduce", red)
        ctx.trust("functools.reduce: left fold over the list")
        which = ctx.choose(3)
        first = Opaque("circuit")
        run = lambda s: it.call(it.fn(MB + name), [s])
        if which == 0:
            must_raise(it, "post: an empty list is rejected", lambda: run([ops.VList([]), ()][ctx.choose(2)]), "ValueError")
        elif which == 1:
            ctx.prove("post: a single circuit is returned as it is", run(ops.VList([first])) is first)
        else:
            n = ctx.int("n")
            ctx.assume(n >= 2)
            s = SSeq(n, lambda i: first, ["list", "tuple"][ctx.choose(2)])
            r = run(s)
            ctx.prove("post: the circuits are joined from the left", r is res and len(log) == 1 and len(log[0][0]) == 2 and log[0][0][0] is it.fn(MB + two) and log[0][0][1] is s and not log[0][1])

    return unit


UNITS = [
    Unit("_vstack2: disjoint union, first circuit's wires then the second's", t_v2, [MB + "_vstack2"]),
    Unit("_hstack2: the i-th output of the first is the i-th input of the second, nothing else is joined", t_h2, [MB + "_hstack2"]),
    Unit("merge: exactly the named output-input pairs are identified", t_merge, [MB + "merge"]),
    Unit("merge: other pairs are rejected", t_merge_bad, [MB + "merge"]),
    Unit("hstack: fold of _hstack2", t_stack("hstack", "_hstack2"), [MB + "hstack"]),
    Unit("vstack: fold of _vstack2", t_stack("vstack", "_vstack2"), [MB + "vstack"]),
]
