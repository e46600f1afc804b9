"""C21: the flow space (mentpy/utils/flow_space.py)"""
from .common import *
from .c08 import TGraph
from pyvc.core import multi
from pyvc.lib_py import intval
from pyvc.spec import put

FS = "mentpy.utils.flow_space.FlowSpace"
GS = "mentpy.mbqc.states.graphstate.GraphState"
MBQ = "mentpy.mbqc.mbqcircuit.MBQCircuit"
WALL = 150
TRUSTED = [
    "nx.complete_graph(n).edges() lists every pair a < b < n once, n(n-1)/2 in total; itertools.product([0, 1], repeat=m) lists every 0/1 vector of length m once",
    "edges() of a graph whose nodes were inserted as 0 .. n-1 lists every edge once, smaller end first (networkx)",
    "MBQCircuit(graph, inputs, outputs).flow is None exactly if the graph has no causal flow with these inputs and outputs (C03, C06)",
]


class Space:
    """the enumeration: M pairs (ea(i), eb(i)), P vectors with entries bit(m, i)"""

    def __init__(self, it, n):
        ctx = self.ctx = it.ctx
        self.it, self.n = it, n
        self.M, self.P = ctx.int("pairs"), ctx.int("vectors")
        ea, eb, rk = self.ea, self.eb, self.rk = ctx.func("fst", I, I), ctx.func("snd", I, I), ctx.func("rank", I, I, I)
        bit = self.bit = ctx.func("bit", I, I, I)
        dif = self.dif = ctx.func("differ", I, I, I)
        i, a, b = z3.Ints("i!sp a!sp b!sp")
        M, P = self.M, self.P
        ctx.assume(And(M >= 0, P >= 1))
        ctx.define(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < M), z3.And(ea(i) >= 0, ea(i) < eb(i), eb(i) < n, rk(ea(i), eb(i)) == i)), patterns=[ea(i)]))
        ctx.define(z3.ForAll([a, b], z3.Implies(z3.And(a >= 0, a < b, b < n), z3.And(rk(a, b) >= 0, rk(a, b) < M, ea(rk(a, b)) == a, eb(rk(a, b)) == b)), patterns=[rk(a, b)]))
        ctx.define(z3.ForAll([a, i], z3.And(bit(a, i) >= 0, bit(a, i) <= 1), patterns=[bit(a, i)]))
        ctx.define(z3.ForAll([a, b], z3.Implies(z3.And(a >= 0, a < b, b < P), z3.And(dif(a, b) >= 0, dif(a, b) < M, bit(a, dif(a, b)) != bit(b, dif(a, b)))), patterns=[dif(a, b)]))
        for t in TRUSTED[:1]:
            ctx.trust(t)

    def edge(self, m, u, v):
        """the m-th graph has the edge {u, v}"""
        lo, hi = z3.If(u < v, u, v), z3.If(u < v, v, u)
        return z3.And(u >= 0, v >= 0, u < self.n, v < self.n, u != v, self.bit(z(m), self.rk(lo, hi)) == 1)


class Complete:
    def __init__(self, S):
        self.S = S

    def __pyvc_getattr__(self, it, name):
        S = self.S
        s = SSeq(S.M, lambda i: (S.ea(z(i)), S.eb(z(i))))
        if name == "edges":
            return Edges(s)
        raise Unsupported("complete_graph." + name)


class Edges:
    """edge view: iterable and callable"""

    def __init__(self, s):
        self.s = s

    def __pyvc_iter__(self, it):
        return self.s

    def __pyvc_call__(self, it, a, k):
        return self.s


class Log:
    """what one iteration of the generator yields"""

    def __init__(self):
        self.items, self.born = [], birth()

    def __pyvc_yield__(self, it, v):
        self.items.append(v)


class Yielding:
    """one graph is yielded per vector, the one the vector describes"""

    kind = "for"

    def __init__(self, S):
        self.S = S

    def bind(self, L):
        if L.fr.yields is None:
            raise Unsupported("not a generator")

    def check(self, L, k, phase):
        ctx, S = L.ctx, self.S
        y = L.fr.yields
        w = "%s/%s: " % (L.where, phase)
        if phase == "init":
            ctx.prove(w + "nothing yielded before the loop", isinstance(y, VList) and len(y) == 0)
            return
        if not isinstance(y, Log):
            raise Unsupported("yields")
        ctx.prove(w + "one graph per vector", len(y.items) == 1)
        g = y.items[0]
        if not isinstance(g, TGraph):
            raise Unsupported("yields something else than a graph")
        m = z3.simplify(z(k) - 1)
        u, v, t = ctx.int("u"), ctx.int("v"), ctx.int("t")
        ctx.prove(w + "its nodes are 0 .. n-1", Iff(g.isnode(u), And(u >= 0, u < S.n)), assume=False)
        lo, hi = z3.If(u < v, u, v), z3.If(u < v, v, u)
        r = S.rk(lo, hi)
        ctx.assume(r == r)
        fl = L.it.filters[-1].filtered if getattr(L.it, "filters", None) else None
        if fl is not None:
            q = fl[1](r)
            ctx.prove(w + "position of a selected pair", Implies(S.edge(m, u, v), And(fl[0](q) == r, q >= 0)))
        ctx.prove(w + "selected pairs are edges", Implies(S.edge(m, u, v), g.adj(u, v)), assume=False)
        ctx.prove(w + "every edge is a selected pair", Implies(g.adj(u, v), S.edge(m, u, v)), assume=False)

    def havoc(self, L, k):
        L.fr.yields = Log()
        for nm in L.assigned:
            L.fr.vars[nm] = None
            L.carried.discard(nm)

    def enter(self, L, k):
        pass

    def on_break(self, L, k):
        L.ctx.prove("the enumeration is not cut short", False)

    def on_exit(self, L, n):
        L.fr.yields = SSeq(n, lambda m: Drawn(self.S, z(m)))


class Drawn:
    """the m-th graph of the enumeration"""

    def __init__(self, S, m):
        self.S, self.m = S, m

    def __pyvc_subst__(self, pairs):
        return Drawn(self.S, z3.substitute(z(self.m), *[(a, z(b)) for a, b in pairs]))

    def __pyvc_getattr__(self, it, name):
        if name == "edges":
            return EView(self)
        raise Unsupported("graph." + name)


class EView:
    def __init__(self, g):
        self.g = g

    def __pyvc_call__(self, it, a, k):
        if a or k:
            raise Unsupported("edges with arguments")
        return self

    def __pyvc_set__(self, it):
        return ESet(self.g.S, frozenset(), (self.g.m,))


class ESet:
    """the symmetric difference of the edge sets of the graphs ms"""

    def __init__(self, S, _, ms):
        self.S, self.ms = S, ms

    def __pyvc_getattr__(self, it, name):
        if name == "symmetric_difference":
            def f(it_, a, k):
                o = a[0]
                if isinstance(o, EView):
                    o = o.__pyvc_set__(it)
                return self.xor(o)

            return Builtin(name, f)
        raise Unsupported("set." + name)

    def xor(self, o):
        if not isinstance(o, ESet):
            raise Unsupported("symmetric difference")
        return ESet(self.S, None, self.ms + o.ms)

    def __pyvc_binop__(self, it, op, a, b):
        if op != "^":
            raise Unsupported("set operator")
        return a.xor(b)

    def __pyvc_len__(self, it):
        if len(self.ms) != 2:
            raise Unsupported("size of an edge set")
        a, b = self.ms
        c = self.S.card(z(a), z(b))
        it.ctx.assume(And(c >= 0, (c == 1) == self.S.one(a, b)))
        it.ctx.trust("the size of the symmetric difference of two edge sets is 1 exactly if the graphs differ in one edge")
        return c


def t_generator(it):
    ctx = it.ctx
    n = ctx.int("n")
    ctx.assume(n >= 0)
    S = Space(it, n)
    ctx.assume(2 * S.M == n * (n - 1))

    def complete(it_, a, k):
        ctx.prove("the complete graph on the nodes", z(a[0]) == n)
        return Complete(S)

    def product(it_, a, k):
        v = it_.iterate(a[0])
        ctx.prove("every pair is chosen or not", len(a) == 1 and v is not None and [intval(x) for x in v] in ([0, 1],))
        ctx.prove("one choice per pair", z(k.get("repeat", 1)) == S.M)
        return SSeq(S.P, lambda m: SSeq(S.M, lambda i: S.bit(z(m), z(i))))

    LIB["networkx.complete_graph"] = Builtin("networkx.complete_graph", complete)
    LIB["itertools.product"] = Builtin("itertools.product", product)
    it.contracts[GS] = lambda it_, a, k: TGraph(it) if not a and not k else (_ for _ in ()).throw(Unsupported("GraphState(...)"))
    q = FS + ".generator_all_graphs"
    it.loop_specs[(q, 0)] = Yielding(S)
    o = Obj(it.fn(FS))
    o.fields["number_nodes"] = n
    r = it.call(it.fn(q), [o])
    r = it.as_seq(r)
    ctx.prove("post: one graph per vector", z(r.n) == S.P)
    # every graph once
    a, b = ctx.int("a"), ctx.int("b")
    e = S.dif(a, b)
    u, v = S.ea(e), S.eb(e)
    ctx.prove("post: different vertices are different graphs", Implies(And(a >= 0, a < b, b < S.P), And(e >= 0, e < S.M, S.edge(a, u, v) != S.edge(b, u, v))), assume=False)
    E_, c = ctx.func("any_graph", I, I, B), ctx.int("code")
    i, x, y = z3.Ints("i!an x!an y!an")
    ctx.assume(z3.ForAll([x, y], z3.Implies(E_(x, y), z3.And(E_(y, x), x != y, x >= 0, y >= 0, x < n, y < n)), patterns=[E_(x, y)]))
    ctx.assume(And(rng(c, S.P), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < S.M), (S.bit(c, i) == 1) == E_(S.ea(i), S.eb(i))), patterns=[S.bit(c, i)])))
    s, t = ctx.int("s"), ctx.int("t")
    ctx.assume(S.rk(z3.If(s < t, s, t), z3.If(s < t, t, s)) == S.rk(z3.If(s < t, s, t), z3.If(s < t, t, s)))
    ctx.prove("post: every simple graph on the nodes occurs", And(Implies(E_(s, t), S.edge(c, s, t)), Implies(S.edge(c, s, t), E_(s, t))), assume=False)


class Graph:
    """the graph of graphs: vertices with attributes, undirected edges"""

    def __init__(self, it):
        self.it, self.born = it, birth()
        self.vs = lambda v: z3.BoolVal(False)
        self.flow = lambda v: z3.BoolVal(False)
        self.circ = lambda v: z3.IntVal(-1)
        self.es = lambda a, b: z3.BoolVal(False)
        self.loose = False

    def __pyvc_getattr__(self, it, name):
        f = getattr(self, "m_" + name, None)
        if f is None:
            raise Unsupported("nx.Graph." + name)
        return Builtin(name, f)

    def m_add_node(self, it, a, k):
        it.write_log(self)
        v = z(a[0])
        if set(k) != {"flow", "mbqc_circuit"} or not isinstance(k["mbqc_circuit"], Circuit):
            raise Unsupported("add_node")
        fl, cm = z(k["flow"]), z(k["mbqc_circuit"].m)
        vs, flow, circ = self.vs, self.flow, self.circ
        self.vs = lambda x: z3.Or(vs(x), z(x) == v)
        self.flow = lambda x: z3.If(z(x) == v, fl, flow(x))
        self.circ = lambda x: z3.If(z(x) == v, cm, circ(x))

    def m_add_edge(self, it, a, k):
        it.write_log(self)
        u, v = z(a[0]), z(a[1])
        it.ctx.prove("an edge joins two vertices", And(self.vs(u), self.vs(v)))
        es = self.es
        self.es = lambda x, y: z3.Or(es(x, y), z3.And(z(x) == u, z(y) == v), z3.And(z(x) == v, z(y) == u))

    def m_subgraph(self, it, a, k):
        s = it.as_seq(a[0])
        if s is None:
            raise Unsupported("subgraph")
        return Sub(self, s.snap())


class Sub:
    """the subgraph on the listed vertices (networkx: all edges between them)"""

    def __init__(self, g, s):
        self.g, self.s = g, s


class Circuit:
    def __init__(self, S, m):
        self.S, self.m = S, m

    def __pyvc_getattr__(self, it, name):
        if name == "flow":
            if it.ctx.branch(self.S.has(z(self.m))):
                return Opaque("flow")
            return None
        raise Unsupported("circuit." + name)


class Step:
    """base of the three loops: the graph after k iterations, and the two lists"""

    kind = "for"

    def bind(self, L):
        gs = [nm for nm, v in L.fr.vars.items() if isinstance(v, Graph)]
        if len(gs) != 1:
            raise Unsupported("the loop does not build one graph")
        self.name = gs[0]

    def want(self, L, k):
        raise NotImplementedError

    def lists(self, L, k):
        return {}

    def check(self, L, k, phase):
        ctx = L.ctx
        g = L.fr.vars[self.name]
        vs, flow, circ, es = self.want(L, k)
        x, y = ctx.int("x"), ctx.int("y")
        w = "%s/%s: " % (L.where, phase)
        ctx.prove(w + "vertices", Iff(g.vs(x), vs(x)), assume=False)
        ctx.prove(w + "flow marks and circuits", Implies(vs(x), And(Iff(g.flow(x), flow(x)), g.circ(x) == circ(x))), assume=False)
        ctx.prove(w + "edges", Iff(g.es(x, y), es(x, y)), assume=False)
        if phase == "preserve":
            for F in (self.S.W, self.S.O):
                F.step(z3.simplify(z(k) - 1))
        for nm, v in self.lists(L, k).items():
            prove_eq(L.it, w + nm, L.fr.vars[nm], v)

    def havoc(self, L, k):
        g = L.fr.vars[self.name]
        g.vs, g.flow, g.circ, g.es = self.want(L, k)
        L.covered.append(g)
        for nm, v in self.lists(L, k).items():
            put(L, nm, v)

    def enter(self, L, k):
        pass

    def on_break(self, L, k):
        L.ctx.prove("the enumeration is not cut short", False)

    def on_exit(self, L, n):
        pass


class Classify(Step):
    def __init__(self, S):
        self.S = S

    def bind(self, L):
        Step.bind(self, L)
        for nm in ("wflow", "woflow"):
            if not isinstance(L.fr.vars.get(nm), VList):
                raise Unsupported("the two lists of vertices")

    def want(self, L, k):
        S, k = self.S, z(k)
        return (lambda x: z3.And(z(x) >= 0, z(x) < k)), (lambda x: S.has(z(x))), (lambda x: z(x)), (lambda a, b: z3.BoolVal(False))

    def lists(self, L, k):
        return {"wflow": self.S.W.upto(k), "woflow": self.S.O.upto(k)}


class Join(Step):
    def __init__(self, S, outer):
        self.S, self.outer = S, outer

    def want(self, L, k):
        S, k = self.S, z(k)
        if self.outer:
            pair = lambda a, b: z3.And(a < k)
        else:
            i = z(L.v("ind1"))
            pair = lambda a, b: z3.Or(a < i, z3.And(a == i, b < k))

        def es(a, b):
            a, b = z(a), z(b)
            lo, hi = z3.If(a < b, a, b), z3.If(a < b, b, a)
            return z3.And(lo >= 0, lo < hi, hi < S.P, pair(lo, hi), S.one(a, b))

        return (lambda x: z3.And(z(x) >= 0, z(x) < S.P)), (lambda x: S.has(z(x))), (lambda x: z(x)), es


def t_space(it):
    ctx = it.ctx
    n = ctx.int("n")
    ctx.assume(n >= 0)
    S = Space(it, n)
    S.has, one = ctx.func("has_flow", I, B), ctx.func("one_edge_apart", I, I, B)
    S.one = lambda a, b: z3.If(z(a) < z(b), one(z(a), z(b)), z3.And(z(a) != z(b), one(z(b), z(a))))
    S.card = ctx.func("size_of_difference", I, I, I)
    S.W = Filtered(it, "with_flow", S.P, lambda i: S.has(z(i)), lambda i: z(i))
    S.O = Filtered(it, "without_flow", S.P, lambda i: z3.Not(S.has(z(i))), lambda i: z(i))
    ins, outs = Opaque("inputs"), Opaque("outputs")
    graphs = SSeq(S.P, lambda m: Drawn(S, z(m)))

    def circuit(it_, a, k):
        b = it_.bind(it_.fn(MBQ + ".__init__"), [None] + list(a), k)
        vals = dict(b)
        g = vals.get("graph")
        ctx.prove("circuits of the enumerated graphs with the given inputs and outputs", isinstance(g, Drawn) and vals.get("input_nodes") is ins and vals.get("output_nodes") is outs)
        return Circuit(S, g.m)

    it.contracts[MBQ] = circuit
    it.contracts[FS + ".generator_all_graphs"] = lambda it_, a, k: graphs
    LIB["networkx.Graph"] = Builtin("networkx.Graph", lambda it_, a, k: Graph(it))
    q = FS + ".all_graphs_graph"
    it.loop_specs[(q, 0)] = Classify(S)
    it.loop_specs[(q, 1)] = Join(S, True)
    it.loop_specs[(q, 2)] = Join(S, False)
    o = Obj(it.fn(FS))
    o.fields.update(number_nodes=n, input_nodes=ins, output_nodes=outs)
    r = it.call(it.fn(q), [o])
    if not (isinstance(r, tuple) and len(r) == 3 and isinstance(r[0], Graph) and isinstance(r[1], Sub) and isinstance(r[2], Sub)):
        raise Unsupported("result")
    T, A, N = r
    x, y = ctx.int("x"), ctx.int("y")
    ctx.prove("post: one vertex per enumerated graph", Iff(T.vs(x), rng(x, S.P)), assume=False)
    ctx.prove("post: marked with flow exactly if its circuit has one", Implies(rng(x, S.P), And(Iff(T.flow(x), S.has(x)), T.circ(x) == x)), assume=False)
    ctx.prove("post: adjacent exactly if one edge apart", Implies(And(rng(x, S.P), rng(y, S.P)), Iff(T.es(x, y), S.one(x, y))), assume=False)
    for P_, F, tag, has in ((A, S.W, "with", lambda v: S.has(v)), (N, S.O, "without", lambda v: Not(S.has(v)))):
        ctx.prove("post: the part %s flow is a part of the whole" % tag, P_.g is T)
        t, p = ctx.int("t"), F.cnt(x)
        el = lambda k: z(ops.seq_get(P_.s, k))
        ctx.prove("post: vertices of the part %s flow" % tag, Implies(rng(t, P_.s.n), And(rng(el(t), S.P), has(el(t)))), assume=False)
        ctx.prove("post: no vertex is missing in the part %s flow" % tag, Implies(And(rng(x, S.P), has(x)), And(rng(p, P_.s.n), el(p) == x)), assume=False)


class Size:
    def __init__(self, n, ins, outs):
        self.n, self.ins, self.outs = n, ins, outs

    def __pyvc_len__(self, it):
        return self.n

    def __pyvc_getattr__(self, it, name):
        if name in ("input_nodes", "output_nodes"):
            return self.ins if name == "input_nodes" else self.outs
        raise Unsupported("circuit." + name)


def t_init(it):
    ctx = it.ctx
    n, big = ctx.int("n"), ctx.bool("allow") if hasattr(ctx, "bool") else z3.Bool(ctx.uid("allow"))
    ctx.assume(n >= 0)
    ins, outs = Opaque("inputs"), Opaque("outputs")
    parts = (Opaque("all"), Opaque("with"), Opaque("without"))
    o = Obj(it.fn(FS))
    seen = []

    def build(it_, a, k):
        s = a[0]
        ctx.prove("post: the enumeration uses the size, inputs and outputs of the circuit", And(s is o, z(s.fields.get("number_nodes", -1)) == n, s.fields.get("input_nodes") is ins, s.fields.get("output_nodes") is outs))
        seen.append(1)
        return parts

    it.contracts[FS + ".all_graphs_graph"] = build
    given = ctx.choose(2)
    r = attempt(it, lambda: it.call(it.fn(FS + ".__init__"), [o, Size(n, ins, outs)] + ([big] if given else [])))
    if r[0] == "exc":
        ctx.prove("post: rejected only if large and not allowed", And(r[1] == "UserWarning", n > 7, Not(big) if given else True))
        return
    ctx.prove("post: large circuits only if allowed", Or(n <= 7, big if given else False))
    ctx.prove("post: built once", len(seen) == 1)
    for nm, v in zip(("total_graph_space", "flow_graph_space", "no_flow_graph_space"), parts):
        ctx.prove("post: " + nm, o.fields.get(nm) is v)


UNITS = [
    Unit("generator_all_graphs: every simple graph on the nodes once", t_generator, [FS + ".generator_all_graphs"]),
    Unit("all_graphs_graph: flow marks, partition, adjacency", t_space, [FS + ".all_graphs_graph"]),
    Unit("FlowSpace(): size limit and parts", t_init, [FS + ".__init__"]),
]
ASSUMES = ["the circuit constructor accepts the inputs and outputs (as many inputs as outputs)"]
