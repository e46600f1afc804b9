"""C08: circuit templates (mentpy/mbqc/templates.py)"""
from .common import *
from pyvc.lib_nx import SGraph
from pyvc import lib_py
from pyvc.core import multi
from pyvc.spec import put

TP = "mentpy.mbqc.templates."
GS = "mentpy.mbqc.states.graphstate.GraphState"
MBQ = "mentpy.mbqc.mbqcircuit.MBQCircuit"


def occurs(t, x):
    todo, seen = [t], set()
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if e.eq(x):
            return True
        todo.extend(e.children())
    return False


class TGraph(SGraph):
    """a graph built by the code under test: starts empty, nodes and edges are only added
    (networkx: adding an edge adds its ends; edges are undirected; adding twice is adding once)"""

    def __init__(self, it):
        self.it, self.ctx = it, it.ctx
        self.born = birth()
        self.n = None
        self.isnode = lambda v: z3.BoolVal(False)
        self.adj = lambda u, v: z3.BoolVal(False)

    def nodes(self):
        raise Unsupported("iteration over a graph under construction")

    def put(self, it, nodes, edges):
        it.write_log(self)
        V0, E0 = self.isnode, self.adj
        self.isnode = lambda x: Or(V0(x), nodes(z(x)))
        self.adj = lambda x, y: Or(E0(x, y), edges(z(x), z(y)), edges(z(y), z(x)))
        self.n = None

    def link(self, it, u, v):
        u, v = z(u), z(v)
        self.put(it, lambda x: Or(x == u, x == v), lambda x, y: And(x == u, y == v))

    def __pyvc_len__(self, it):
        if self.n is None:
            raise Unsupported("size of a graph under construction")
        return self.n

    def __pyvc_getattr__(self, it, name):
        if name == "copy":
            def cp(it_, a, k):
                c = object.__new__(TGraph)
                c.__dict__.update(self.__dict__)
                c.born = birth()
                return c

            return Builtin(name, cp)
        if name == "add_edge":
            return Builtin(name, lambda it_, a, k: self.link(it, a[0], a[1]))
        if name == "add_node":
            def one(it_, a, k):
                v = z(a[0])
                self.put(it, lambda x: x == v, lambda x, y: False)

            return Builtin(name, one)
        if name in ("add_edges_from", "add_nodes_from"):
            return Builtin(name, lambda it_, a, k: self.many(it, a[0], name == "add_edges_from"))
        if name in ("nodes", "number_of_nodes", "order") and self.n is None:
            raise Unsupported("size of a graph under construction")
        return SGraph.__pyvc_getattr__(self, it, name)

    def many(self, it, x, edges):
        vals = it.iterate(x)
        if vals is not None:
            for e in vals:
                if edges:
                    self.link(it, *it.unpack(e, 2)[:2])
                else:
                    v = z(e)
                    self.put(it, lambda x, v=v: x == v, lambda x, y: False)
            return
        s = it.as_seq(x)
        i = z3.Int("i!tg")
        if s is None or isinstance(s.f(i), tuple) is not edges:
            raise Unsupported("add_%s_from" % ("edges" if edges else "nodes"))
        s = s.snap()
        n = z(s.n)
        fst = (lambda t: z(s.f(t)[0])) if edges else (lambda t: z(s.f(t)))
        c = z3.simplify(fst(i) - i)
        if not occurs(c, i):
            # element i starts at i + c: the only candidate for x is i = x - c
            some = lambda x, P: And(x - c >= 0, x - c < n, P(x - c))
        else:
            some = lambda x, P: z3.Exists([i], z3.And(i >= 0, i < n, fst(i) == x, z(P(i))))
        if not edges:
            self.put(it, lambda x: some(x, lambda t: z3.BoolVal(True)), lambda x, y: False)
            return
        snd = lambda t: z(s.f(t)[1])
        d = z3.simplify(snd(i) - i)
        if not occurs(d, i):
            other = lambda x: And(x - d >= 0, x - d < n)
        else:
            other = lambda x: z3.Exists([i], z3.And(i >= 0, i < n, snd(i) == x))
        self.put(it, lambda x: Or(some(x, lambda t: z3.BoolVal(True)), other(x)), lambda x, y: some(x, lambda t: snd(t) == y))


class Circ:
    """the circuit constructed: what the constructor was given (its own contract is C06; the
    default relabelling numbers sorted nodes from 0, hence is the identity on 0 .. n-1)"""

    def __init__(self, args):
        self.args = args

    def __pyvc_getattr__(self, it, name):
        if name == "graph":
            return self.args["graph"]
        if name in ("input_nodes", "output_nodes"):
            return self.args[name]
        raise Unsupported("circuit." + name)


def members(it, s, g, name):
    """every element of the list is a node of g, or ValueError"""
    vals = it.iterate(s)
    ctx = it.ctx
    if vals is not None:
        ok = And(*[g.isnode(v) for v in vals])
    else:
        i = z3.Int("i!mb")
        s = it.as_seq(s)
        ok = z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < z(s.n)), z(g.isnode(s.f(i)))))
        if not ctx.branch(ctx.fresh("all_nodes", B) if False else ok):
            ops.pyraise("ValueError", "not in the graph")
        return
    if not ctx.branch(ok):
        ops.pyraise("ValueError", "not in the graph")


class Templates:
    def __init__(self, it):
        self.it, self.made, self.circuits = it, [], []
        it.contracts[GS] = self.graph
        it.contracts[MBQ] = self.circuit

    def graph(self, it, a, k):
        if a or k:
            raise Unsupported("GraphState(data)")
        self.made.append(TGraph(it))
        return self.made[-1]

    def circuit(self, it, a, k):
        b = it.bind(it.fn(MBQ + ".__init__"), [None] + list(a), k)
        g = b["graph"]
        if not isinstance(g, TGraph):
            raise Unsupported("circuit on another graph")
        b["V"], b["E"] = g.isnode, g.adj
        for n in ("input_nodes", "output_nodes"):
            members(it, b[n], g, n)
        self.circuits.append(Circ(b))
        return self.circuits[-1]

    def result(self, r, name="post: a circuit is returned"):
        self.it.ctx.prove(name, r[0] == "val" and isinstance(r[1], Circ) and r[1] in self.circuits)
        return r[1].args if r[0] == "val" and isinstance(r[1], Circ) else None


class Edges:
    """graph after k iterations: V(k)(x), E(k)(x, y) symmetric"""

    kind = "for"

    def __init__(self, T, V, E, keep=()):
        self.T, self.V, self.E, self.keep = T, V, E, keep

    def bind(self, L):
        gs = []
        fr = L.fr
        while fr is not None:
            gs += [v for v in fr.vars.values() if isinstance(v, TGraph) and v in self.T.made and v not in gs]
            fr = None
        if len(gs) != 1:
            raise Unsupported("%d graphs under construction" % len(gs))
        self.g = gs[0]
        # loop variables that shadow a number which is used again later
        self.kept = [(nm, t) for nm in sorted(L.assigned) for t in self.keep if nm in L.fr.vars and is_num(L.fr.vars[nm]) and z(L.fr.vars[nm]).eq(t)]

    def check(self, L, k, phase):
        ctx = L.ctx
        x, y = ctx.int("x"), ctx.int("y")
        w = "%s/%s: " % (L.where, phase)
        for nm, t in self.kept:
            v = L.v(nm)
            ctx.prove(w + nm, z(v) == t if is_num(v) else False)
        ctx.prove(w + "nodes so far", Iff(self.g.isnode(x), self.V(k, x)), assume=False)
        ctx.prove(w + "edges so far", Iff(self.g.adj(x, y), self.E(k, x, y)), assume=False)

    def havoc(self, L, k):
        g = self.g
        g.isnode = lambda x: self.V(z(k), z(x))
        g.adj = lambda x, y: self.E(z(k), z(x), z(y))
        L.covered.append(g)
        for nm, t in self.kept:
            put(L, nm, t)

    def enter(self, L, k):
        pass

    def on_break(self, L, k):
        raise Unsupported("break")

    def on_exit(self, L, n):
        pass


def sym(e):
    """e(x, y) for either orientation"""
    return lambda x, y: Or(e(x, y), e(y, x))


def at(it, s, i):
    return z(ops.seq_get(s, i))


def check_circuit(it, b, n, adj, rows, first, last, kwargs):
    """b: constructor arguments; nodes 0..n-1, edges adj, one input/output per row"""
    ctx = it.ctx
    x, y, i = ctx.int("x"), ctx.int("y"), ctx.int("i")
    ctx.prove("post: nodes are 0 .. n-1", Iff(b["V"](x), rng(x, n)), assume=False)
    ctx.prove("post: exactly the documented edges", Iff(b["E"](x, y), adj(x, y)), assume=False)
    for nm, f in (("input_nodes", first), ("output_nodes", last)):
        s = b[nm]
        ctx.prove("post: one %s per wire" % nm[:-6], z(ops.seq_len(s)) == z(rows))
        with ctx.scope(rng(i, rows)):
            if ctx.feasible(z3.BoolVal(True)):
                ctx.prove("post: %s are the ends of the wires in wire order" % nm, at(it, s, i) == f(i), assume=False)
    for a in ("measurements", "default_measurement", "flow", "partial_order", "measurement_order", "relabel_indices"):
        d = default_arg(it, a)
        want = kwargs.get(a, d)
        ctx.prove("post: %s as asked" % a, same(b[a], want))
    ctx.prove("post: default labels", b["relabel_indices"] is True or "relabel_indices" in kwargs)


def default_arg(it, a):
    f = it.fn(MBQ + ".__init__")
    names = [p.arg for p in f.node.args.args]
    return dict(zip(names[-len(f.defaults):], f.defaults))[a]


def same(a, b):
    return a is b or isinstance(a, (bool, str)) and a == b


class Given:
    """an option handed through to the circuit"""


def t_linear(it):
    ctx = it.ctx
    T = Templates(it)
    n = ctx.int("n")
    opt = {"default_measurement": Given()} if ctx.choose(2) else {}
    valid = ctx.choose(2)
    ctx.assume(n >= 2 if valid else n <= 1)
    run = lambda: it.call(it.fn(TP + "linear_cluster"), [n], opt)
    if not valid:
        r = attempt(it, run)
        ctx.prove("post: less than two nodes are rejected", r[0] == "exc")
        return
    b = T.result(attempt(it, run))
    if b is None:
        return
    wire = lambda x, y: And(rng(x, n), rng(y, n), y == x + 1)
    check_circuit(it, b, n, sym(wire), 1, lambda i: z3.IntVal(0), lambda i: n - 1, opt)


def prefix_sums(it, n, f):
    """S(i) = f(0) + .. + f(i-1) for positive f: strictly increasing, and every number below S(n)
    lies in exactly one [S(i), S(i+1)); the i of x is the ghost wire(x)"""
    ctx = it.ctx
    S = lambda k: z(ctx.sum(z(k), lambda q: z(f(q))))
    i, j, x = z3.Ints("i!ps j!ps x!ps")
    mono = lambda k, a: Implies(And(a >= 0, a < z(k), z(k) <= n), And(S(a) < S(a + 1), S(a + 1) <= S(k)))
    induct(it, "lemma: wires follow each other", mono, [("i", I)])
    ctx.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j <= n), z3.And(S(i) < S(i + 1), S(i + 1) <= S(j))), patterns=[multi(S(i), S(j))]))
    W, k_ = ctx.func("wire_before", I, I, I), z3.Int("k!ps")
    ctx.define(z3.ForAll([k_, x], z3.Implies(k_ >= 0, W(k_ + 1, x) == z3.If(S(k_) <= x, k_, W(k_, x))), patterns=[W(k_ + 1, x)]))  # the last wire starting at or before x
    some = lambda k, a: Implies(And(z(k) <= n, a >= 0, a < S(k)), And(W(k, a) >= 0, W(k, a) < z(k), S(W(k, a)) <= a, a < S(W(k, a) + 1)))
    induct(it, "lemma: every node lies in a wire", some, [("x", I)])
    wire = lambda v: W(n, z(v))
    ctx.assume(z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < S(n)), z3.And(wire(x) >= 0, wire(x) < n, S(wire(x)) <= x, x < S(wire(x) + 1))), patterns=[wire(x)]))
    return S, wire


def t_wires(it):
    ctx = it.ctx
    T = Templates(it)
    n = ctx.int("n")
    ln = ctx.func("wire_length", I, I)
    q = z3.Int("q!w")
    ctx.assume(And(n >= 1, z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), ln(q) >= 2), patterns=[ln(q)])))
    S, wire = prefix_sums(it, n, lambda k: ln(z(k)))
    s = SSeq(n, lambda t: ln(z(t)))
    opt = {"default_measurement": Given()} if ctx.choose(2) else {}
    inw = lambda kk, a: And(a >= 0, a < S(kk))
    E1 = lambda kk: lambda a, b: And(inw(kk, a), b == a + 1, wire(a) == wire(b), inw(kk, b))

    it.loop_specs[(TP + "many_wires", 0)] = Edges(T, inw, lambda kk, a, b: sym(E1(kk))(a, b))
    b = T.result(attempt(it, lambda: it.call(it.fn(TP + "many_wires"), [s], opt)))
    if b is None:
        return
    check_circuit(it, b, S(n), sym(E1(n)), n, lambda t: S(t), lambda t: S(t + 1) - 1, opt)


def t_wires_bad(it):
    ctx = it.ctx
    Templates(it)
    kind = ctx.choose(3)
    n, at_ = ctx.int("n"), ctx.int("at")
    ctx.assume(rng(at_, n))
    if kind == 0:
        ln = ctx.func("wire_length", I, I)
        ctx.assume(ln(at_) <= 1)
        s = SSeq(n, lambda t: ln(z(t)))
    elif kind == 1:
        ln = ctx.func("wire_length", I, z3.RealSort())
        s = SSeq(n, lambda t: ln(z(t)))
    else:
        s = ops.VList([ctx.int("a"), "3"]) if ctx.choose(2) else ops.VList([None, ctx.int("a")])
    must_raise(it, "post: wires that are no integers above 1 are rejected", lambda: it.call(it.fn(TP + "many_wires"), [s], {}), "ValueError")


UNITS = [
    Unit("linear_cluster: a path of n nodes", t_linear, [TP + "linear_cluster"]),
    Unit("many_wires: disjoint paths of the given lengths", t_wires, [TP + "many_wires"]),
    Unit("many_wires: invalid lengths are rejected", t_wires_bad, [TP + "many_wires"]),
]


class AMent:
    """Ment(..): by its plane and angle arguments (construction is C13)"""

    def __init__(self, pl):
        self.pl = pl  # term: number of a plane name

    def __pyvc_ite__(self, c, a, b):
        return AMent(z3.If(z(c), a.pl, b.pl))

    def __pyvc_getattr__(self, it, name):
        raise Unsupported("measurement." + name)


NAMES = {"XY": 0, "X": 1, "Y": 2, "Z": 3, "XZ": 4, "YZ": 5}


def new_ment(it, a, k):
    x = list(a) + list(k.values())
    # Ment() and Ment(plane) only: free angle (or the fixed one of X, Y, Z)
    if set(k) - {"plane", "angle"} or len(x) > 1 or x and not isinstance(x[0], str):
        raise Unsupported("Ment%r" % (tuple(x),))
    nm = (x[0] if x else "XY").upper()
    if nm not in NAMES:
        ops.pyraise("ValueError", "plane")
    return AMent(z3.IntVal(NAMES[nm]))


class PauliLike:
    """operator with given tableau"""

    def __init__(self, it, rows):
        self.n = it.ctx.int("qubits")
        it.ctx.assume(self.n >= 1)
        self.m = iarr(it, "tableau", rows, 2 * self.n)
        self.m0 = self.m.snap()
        self.rows = rows

    def bit(self, q):
        return z(self.m0(0, q))

    def __pyvc_len__(self, it):
        return self.rows

    def __pyvc_getattr__(self, it, name):
        if name == "number_of_qubits":
            return self.n
        if name == "matrix":
            return self.m
        raise Unsupported("PauliOp." + name)


class PauliLoop(Edges):
    """additionally: the ancilla is measured in Y as soon as a Y was seen"""

    def __init__(self, T, V, E, n, seen):
        Edges.__init__(self, T, V, E)
        self.n, self.seen = n, seen

    def bind(self, L):
        Edges.bind(self, L)
        ds = [v for v in L.fr.vars.values() if isinstance(v, (ops.VDict, SDict))]
        if len(ds) != 1:
            raise Unsupported("measurements")
        self.name = [k for k, v in L.fr.vars.items() if v is ds[0]][0]

    def want(self, k):
        n = z(self.n)
        return SDict(lambda v: Or(z(v) == 3 * n + 1, And(z(v) == 3 * n, self.seen(z(k)))), lambda v: AMent(z3.If(z(v) == 3 * n, z3.IntVal(2), z3.IntVal(0))))

    def check(self, L, k, phase):
        Edges.check(self, L, k, phase)
        same_planes(L.it, "%s/%s: measurements so far" % (L.where, phase), L.v(self.name), self.want(k))

    def havoc(self, L, k):
        Edges.havoc(self, L, k)
        put(L, self.name, self.want(k))


def same_planes(it, name, d, w):
    ctx, v = it.ctx, it.ctx.int("v")
    d = lib_py.to_sdict(d)
    ctx.prove(name + " (nodes)", Iff(d.has(v), w.has(v)), assume=False)
    with ctx.scope(And(d.has(v), w.has(v))):
        if ctx.feasible(z3.BoolVal(True)):
            ctx.prove(name + " (planes)", d.get(v).pl == w.get(v).pl, assume=False)


def t_pauli(it):
    ctx = it.ctx
    T = Templates(it)
    it.contracts["mentpy.operators.ment.Ment"] = new_ment
    op = PauliLike(it, 1)
    n = op.n
    x, y, q = z3.Ints("x!tp y!tp q!tp")
    ctx.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < 2 * n), z3.Or(op.bit(q) == 0, op.bit(q) == 1)), patterns=[op.bit(q)]))

    def wires(it_, a, k):
        s = it.as_seq(a[0])
        i = ctx.int("i")
        ctx.prove("call of many_wires: all wires have three nodes", And(z(s.n) == n, Implies(rng(i, n), z(s.f(i)) == 3)) if s is not None and not k and len(a) == 1 else False)
        g = TGraph(it)
        g.isnode = lambda v: And(z(v) >= 0, z(v) < 3 * n)
        g.adj = sym(lambda u, v: And(u >= 0, v < 3 * n, v == u + 1, u / 3 == v / 3))
        T.made.append(g)
        return Circ({"graph": g})

    it.contracts[TP + "many_wires"] = wires
    X = lambda i: op.bit(i) == 1
    Z = lambda i: op.bit(n + i) == 1
    seen = ctx.func("y_before", I, B)
    ctx.define(seen(0) == z3.BoolVal(False))
    ctx.define(z3.ForAll([q], z3.Implies(q >= 0, seen(q + 1) == z3.Or(seen(q), z3.And(X(q), Z(q)))), patterns=[seen(q + 1)]))
    V = lambda k, v: And(v >= 0, v <= 3 * n + 1)

    def E(k, u, v):
        base = And(u >= 0, v < 3 * n, v == u + 1, u / 3 == v / 3)
        anc = And(u == 3 * n, v == 3 * n + 1)
        leg = And(v == 3 * n, u >= 0, u < 3 * z(k), Or(And(u % 3 == 1, X(u / 3)), And(u % 3 == 0, Z(u / 3))))
        return Or(base, anc, leg)

    it.loop_specs[(TP + "from_pauli", 0)] = PauliLoop(T, V, lambda k, a, b: sym(lambda u, v: E(k, u, v))(a, b), n, seen)
    b = T.result(attempt(it, lambda: it.call(it.fn(TP + "from_pauli"), [op])))
    if b is None:
        return
    d, dm = b["measurements"], b["default_measurement"]
    same_planes(it, "post: only the ancilla pair is measured differently: XY, and Y at the ancilla if the operator has a Y", d, SDict(lambda v: Or(z(v) == 3 * n + 1, And(z(v) == 3 * n, seen(n))), lambda v: AMent(z3.If(z(v) == 3 * n, z3.IntVal(2), z3.IntVal(0)))))
    ctx.prove("post: all other measurements are X", isinstance(dm, AMent) and dm.pl.eq(z3.IntVal(1)))
    p, r = ctx.int("p"), ctx.int("r")
    use = induct(it, "lemma: a Y was seen iff some position has one", lambda k, w: And(Implies(And(w >= 0, w < z(k), X(w), Z(w)), seen(z(k)))), [("w", I)])
    ctx.prove("post: the ancilla is measured in Y if the operator has a Y at r", Implies(And(rng(r, n), X(r), Z(r)), seen(n)) if use(n, r) is None else False, assume=False)
    ctx.prove("post: the middle of wire r is joined to the ancilla exactly for X or Y", Implies(rng(r, n), Iff(b["E"](3 * r + 1, 3 * n), X(r))), assume=False)
    ctx.prove("post: the start of wire r is joined to the ancilla exactly for Z or Y", Implies(rng(r, n), Iff(b["E"](3 * r, 3 * n), Z(r))), assume=False)
    check_circuit(it, b, 3 * n + 2, sym(lambda u, v: E(n, u, v)), n, lambda i: 3 * i, lambda i: 3 * i + 2, {"measurements": d, "default_measurement": dm})
    ctx.prove("post: the operator is not modified", op.m.snap()(0, q) is not None and And(z(op.m.snap()(0, p)) == op.bit(p)))


def t_pauli_bad(it):
    Templates(it)
    rows = it.ctx.int("rows")
    it.ctx.assume(And(rows >= 0, rows != 1))
    op = PauliLike(it, rows)
    must_raise(it, "post: anything but one operator is rejected", lambda: it.call(it.fn(TP + "from_pauli"), [op]), "ValueError")


def t_grid(it):
    ctx = it.ctx
    T = Templates(it)
    n, m = ctx.int("rows"), ctx.int("columns")
    ctx.assume(And(n >= 1, m >= 2))
    per = [None, False, True][ctx.choose(3)]
    S, wire = prefix_sums(it, n, lambda k: m)
    induct(it, "lemma: rows start at multiples of the width", lambda k: S(k) == z(k) * m, [])
    k_ = z3.Int("k!tg")
    ctx.assume(z3.ForAll([k_], z3.Implies(k_ >= 0, S(k_) == k_ * m), patterns=[S(k_)]))
    opt = {"default_measurement": Given()} if ctx.choose(2) else {}
    inw = lambda kk, a: And(a >= 0, a < S(kk))
    row = lambda kk: lambda a, b: And(inw(kk, a), b == a + 1, wire(a) == wire(b), inw(kk, b))
    col = lambda kk: lambda a, b: And(inw(kk, a), b == a + m)
    cyl = lambda kk: lambda a, b: And(a >= 0, a < z(kk), b == (n - 1) * m + a)
    q = TP + "grid_cluster"
    it.loop_specs[(q, 0)] = Edges(T, inw, lambda kk, a, b: sym(row(kk))(a, b), [m])
    V = lambda kk, a: inw(n, a)
    it.loop_specs[(q, 1)] = Edges(T, V, lambda kk, a, b: Or(sym(row(n))(a, b), sym(col(kk))(a, b)))
    E2 = lambda a, b: Or(sym(row(n))(a, b), sym(col(n - 1))(a, b))
    it.loop_specs[(q, 2)] = Edges(T, V, lambda kk, a, b: Or(E2(a, b), sym(cyl(kk))(a, b)))
    args = [n, m] + ([per] if per is not None and ctx.choose(2) else [])
    kw = dict(opt) if len(args) == 3 or per is None else dict(opt, periodic=per)
    b = T.result(attempt(it, lambda: it.call(it.fn(q), args, kw)))
    if b is None:
        return
    E = (lambda a, b: Or(E2(a, b), And(n > 1, sym(cyl(m))(a, b)))) if per else E2
    check_circuit(it, b, n * m, E, n, lambda i: i * m, lambda i: (i + 1) * m - 1, opt)


UNITS += [
    Unit("grid_cluster: rows, columns and the closing edges of the cylinder", t_grid, [TP + "grid_cluster"]),
    Unit("from_pauli: wires of three, ancilla pair, legs by operator", t_pauli, [TP + "from_pauli"]),
    Unit("from_pauli: several operators are rejected", t_pauli_bad, [TP + "from_pauli"]),
]

BOUNDED = [
    "muta: run for up to 4 wires and 3 layers (all options): wires, ends, edges, causal flow",
    "spturb: run for 4 to 6 qubits, up to 2 layers, open and periodic: wires, ends, node and plane counts",
]
