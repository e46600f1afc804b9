"""C04: generalised flow search (mentpy/mbqc/flow.py: find_gflow, gflowaux)"""
from .common import *
from .c03 import AGraph, Clause, P, bind_params, problem, replace_local
from pyvc.spec import put

FL = "mentpy.mbqc.flow."
SOLVE = FL + "binary_gaussian_elimination"


class GGraph(AGraph):
    def matrix(self, dt):
        f = lambda i, j: ite(self.E(self.node(i), self.node(j)), 1, 0)
        return SArr((self.n, self.n), f, dt)


class GP(P):
    """the problem, with an arbitrary hypothetical correction set `star` for an arbitrary
    node ustar at an arbitrary round jstar; odd_star(v): v has an odd number of neighbours in it"""

    def __init__(self, it):
        P.__init__(self, it)
        ctx = it.ctx
        m = GGraph.matrix
        self.G.matrix = lambda dt: m(self.G, dt)
        self.star, self.odd_star = ctx.func("star", I, B), ctx.func("odd_star", I, B)
        self.ustar, self.jstar = ctx.int("ustar"), ctx.int("jstar")

    def solves(self, T):
        """star corrects ustar when exactly the nodes of T are done"""
        w = z3.Int("w!sol")
        return And(
            z3.ForAll([w], z3.Implies(self.star(w), z3.And(z(T(w)), z3.Not(self.I0(w)))), patterns=[self.star(w)]),
            z3.ForAll([w], z3.Implies(z3.And(self.G.V(w), z3.Not(z(T(w)))), self.odd_star(w) == (w == self.ustar)), patterns=[self.odd_star(w)]),
        )

    def state(self, O, lh, l, gh, cs, odd, k):
        """rounds below k are complete"""
        V, I0, O0 = self.G.V, self.I0, self.O0
        below = lambda u: lambda w: And(lh(w), l(w) < l(u))
        return [
            Clause("done nodes are the nodes with a layer", 1, lambda v: Iff(O(v), lh(v)), lambda v: [O(v)]),
            Clause("done nodes are nodes", 1, lambda v: Implies(O(v), V(v)), lambda v: [O(v)]),
            Clause("outputs are done, in layer 0", 1, lambda v: Implies(O0(v), And(O(v), l(v) == 0)), lambda v: [O0(v)]),
            Clause("done non-outputs have a correction set", 1, lambda v: Iff(gh(v), And(O(v), Not(O0(v)))), lambda v: [gh(v)] + ([O(v)] if apps(O(v)) else [])),
            Clause("layers of corrected nodes", 1, lambda v: Implies(gh(v), And(l(v) >= 1, l(v) < z(k))), lambda v: [l(v)]),
            Clause("correction sets: non-input nodes of strictly later layers", 2, lambda u, w: Implies(And(gh(u), cs(u, w)), And(below(u)(w), Not(I0(w)))), lambda u, w: [cs(u, w)]),
            Clause("correction sets: odd neighbourhood", 2, lambda u, v: Implies(And(gh(u), V(v), Not(below(u)(v))), odd(u, v) == (z(u) == z(v))), lambda u, v: [odd(u, v)]),
            Clause("layers of the layer-by-layer construction", 0, lambda: self.exact(lh, l, k)),
        ]

    def exact(self, lh, l, k):
        """a node that can be corrected when exactly the layers below jstar are done is in layer jstar"""
        T = lambda w: And(lh(w), l(w) < self.jstar)
        u = self.ustar
        return Implies(And(self.jstar >= 1, self.jstar < z(k), self.G.V(u), Not(T(u)), self.solves(T)), And(lh(u), l(u) == self.jstar))

    def stuck(self, O):
        u = self.ustar
        return Implies(And(self.G.V(u), Not(O(u))), Not(self.solves(O)))


def apps(t):
    return z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED


class S:
    def __init__(self, it, tag):
        c = it.ctx
        self.O, self.lh, self.l, self.gh = c.func("done" + tag, I, B), c.func("has_layer" + tag, I, B), c.func("layer" + tag, I, I), c.func("corrected" + tag, I, B)
        self.cs, self.odd = c.func("corr" + tag, I, I, B), c.func("odd" + tag, I, I, B)
        # the program's solution vectors
        self.size, self.sol = c.func("size" + tag, I, I), c.func("solution" + tag, I, I, I)

    def gdict(self):
        return SDict(lambda v: self.gh(z(v)), lambda v: SArr((self.size(z(v)), 1), lambda i, j: self.sol(z(v), z(i)), "gf2"))

    def ldict(self):
        return SDict(lambda v: self.lh(z(v)), lambda v: self.l(z(v)))

    def clauses(self, p, k):
        return p.state(self.O, self.lh, self.l, self.gh, self.cs, self.odd, k)


class Round:
    """one round: the first j nodes of the list have been tried"""

    kind = "for"

    def __init__(self, p, st, k):
        self.p, self.st, self.k = p, st, k
        self.solved = {}  # per run of the solver: see the solver's contract

    def bind(self, L):
        for n in ("g", "l", "C"):
            L.v(n)

    def seq(self, L):
        s = L.seq
        if getattr(s, "index_of", None) is None:
            raise Unsupported("the round does not range over a list of distinct nodes")
        return s

    def view(self, L):
        l, g, C = lib_py.to_sdict(L.v("l")), lib_py.to_sdict(L.v("g")), L.v("C")
        if not isinstance(C, (SSet, VSet)):
            raise Unsupported("C is not a set")
        m = lib_py.mem_of(C)
        return (lambda v: z(l.has(z(v)))), (lambda v: z(zint(l.get(z(v))))), (lambda v: z(g.has(z(v)))), g, (lambda v: z(m(z(v))))

    def claims(self, lh, l, gh, cs, odd, C, pos, j):
        p, st, k = self.p, self.st, self.k
        O = lambda v: Or(st.O(v), C(v))
        return p.state(O, lh, l, gh, cs, odd, k + 1)[:-1] + [
            Clause("new nodes were tried", 1, lambda v: Implies(C(v), And(p.G.V(v), Not(st.O(v)), pos(v) < z(j), l(v) == k)), lambda v: [C(v)]),
            Clause("nodes done before stay", 1, lambda v: Implies(st.lh(v), And(lh(v), l(v) == st.l(v))), lambda v: [st.lh(v)]),
            Clause("a correctable node was corrected", 0, lambda: Implies(And(p.G.V(p.ustar), Not(st.O(p.ustar)), pos(p.ustar) < z(j), p.solves(st.O)), C(p.ustar))),
        ]

    def check(self, L, j, phase):
        it, p = L.it, self.p
        s = self.seq(L)
        pos = lambda v: z(s.index_of(z(v)))
        pre = "%s/%s: " % (L.where, phase)
        v = it.ctx.int("v")
        it.ctx.prove(pre + "ranges over the nodes not done", Iff(s.mem(v), And(p.G.V(v), Not(self.st.O(v)))), assume=False)
        lh, l, gh, g, C = self.view(L)
        if phase == "init":
            cs, odd = self.st.cs, self.st.odd
        else:
            H = self.H
            u = z(s.f(z3.simplify(z(j) - 1)))
            ncs, nodd = self.solved.get("cs"), self.solved.get("odd")
            if ncs is None:
                cs, odd = H.cs, H.odd
            else:
                x = z3.Ints("a!c b!c")
                cs, odd = it.ctx.func("corr_n", I, I, B), it.ctx.func("odd_n", I, I, B)
                it.ctx.assume(z3.ForAll(x, cs(*x) == z3.If(x[0] == u, ncs(x[1]), H.cs(*x)), patterns=[cs(*x)]))
                it.ctx.assume(z3.ForAll(x, odd(*x) == z3.If(x[0] == u, nodd(x[1]), H.odd(*x)), patterns=[odd(*x)]))
                # what the program stores is the solution found
                if not z3.is_false(z3.simplify(z3.And(gh(u), z3.Not(H.gh(u))))):
                    with it.ctx.scope(And(gh(u), Not(H.gh(u)))):
                        if it.ctx.feasible(z3.BoolVal(True)):
                            a = g.get(u)
                            good = isinstance(a, SArr) and a.ndim == 2
                            it.ctx.prove(pre + "correction set stored as a column", good)
                            if good:
                                i = it.ctx.int("i")
                                it.ctx.prove(pre + "stored set is the solution", And(z(a.shape[0]) == z(self.solved["n"]), z(a.shape[1]) == 1, Implies(rng(i, self.solved["n"]), z(zint(a.get(i, 0))) == self.solved["x"](i))), assume=False)
        for c in self.claims(lh, l, gh, cs, odd, C, pos, j):
            c.prove(it, pre)

    def havoc(self, L, j):
        it, p = L.it, self.p
        s = self.seq(L)
        pos = lambda v: z(s.index_of(z(v)))
        H = self.H = S(it, "_r")
        self.solved.clear()
        put(L, "g", H.gdict())
        put(L, "l", H.ldict())
        C = H.C = it.ctx.func("new", I, B)
        put(L, "C", SSet(lambda v: C(z(v))))
        for c in self.claims(H.lh, H.l, H.gh, H.cs, H.odd, C, pos, j):
            c.assume(it)

    def enter(self, L, k):
        pass

    def on_break(self, L, k):
        raise Unsupported("break")

    def on_exit(self, L, n):
        pass


def call_check(it, p, b, pre):
    """obligations of a call of gflowaux; returns the views of its arguments"""
    ctx = it.ctx
    if not all(n in b for n in ("graph", "gamma", "inputs", "outputs", "k", "g", "l")):
        raise Unsupported("parameters of gflowaux changed")
    ctx.prove(pre + "same graph", b["graph"] is p.G)
    ctx.prove(pre + "adjacency matrix", isinstance(b["gamma"], SArr) and b["gamma"].ndim == 2)
    prove_eq(it, pre + "adjacency matrix", b["gamma"], p.G.matrix("i"))
    x = ctx.int("x")
    mi, mo = lib_py.mem_of(b["inputs"]), lib_py.mem_of(b["outputs"])
    ctx.prove(pre + "same inputs", z(mi(x)) == p.I0(x), assume=False)
    g, l = lib_py.to_sdict(b["g"]), lib_py.to_sdict(b["l"])
    num = lambda v: z(zint(l.get(z(v)))) if not isinstance(l.get(z(v)), Opaque) else z3.IntVal(0)
    return (lambda v: z(mo(z(v)))), (lambda v: z(l.has(z(v)))), num, (lambda v: z(g.has(z(v)))), z(b["k"])


def outcome(it, p):
    """post-condition of gflowaux"""
    ctx = it.ctx
    R_ = S(it, "_end")
    kend, res = ctx.int("rounds"), ctx.bool("found")
    for c in R_.clauses(p, kend):
        c.assume(it)
    v = z3.Int("v!all")
    ctx.assume(kend >= 1)
    ctx.assume(p.stuck(R_.O))
    return R_, kend, res


def found(p, O):
    v = z3.Int("v!all")
    return z3.ForAll([v], z3.Implies(p.G.V(v), z(O(v))), patterns=[p.G.V(v)])


def t_aux(it):
    ctx = it.ctx
    p = GP(it)
    st = S(it, "")
    k = ctx.int("k")
    ctx.assume(k >= 1)
    for c in st.clauses(p, k):
        c.assume(it)
    q = FL + "gflowaux"
    rd = Round(p, st, k)
    it.loop_specs[(q, 0)] = rd
    adj = lambda i, j, L, s0: None

    rows, cols = [], []

    def entry(L, ri, ci):
        vs, ws = lists(L)
        return z3.If(p.G.E(z(vs.f(ri)), z(ws.f(ci))), z3.IntVal(1), z3.IntVal(0))

    ghost = {}

    def lists(L):
        return ghost["rows"], ghost["cols"]

    def need_lists(L):
        """row list: the nodes not done; column list: the done nodes that are no inputs"""
        vs = getattr(L.seq, "base", L.seq)
        if getattr(vs, "index_of", None) is None:
            raise Unsupported("loop over a list of distinct nodes expected")
        return vs

    def rowspec(L, kk):
        ghost["rows"] = need_lists(L)
        cs = lib_py.enum_set(it, lib_py.binop(it, "-", L.fr.vars["outputs"], L.fr.vars["inputs"]))
        ghost["cols"] = cs
        sh = L.v("submatrix").shape
        return SArr(sh, lambda i, j: ite(z(i) < z(kk), entry(L, i, j), z3.IntVal(0)), "i")

    def colspec(L, kk):
        i0 = z(L.v("i"))
        sh = L.v("submatrix").shape
        return SArr(sh, lambda i, j: ite(Or(z(i) < i0, And(z(i) == i0, z(j) < z(kk))), entry(L, i, j), z3.IntVal(0)), "i")

    it.loop_specs[(q, 1)] = Inv(exact={"submatrix": rowspec})
    it.loop_specs[(q, 2)] = Inv(exact={"submatrix": colspec})

    def solver(it_, a, kw):
        """C10: the result is a 0/1 vector that solves the system if any vector does"""
        b_ = bind_params(it, SOLVE, a, kw)
        A, b = b_.get("A"), b_.get("b")
        pre = "call of the solver: "
        if not isinstance(A, SArr) or not isinstance(b, SArr) or A.ndim != 2 or b.ndim not in (1, 2) or "rows" not in ghost:
            raise Unsupported("arguments of the solver")
        m, n = A.shape
        ctx.prove(pre + "sizes", And(z(b.shape[0]) == z(m), z(b.shape[1]) == 1 if b.ndim == 2 else True))
        i, j = ctx.int("i"), ctx.int("j")
        bit = lambda e: Or(z(zint(e)) == 0, z(zint(e)) == 1)
        bget = (lambda r: b.get(r, 0)) if b.ndim == 2 else (lambda r: b.get(r))
        with ctx.scope(rng(i, m)):
            ctx.prove(pre + "right hand side 0/1", bit(bget(i)))
            with ctx.scope(rng(j, n)):
                ctx.prove(pre + "matrix 0/1", bit(A.get(i, j)))
        rs, cs_ = ghost["rows"], ghost["cols"]
        fr = it.frames[-1]
        # the linear system is: odd neighbourhood of the chosen columns on the rows
        v = ctx.int("v")
        ctx.prove(pre + "rows are the nodes not done", And(z(rs.n) == z(m), Iff(rs.mem(v), And(p.G.V(v), Not(st.O(v))))), assume=False)
        ctx.prove(pre + "columns are the done non-inputs", And(z(cs_.n) == z(n), Iff(cs_.mem(v), And(st.O(v), Not(p.I0(v))))), assume=False)
        with ctx.scope(And(rng(i, m), rng(j, n))):
            ctx.prove(pre + "entries are adjacencies", z(zint(A.get(i, j))) == z3.If(p.G.E(z(rs.f(i)), z(cs_.f(j))), 1, 0))
        x = ctx.func("x_solver", I, I)
        cs, odd = ctx.func("corr_u", I, B), ctx.func("odd_u", I, B)
        w = z3.Int("w!s")
        ctx.assume(z3.ForAll([w], z3.And(x(w) >= 0, x(w) <= 1), patterns=[x(w)]))
        cpos = lambda t: z(cs_.index_of(t))
        ctx.assume(z3.ForAll([w], cs(w) == z3.And(z(cs_.mem(w)), x(cpos(w)) == 1), patterns=[cs(w)]))
        # exists a solution -> x is one (instance: the hypothetical set star)
        r = z3.Int("r!s")
        rpos = lambda t: z(rs.index_of(t))
        inT = z3.ForAll([w], z3.Implies(p.star(w), z(cs_.mem(w))), patterns=[p.star(w)])
        bz = lambda t: z(zint(bget(t))) == 1
        star_ok = z3.ForAll([r], z3.Implies(z3.And(r >= 0, r < z(m)), p.odd_star(z(rs.f(r))) == bz(r)))
        x_ok = z3.ForAll([w], z3.Implies(z(rs.mem(w)), odd(w) == bz(rpos(w))), patterns=[odd(w)])
        ctx.assume(Implies(And(inT, star_ok), x_ok))
        ctx.trust("parity of a sum over an enumeration of a set of columns = parity of the number of neighbours in the chosen set (independent of the order)")
        rd.solved.update(cs=cs, odd=odd, n=n, x=lambda t: x(z(t)), A=A, rows=rs)
        return SArr((n,), lambda t: x(z(t)), "i")

    it.contracts[SOLVE] = solver
    old_mm = ops.matmul

    def matmul(c, A, b):
        """product of the system matrix with the solution: odd neighbourhood of the chosen set"""
        out = old_mm(c, A, b)
        sv = rd.solved
        if c is not ctx or not sv or not isinstance(out, SArr) or A.ndim != 2 or "gf2" not in (A.dtype, b.dtype):
            return out
        i, j = ctx.int("i"), ctx.int("j")
        same = And(z(A.shape[1]) == z(sv["n"]), z(A.shape[0]) == z(sv["rows"].n), Implies(And(rng(i, A.shape[0]), rng(j, A.shape[1])), And(z(zint(A.get(i, j))) == z(zint(sv["A"].get(i, j))), z(zint(b.get(j, 0) if b.ndim == 2 else b.get(j))) == sv["x"](j))))
        if not ctx.valid(z(same)):
            return out
        odd, rs = sv["odd"], sv["rows"]
        e = lambda i: z3.If(odd(z(rs.f(i))), z3.IntVal(1), z3.IntVal(0))
        return SArr(out.shape, (lambda i, j: e(i)) if out.ndim == 2 else (lambda i: e(i)), "gf2")

    box = []

    def rec(it_, a, kw):
        b = bind_params(it, q, a, kw)
        pre = "recursive call: "
        O, lh, l, gh, kn = call_check(it, p, b, pre)
        H = rd.H
        ctx.prove(pre + "round counter", kn >= 1)
        for c in p.state(O, lh, l, gh, H.cs, H.odd, kn):
            c.prove(it, pre)
        y = z3.Int("y!ex")
        ctx.prove(pre + "progress (termination)", z3.Exists([y], z3.And(z(O(y)), z3.Not(st.O(y)))))
        R_, kend, res = outcome(it, p)
        ctx.assume(res == found(p, R_.O))
        box.append(R_)
        return (res, R_.gdict(), R_.ldict())

    it.contracts[q] = rec
    ops.matmul = matmul
    try:
        inputs, outputs = SSet(lambda v: p.I0(z(v))), SSet(lambda v: st.O(z(v)))
        r = it.call_fn(it.fn(q), [p.G, p.G.matrix("i"), inputs, outputs, k, st.gdict(), st.ldict()], {})
    finally:
        ops.matmul = old_mm
    ok = isinstance(r, tuple) and len(r) == 3
    ctx.prove("post: three results", ok)
    if box:
        ctx.prove("post: result of the remaining rounds", r[1].has is not None)
        return
    H = rd.H
    res, g, l = r
    l_, g_ = lib_py.to_sdict(l), lib_py.to_sdict(g)
    lh, gh, num = (lambda v: z(l_.has(z(v)))), (lambda v: z(g_.has(z(v)))), (lambda v: z(zint(l_.get(z(v)))))
    kend = k + 1
    for c in p.state(lh, lh, num, gh, H.cs, H.odd, kend):
        c.prove(it, "post: ")
    ctx.prove("post: no node left can be corrected", p.stuck(lh))
    ctx.prove("post: success exactly when every node is done", z(it.truth(res)) == found(p, lh))


def t_find(it):
    ctx = it.ctx
    p, ins, outs = problem(it, GP)
    q = FL + "find_gflow"
    it.loop_specs[(q, 0)] = Inv(exact={"l": lambda L, k: SDict(lambda v: And(p.O0(z(v)), z(outs.index_of(z(v))) < z(k)), lambda v: z3.IntVal(0))})
    box = []
    warned = []
    LIB["warnings.warn"] = Builtin("warnings.warn", lambda it_, a, k: warned.append(1))

    def aux(it_, a, kw):
        b = bind_params(it, FL + "gflowaux", a, kw)
        pre = "call of gflowaux: "
        O, lh, l, gh, kn = call_check(it, p, b, pre)
        ctx.prove(pre + "round counter", kn >= 1)
        none = ctx.func("none", I, I, B)
        for c in p.state(O, lh, l, gh, none, none, kn):
            c.prove(it, pre)
        R_, kend, res = outcome(it, p)
        ctx.assume(res == found(p, R_.O))
        box.append((R_, kend))
        gd, ld = R_.gdict(), R_.ldict()
        replace_local(it, b["g"], gd)
        replace_local(it, b["l"], ld)
        return (res, gd, ld)

    it.contracts[FL + "gflowaux"] = aux
    ctx.assume(outs.n >= 1)
    r = unwritten(it, "frame: arguments not modified", [ins, outs, p.G], lambda: it.call(it.fn(q), [p.G, ins, outs]))
    ok = isinstance(r, (tuple, VList)) and len(r) == 4
    ctx.prove("post: four results", ok)
    if not ok:
        return
    H, kend = box[0]
    u, w = ctx.int("u"), ctx.int("w")
    if all(x is None for x in r):
        ctx.prove("post: failure leaves a node without correction set", Not(found(p, H.O)))
        ctx.prove("post: failure: no node left can be corrected", p.stuck(H.O))
        return
    f, order, depth, layers = r
    if not isinstance(layers, SDict):
        raise Unsupported("unexpected result")
    lay = lambda v: z(zint(layers.get(z(v))))
    has = lambda v: z(layers.has(z(v)))
    ctx.prove("post: every node has a layer, outputs have layer 0", And(Iff(has(u), p.G.V(u)), Implies(p.O0(u), lay(u) == 0)), assume=False)
    with ctx.scope(And(p.G.V(u), p.G.V(w))):
        ctx.prove("post: the order is that of the layers", z(it.truth(it.call(order, [u, w]))) == (lay(u) > lay(w)), assume=False)
        with ctx.scope(And(Not(p.O0(u)))):
            s = it.call(f, [u])
            ctx.prove("post: a correction vector for every non-output", isinstance(s, SArr))
            i = ctx.int("i")
            ctx.prove("post: the vector found by the search", And(z(s.shape[0]) == H.size(u), Implies(rng(i, s.shape[0]), z(zint(s.get(i, 0))) == H.sol(u, i))), assume=False)
            ctx.prove("post: correction set of non-inputs in strictly later layers", Implies(H.cs(u, w), And(lay(u) > lay(w), z3.Not(p.I0(w)))), assume=False)
            ctx.prove("post: odd neighbourhood is the node itself", Implies(lay(w) >= lay(u), H.odd(u, w) == (u == w)), assume=False)
    ctx.prove("post: layer-by-layer construction", p.exact(has, lay, kend))
    x = z3.Int("x!ex")
    d = z(zint(depth))
    ctx.prove("post: depth is the largest layer", And(Implies(p.G.V(u), lay(u) <= d), z3.Exists([x], z3.And(p.G.V(x), lay(x) == d))), assume=False)


UNITS = [Unit("gflowaux", t_aux, [FL + "gflowaux"]), Unit("find_gflow", t_find, [FL + "find_gflow"])]
ASSUMES = ["the graph is simple and finite; inputs and outputs are lists of distinct nodes, at least one output", "contract of the binary linear solver: proved in C10 for every size"]
