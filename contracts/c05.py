"""C05: measurement orders (mentpy/mbqc/mbqcircuit.py, Flow.__init__ in mentpy/mbqc/flow.py)"""
from .common import *
from .c03 import AGraph, P, replace_local, Clause
from pyvc.lib_nx import SGraph
from pyvc.spec import put
from pyvc.core import multi

MB = "mentpy.mbqc.mbqcircuit."
CK = MB + "_check_measurement_order"


def circuit(it, g, **fields):
    o = Obj(it.fn(MB + "MBQCircuit"))
    o.fields.update(_graph=g, **fields)
    return o


def rel(it, name="before"):
    """an arbitrary relation on node labels, and the callable that decides it"""
    f = it.ctx.func(name, I, I, B)
    return f, HostFn(lambda it_, a, k: f(z(a[0]), z(a[1])))


def strict_order(it, lt, V):
    u, v, w = z3.Ints("u!so v!so w!so")
    it.ctx.assume(z3.ForAll([u], z3.Not(lt(u, u)), patterns=[lt(u, u)]))
    it.ctx.assume(z3.ForAll([u, v, w], z3.Implies(z3.And(lt(u, v), lt(v, w)), lt(u, w)), patterns=[multi(lt(u, v), lt(v, w))]))


def alist(it, name):
    """an arbitrary list of integers, repetitions and strangers included"""
    f = it.ctx.func(name, I, I)
    n = it.ctx.int(name + "_n")
    it.ctx.assume(n >= 0)
    return SSeq(n, lambda k: f(z(k))), f, n


def no_inversion(f, n, lt):
    i, j = z3.Ints("i!ni j!ni")
    return z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < n), z3.Not(lt(f(j), f(i)))))


# ------------------------------------------------------------------ _check_measurement_order


def t_check(it):
    ctx = it.ctx
    s, f, n = alist(it, "order")
    lt, po = rel(it)
    i, j = z3.Ints("i!ck j!ck")
    row = lambda a, upto: z3.ForAll([j], z3.Implies(z3.And(j > z(a), j < z(upto)), z3.Not(lt(f(j), f(z(a))))))
    it.loop_specs[(CK, 0)] = Inv(inv=lambda L, k: [("earlier positions are preceded by no later element", z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < z(k), j > i, j < n), z3.Not(lt(f(j), f(i))))))])
    it.loop_specs[(CK, 1)] = Inv(inv=lambda L, k: [("later elements checked so far do not precede", row(L.v("i"), z(L.v("i")) + 1 + z(k)))])
    r = it.truth(it.call(it.fn(CK), [s, po]))
    ctx.prove("post: accepted exactly when no element precedes an earlier one", Iff(r, no_inversion(f, n, lt)))


def by_contract(it, f, n, lt, s):
    """callers use the contract just proved"""

    def c(it_, a, kw):
        b = it.bind(it.fn(CK), a, kw)
        vals = list(b.values())
        if vals[0] is not s and not (isinstance(vals[0], SSeq) and vals[0].f is s.f and vals[0].n is s.n):
            raise Unsupported("checks another list")
        it.ctx.prove("the order is checked against the partial order", vals[1] is it.po)
        return no_inversion(f, n, lt)

    it.contracts[CK] = c


def t_set(it):
    ctx = it.ctx
    g = AGraph(it)
    s, f, n = alist(it, "order")
    lt, po = rel(it)
    it.po = po
    by_contract(it, f, n, lt, s)
    old = ("old order",)
    has = ctx.choose(2)
    c = circuit(it, g, _partial_order=po if has else None, _measurement_order=old)
    i, v = z3.Ints("i!st v!st")
    ok = And(
        n == g.n,
        z3.ForAll([v], g.V(v) == z3.Exists([i], z3.And(i >= 0, i < n, f(i) == v))),
        no_inversion(f, n, lt) if has else True,
    )
    r = attempt(it, lambda: it.setattr(c, "measurement_order", s))
    if r[0] == "val":
        ctx.prove("post: accepted only if it lists exactly the nodes and contradicts nothing", ok)
        got = it.getattr(c, "measurement_order")
        ctx.prove("post: the accepted order is the one reported", isinstance(got, SSeq) and got.f is s.f and got.n is s.n)
    else:
        ctx.prove("post: rejected only if it misses a node, has a stranger, repeats one or contradicts the order", Not(ok))
        ctx.prove("post: rejection is a ValueError", r[1] == "ValueError")
        ctx.prove("post: rejection keeps the old order", c.fields["_measurement_order"] is old)


# ------------------------------------------------------------------ calculate_order


class ListDict:
    """dictionary number -> list of numbers; `over` are the entries touched since"""

    def __init__(self, has, n, at):
        self.born = birth()
        self.has0, self.n0, self.at0 = has, n, at
        self.over = []

    def has(self, t):
        return Or(self.has0(t), *[z(t) == z(k) for k, _ in self.over])

    def __pyvc_contains__(self, it, t):
        return z(self.has(t))

    def lookup(self, it, t):
        for k, v in self.over:
            if it.ctx.branch(z(t) == z(k)):
                return v
        if not it.ctx.branch(z(self.has0(t))):
            ops.pyraise("KeyError", t)
        v = SSeq(self.n0(z(t)), lambda q: self.at0(z(t), z(q)))
        self.over.append((t, v))
        return v

    def __pyvc_getitem__(self, it, t):
        return self.lookup(it, t)

    def __pyvc_setitem__(self, it, t, v):
        it.write_log(self)
        for n, (k, _) in enumerate(self.over):
            if it.ctx.branch(z(t) == z(k)):
                self.over[n] = (k, v)
                return
        self.over.append((t, v))

    def __pyvc_getattr__(self, it, name):
        if name == "keys":
            return Builtin("keys", lambda it_, a, k: SSet(lambda t: z(self.has(t))))
        if name == "setdefault":
            def f(it_, a, k):
                if not it.ctx.branch(z(self.has(a[0]))):
                    self.__pyvc_setitem__(it, a[0], a[1])
                return self.lookup(it, a[0])

            return Builtin("setdefault", f)
        raise Unsupported("dict." + name)

    def __pyvc_sorted__(self, it):
        return lib_py.sorted_set(it, SSet(lambda t: z(self.has(t))), False)


class Groups:
    """invariant of the grouping loop: entry t lists, in order, the indices below k whose value is t"""

    kind = "for"

    def __init__(self, val, var, cnt, at, prep=None):
        self.val, self.var, self.cnt, self.at, self.prep = val, var, cnt, at, prep

    def bind(self, L):
        L.v(self.var)
        if self.prep:
            self.prep(L)

    def check(self, L, k, phase):
        it, ctx = L.it, L.ctx
        d = L.v(self.var)
        pre = "%s/%s: " % (L.where, phase)
        t = ctx.int("t")
        if isinstance(d, VDict):
            ctx.prove(pre + "starts empty", And(len(d) == 0, z(k) == 0))
            return
        if not isinstance(d, ListDict):
            raise Unsupported("groups are not kept in a dictionary of lists")
        k = z(k)
        if phase == "preserve":
            for o in [t] + [o for o, _ in d.over]:
                ctx.assume(self.cnt(z(o), k) == self.cnt(z(o), z3.simplify(k - 1)) + z3.If(self.val(z3.simplify(k - 1)) == z(o), 1, 0))
                ctx.assume(self.cnt(z(o), z3.simplify(k - 1)) >= 0)
        ctx.prove(pre + "keys are the values seen", Iff(d.has(t), self.cnt(t, k) > 0), assume=False)
        same = [z(t) != z(o) for o, _ in d.over]
        ctx.prove(pre + "other groups unchanged", Implies(And(d.has(t), *same), d.n0(t) == self.cnt(t, k)), assume=False)
        for o, v in d.over:
            ctx.prove(pre + "length of the touched group", z(ops.seq_len(v)) == self.cnt(z(o), k))
            q = ctx.int("q")
            with ctx.scope(And(q >= 0, q < z(ops.seq_len(v)))):
                if ctx.feasible(z3.BoolVal(True)):
                    ctx.prove(pre + "content of the touched group", z(ops.seq_get(v, q)) == self.at(z(o), q))

    def havoc(self, L, k):
        f = L.fr
        while self.var not in f.vars:
            f = f.parent
        k = z(k)
        new = ListDict(lambda t: self.cnt(z(t), k) > 0, lambda t: self.cnt(z(t), k), lambda t, q: self.at(t, q))
        cur = f.vars[self.var]
        if isinstance(cur, VDict) and cur.born <= f.born:
            raise Unsupported("the dictionary is the caller's")
        f.vars[self.var] = new
        L.covered.append(new)

    def enter(self, L, k):
        pass

    def on_break(self, L, k):
        raise Unsupported("break")

    def on_exit(self, L, n):
        pass


def counting(it, val, n):
    """cnt(t,k) = number of i < k with val(i) = t; at(t,q) = the q-th such index"""
    ctx = it.ctx
    cnt, at = ctx.func("count", I, I, I), ctx.func("member", I, I, I)
    t, i, q = z3.Ints("t!ct i!ct q!ct")
    ctx.assume(z3.ForAll([t], cnt(t, 0) == 0, patterns=[cnt(t, 0)]))
    ctx.assume(z3.ForAll([t, i], z3.Implies(i >= 0, cnt(t, i) >= 0), patterns=[cnt(t, i)]))
    ctx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(at(val(i), cnt(val(i), i)) == i, cnt(val(i), i) < cnt(val(i), n), cnt(val(i), i) >= 0)), patterns=[cnt(val(i), i)]))
    ctx.assume(z3.ForAll([t, q], z3.Implies(z3.And(q >= 0, q < cnt(t, n)), z3.And(at(t, q) >= 0, at(t, q) < n, val(at(t, q)) == t, cnt(t, at(t, q)) == q)), patterns=[at(t, q)]))
    # (the recursion cnt(t, i + 1) = cnt(t, i) + [val(i) = t] is instantiated where it is needed)
    ctx.trust("counting: the indices with a given value are enumerated in order by their rank (definition of count/member)")
    return cnt, at


def t_calc(it):
    ctx = it.ctx
    g = SGraph(it)
    lt, po = rel(it)
    strict_order(it, lt, None)
    c = circuit(it, g, _partial_order=po)
    q = MB + "MBQCircuit.calculate_order"
    M = lambda a, b: z3.If(lt(g.node(a), g.node(b)), 1, 0)
    n = g.n
    it.loop_specs[(q, 0)] = Inv(exact={"mat": lambda L, k: SArr((n, n), lambda a, b: z3.If(z(a) < z(k), M(a, b), 0), "i")})
    it.loop_specs[(q, 1)] = Inv(exact={"mat": lambda L, k: SArr((n, n), lambda a, b: z3.If(z3.Or(z(a) < z(L.v("indi")), z3.And(z(a) == z(L.v("indi")), z(b) < z(k))), M(a, b), 0), "i")})
    S = lambda a: ctx.sum(n, lambda b: M(a, b))
    i, a, b = z3.Ints("i!co a!co b!co")
    # the later node comes after strictly fewer nodes
    ia, ib, x, y = ctx.int("i"), ctx.int("j"), ctx.int("x"), ctx.int("y")
    less(it, "lemma: a node that precedes another precedes strictly more nodes", S(ib), S(ia), lt(g.node(ia), g.node(ib)), ib, And(rng(ia, n), rng(ib, n)))
    ctx.assume(z3.ForAll([a, b], z3.Implies(z3.And(a >= 0, a < n, b >= 0, b < n, lt(g.node(a), g.node(b))), S(a) > S(b)), patterns=[lt(g.node(a), g.node(b))]))
    val = ctx.func("row_sum", I, I)
    ctx.define(z3.ForAll([i], val(i) == S(i), patterns=[val(i)]))
    ctx.define(z3.ForAll([i], val(i) == S(i), patterns=[S(i)]))
    cnt, at = counting(it, val, n)

    def prep(L):
        a = L.v("sum_mat")
        if not isinstance(a, SArr) or a.ndim != 1:
            raise Unsupported("sum_mat is not a vector")
        ctx.prove("row sums: one per node", z(a.shape[0]) == n)
        x = ctx.int("row")
        with ctx.scope(rng(x, n)):
            if ctx.feasible(z3.BoolVal(True)) and not z3.eq(z(a.get(x)), z(S(x))):
                if not ctx.sums_equal("row sums: number of nodes that come later", a.get(x), S(x)):
                    ctx.prove("row sums: number of nodes that come later", z(a.get(x)) == z(S(x)))
        ctx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), val(i) == z(a.get(i))), patterns=[z(a.get(i))]))

    lp = Groups(val, "sum_dict", cnt, at, prep)
    it.loop_specs[(q, 2)] = lp
    r = it.call(it.fn(q), [c])
    if not isinstance(r, SSeq):
        raise Unsupported("order is not a list")
    m = r.n
    t, t2 = ctx.int("t"), ctx.int("t2")
    el = lambda k: z(r.f(z(k)))
    ctx.prove("post: every entry is a node", Implies(rng(t, m), g.isnode(el(t))), assume=False)
    fl = getattr(r, "flat", None)
    if fl is None:
        raise Unsupported("order is not built by flattening")
    off, G, Q, T, sub = fl
    gi = lambda k: g.idx(el(k))
    ctx.prove("post: no node twice", Implies(And(rng(t, m), rng(t2, m), t != t2), el(t) != el(t2)), assume=False)
    ctx.prove("post: no node after one it must precede", Implies(And(rng(t, m), rng(t2, m), t < t2), Not(lt(el(t2), el(t)))), assume=False)
    v = ctx.int("v")
    w = ctx.int("w")
    ctx.assume(And(rng(w, n), v == g.node(w)))
    ks = it.sorted_keys
    pos = T(z(ks.index_of(val(w))), cnt(val(w), w))
    ctx.prove("lemma: the rank of a node in its group", And(cnt(val(w), w) >= 0, cnt(val(w), w) < cnt(val(w), n), at(val(w), cnt(val(w), w)) == w))
    ctx.prove("post: every node is listed", And(rng(pos, m), el(pos) == v))


def less(it, name, s, t, hyp, k0, dom):
    """sum lemma: under hyp, summands of s are at most those of t, strictly at k0, so s < t"""
    ctx = it.ctx
    A, Bt = ctx.sum_terms[z(s).get_id()], ctx.sum_terms[z(t).get_id()]
    k = ctx.int("k")
    fa, fb = (lambda u: z3.substitute(A[2], (A[3], u))), (lambda u: z3.substitute(Bt[2], (Bt[3], u)))
    pre = And(dom, hyp)
    ctx.prove(name + "/same range", z(A[1]) == z(Bt[1]))
    ctx.prove(name + "/summands ordered", Implies(And(pre, rng(k, A[1])), fa(k) <= fb(k)), assume=False)
    ctx.prove(name + "/strict somewhere", Implies(pre, And(rng(k0, A[1]), fa(k0) < fb(k0))), assume=False)
    ctx.trust("sum lemma: summands pointwise at most, and one strictly less, give a strictly smaller finite sum (induction over the partial sums)")


# ------------------------------------------------------------------ layers of a flow

FL = "mentpy.mbqc.flow."


def found(it, G, tag):
    """what a successful search returns (C03 / C04): successor, order by layers, depth, layers"""
    ctx = it.ctx
    l = ctx.func("layer" + tag, I, I)
    v = z3.Int("v!ly")
    ctx.assume(z3.ForAll([v], l(v) >= 0, patterns=[l(v)]))
    top = ctx.int("depth" + tag)
    g = ctx.func("succ" + tag, I, I)
    d = SDict(lambda t: G.V(z(t)), lambda t: l(z(t)))
    it.key_index = lib_py.dict_keys(it, d).index_of
    return l, (HostFn(lambda it_, a, k: g(z(a[0]))), HostFn(lambda it_, a, k: l(z(a[0])) > l(z(a[1]))), top, d)


def t_layers(it):
    ctx = it.ctx
    p = P(it)
    G = p.G
    ctx.assume(G.n >= 1)
    ins, outs = sublist(it, "inputs", G), sublist(it, "outputs", G)
    seen = []
    none = (None, None, None, None)

    def search(tag, always=False):
        def c(it_, a, kw):
            qual = FL + tag
            b = list(it.bind(it.fn(qual), a, kw).values())
            ctx.prove(tag + " is asked about this circuit", b[0] is G and b[1] is ins and b[2] is outs)
            if ctx.choose(2):
                return none
            seen.append(found(it, G, "_" + tag))
            return seen[-1][1]

        return c

    it.contracts[FL + "find_cflow"] = search("find_cflow")
    it.contracts[FL + "find_gflow"] = search("find_gflow")
    F = it.call(it.fn(FL + "Flow"), [G, ins, outs])
    get = lambda n: it.getattr(F, n)
    ctx.prove("post: knows its graph, inputs and outputs", get("graph") is G and get("input_nodes") is ins and get("output_nodes") is outs)
    if not seen:
        ctx.prove("post: no flow, no layers", all(get(n) is None for n in ("func", "partial_order", "depth", "layers", "layers_dict", "measurement_order")))
        return
    l, r = seen[0]
    ctx.prove("post: first flow found is kept", len(seen) == 1 and get("func") is r[0] and get("partial_order") is r[1] and get("depth") is r[2] and get("layers_dict") is r[3])
    layers, order = get("layers"), get("measurement_order")
    if not isinstance(layers, SSeq) or not isinstance(order, SSeq):
        raise Unsupported("layers")
    fl = getattr(order, "flat", None)
    if fl is None:
        raise Unsupported("order is not the concatenation of the layers")
    off, row, col, T, sub = fl
    m = z(layers.n)
    top = m - 1
    i, j, q, q2, v, w = (ctx.int(n) for n in ("i", "j", "q", "q2", "v", "w"))
    lay = lambda i, q: z(ops.seq_get(layers.f(z(i)), q))
    size = lambda i: z(ops.seq_len(layers.f(z(i))))
    inl = lambda i, q: And(rng(i, m), rng(q, size(i)))
    u = z3.Int("u!ly")
    ctx.prove("post: as many layers as the highest layer number plus one", And(m >= 1, z3.Exists([u], z3.And(G.V(u), l(u) == top)), z3.ForAll([u], z3.Implies(G.V(u), l(u) <= top))))
    ctx.prove("post: layer i holds nodes of layer number top - i", Implies(inl(i, q), And(G.V(lay(i, q)), l(lay(i, q)) == top - i)), assume=False)
    ctx.prove("post: no node twice in a layer", Implies(And(inl(i, q), inl(i, q2), q != q2), lay(i, q) != lay(i, q2)), assume=False)
    inv = inverse(it, layers, i)
    ctx.prove("post: every node is in its layer", Implies(G.V(v), And(rng(top - l(v), m), inv(top - l(v), v, size, lay))), assume=False)
    t, t2 = ctx.int("t"), ctx.int("t2")
    el = lambda k: z(order.f(z(k)))
    n = z(order.n)
    ctx.prove("post: the order lists nodes", Implies(rng(t, n), G.V(el(t))), assume=False)
    ctx.prove("post: the order lists no node twice", Implies(And(rng(t, n), rng(t2, n), t != t2), el(t) != el(t2)), assume=False)
    ctx.prove("post: the order follows the layers", Implies(And(rng(t, n), rng(t2, n), t < t2), l(el(t)) >= l(el(t2))), assume=False)
    ctx.prove("post: no node after one it must precede", Implies(And(rng(t, n), rng(t2, n), t < t2), Not(it.truth(it.call(get("partial_order"), [el(t2), el(t)])))), assume=False)
    qv = place(it, layers, top - l(v), v)
    pos = T(top - l(v), qv)
    ctx.prove("lemma: place of a node in its layer", Implies(G.V(v), And(rng(top - l(v), m), rng(qv, size(top - l(v))), lay(top - l(v), qv) == v)))
    ctx.prove("post: the order lists every node", Implies(G.V(v), And(rng(pos, n), el(pos) == v)), assume=False)


def place(it, layers, i, v):
    """position of node v in layer i (filtered enumeration of the nodes)"""
    L = layers.f(z(i))
    f = getattr(L, "filtered", None)
    if f is None:
        raise Unsupported("layer is not a filtered list of the nodes")
    sel, inv, keep, s, vc = f
    d = getattr(s, "index_of", None)
    return inv(z(it.key_index(v)))


def inverse(it, layers, i):
    def f(i, v, size, lay):
        q = z3.Int("q!inv")
        p = place(it, layers, i, v)
        return And(rng(p, size(i)), lay(i, p) == z(v))

    return f


# ------------------------------------------------------------------ order with conditions


class DiGraph:
    """directed graph under construction: its edge relation"""

    def __init__(self, E):
        self.born = birth()
        self.E = E

    def __pyvc_getattr__(self, it, name):
        ctx = it.ctx

        def add(it_, a, k):
            it.write_log(self)
            s = it.as_seq(a[0])
            if s is None:
                raise Unsupported("add_edges_from(%r)" % (a[0],))
            if not is_z3(s.n) and s.n == 0:
                return
            old, new = self.E, pairs_of(s)
            self.E = lambda x, y: Or(old(x, y), new(x, y))

        def add1(it_, a, k):
            it.write_log(self)
            old = self.E
            self.E = lambda x, y: Or(old(x, y), And(z(x) == z(a[0]), z(y) == z(a[1])))

        def rem(it_, a, k):
            u, v = a
            if not ctx.branch(z(self.E(u, v))):
                ops.pyraise("Exception", "edge not in graph")
            it.write_log(self)
            old = self.E
            self.E = lambda x, y: And(old(x, y), Not(And(z(x) == z(u), z(y) == z(v))))

        fs = dict(add_edges_from=add, add_edge=add1, remove_edge=rem)
        if name in fs:
            return Builtin("DiGraph." + name, fs[name])
        raise Unsupported("DiGraph." + name)


def pairs_of(s):
    """relation listed by [(u, v) for v in vs] (or with the roles exchanged)"""
    src = getattr(s, "src", None)
    if src is None or getattr(src, "mem", None) is None:
        raise Unsupported("edges are not built from a list with known members")
    q = z3.Int("q!po")
    e, p = src.f(q), s.f(q)
    if not isinstance(p, tuple) or len(p) != 2:
        raise Unsupported("edges are not pairs")
    free = lambda x: not any(c.eq(q) for c in lib_py._consts(z(x)))
    for i in (0, 1):
        if z3.simplify(z(p[i])).eq(z3.simplify(z(e))) and free(p[1 - i]):
            o = p[1 - i]
            return (lambda x, y: And(z(src.mem(z(x))), z(y) == z(o))) if i == 0 else (lambda x, y: And(z(x) == z(o), z(src.mem(z(y)))))
    raise Unsupported("edges are not built from a list with known members")


class Pairs:
    """set of pairs"""

    def __init__(self, T):
        self.T = T

    def __pyvc_set__(self, it):
        return self

    def __pyvc_contains__(self, it, p):
        if not isinstance(p, tuple) or len(p) != 2:
            raise Unsupported("membership of a non pair")
        return z(self.T(z(p[0]), z(p[1])))


class Closure:
    def __init__(self, T):
        self.T = T

    def __pyvc_getattr__(self, it, name):
        if name == "edges":
            return Builtin("edges", lambda it_, a, k: Pairs(self.T))
        if name == "has_edge":
            return Builtin("has_edge", lambda it_, a, k: z(self.T(z(a[0]), z(a[1]))))
        raise Unsupported("closure." + name)


def nx_orders(it, seen):
    """trusted contracts of networkx: acyclicity test and transitive closure"""
    ctx = it.ctx

    def isdag(it_, a, k):
        d = ctx.fresh("acyclic", B)
        seen.append((a[0].E, d))
        ctx.trust("networkx.is_directed_acyclic_graph: true exactly for relations without a cycle")
        return d

    def close(it_, a, k):
        E = a[0].E
        acy = [d for e, d in seen if e is E]
        T = ctx.func("closure", I, I, B)
        x, y, w = z3.Ints("x!tc y!tc w!tc")
        ctx.assume(z3.ForAll([x, y], z3.Implies(z(E(x, y)), T(x, y)), patterns=[T(x, y)]))
        ctx.assume(z3.ForAll([x, y, w], z3.Implies(z3.And(T(x, y), T(y, w)), T(x, w)), patterns=[multi(T(x, y), T(y, w))]))
        if not acy or not ctx.valid(acy[-1]):
            raise Unsupported("transitive closure of a graph not known to be acyclic")
        ctx.assume(z3.ForAll([x], z3.Not(T(x, x)), patterns=[T(x, x)]))
        ctx.trust("networkx.transitive_closure_dag: a transitive relation containing the edges of an acyclic graph, irreflexive")
        return Closure(T)

    it.libs = dict(LIB)
    LIB["networkx.DiGraph"] = Builtin("networkx.DiGraph", lambda it_, a, k: DiGraph(lambda x, y: z3.BoolVal(False)))
    LIB["networkx.is_directed_acyclic_graph"] = Builtin("is_dag", isdag)
    LIB["networkx.transitive_closure_dag"] = Builtin("closure", close)


class EdgesLoop:
    """invariant: the edges of the digraph `var` are those the items handled so far contribute"""

    kind = "for"

    def __init__(self, var, base, of):
        self.var, self.base, self.of = var, base, of  # base(L): relation at entry; of(L,k): relation of the first k items

    def bind(self, L):
        d = L.v(self.var)
        if not isinstance(d, DiGraph):
            raise Unsupported("edges are not collected in a DiGraph")
        if getattr(L.seq, "index_of", None) is None:
            raise Unsupported("loop over something else than a list of nodes")
        self.E0 = d.E

    def rel(self, L, k):
        return lambda x, y: Or(self.E0(x, y), self.of(L, k)(z(x), z(y)))

    def check(self, L, k, phase):
        d = L.v(self.var)
        x, y = L.ctx.int("x"), L.ctx.int("y")
        L.ctx.prove("%s/%s: edges contributed so far" % (L.where, phase), Iff(d.E(x, y), self.rel(L, k)(x, y)), assume=False)

    def havoc(self, L, k):
        d = L.v(self.var)
        d.E = self.rel(L, k)
        L.covered.append(d)

    def enter(self, L, k):
        pass

    def on_break(self, L, k):
        raise Unsupported("break")

    def on_exit(self, L, n):
        pass


class Cond:
    def __init__(self, C, c):
        self.C, self.c = C, c

    def __pyvc_getattr__(self, it, name):
        if name == "cond_nodes":
            if it.ctx.branch(self.C.hasnodes(z(self.c))):
                return SSet(lambda t: self.C.needs(z(self.c), z(t)))
            ops.pyraise("AttributeError", name)
        raise Unsupported("condition." + name)


class CM:
    def __init__(self, C, c):
        self.C, self.c = C, c

    def __pyvc_getattr__(self, it, name):
        if name == "condition":
            return Cond(self.C, self.c)
        raise Unsupported("measurement." + name)


class Conds:
    """measurements by node, as far as the order needs them"""

    def __init__(self, it):
        self.hasnodes, self.needs = it.ctx.func("has_cond_nodes", I, B), it.ctx.func("depends_on", I, I, B)

    def __pyvc_getitem__(self, it, c):
        return CM(self, c)


def t_conds(it):
    ctx = it.ctx
    g = AGraph(it)
    C = Conds(it)
    seen = []
    nx_orders(it, seen)
    outc, ctl = sublist(it, "outputc", g), sublist(it, "controlled", g)
    F = ctx.func("succ", I, I)
    v = z3.Int("v!uc")
    # flow of the circuit: u is a neighbour of its successor (C03)
    ctx.assume(z3.ForAll([v], z3.Implies(z(outc.mem(v)), g.E(F(v), v)), patterns=[F(v)]))
    lt, po = rel(it)
    hasflow = ctx.choose(2)
    old = ("old",)
    c = circuit(it, g, _flow=HostFn(lambda it_, a, k: F(z(a[0]))), _flow_partial_order=po if hasflow else None, _partial_order=old, _controlled_nodes=ctl, _measurements=C, outputc=outc, _output_nodes=("unused",))
    q = MB + "MBQCircuit._update_partial_order"
    flow_edges = lambda x, y: And(z(outc.mem(x)), y != x, Or(y == F(x), g.E(F(x), y)))
    cond_edges = lambda x, y: And(z(ctl.mem(y)), C.hasnodes(y), C.needs(y, x))
    it.loop_specs[(q, 0)] = EdgesLoop("before", None, lambda L, k: lambda x, y: And(flow_edges(x, y), z(L.seq.index_of(x)) < z(k)))
    it.loop_specs[(q, 1)] = EdgesLoop("before", None, lambda L, k: lambda x, y: And(cond_edges(x, y), z(L.seq.index_of(y)) < z(k)))
    r = attempt(it, lambda: it.call(it.fn(q), [c]))
    now = c.fields["_partial_order"]
    x, y, w = ctx.int("x"), ctx.int("y"), ctx.int("w")
    want = lambda a, b: Or(flow_edges(a, b), cond_edges(a, b))
    if seen:
        ctx.prove("post: acyclicity is asked of exactly the relation of flow and conditions", Iff(seen[-1][0](x, y), want(x, y)), assume=False)
    if r[0] == "exc":
        ctx.prove("post: rejected only with a ValueError, for a cyclic dependency", And(r[1] == "ValueError", bool(seen), Not(seen[-1][1]) if seen else False))
        ctx.prove("post: rejection keeps the order", now is old)
        return
    if not hasflow:
        ctx.prove("post: no flow, no order", now is None)
        return
    if now is po:
        ctx.prove("post: the flow's order only without controlled nodes", z(ops.seq_len(ctl)) == 0)
        return
    T = lambda a, b: it.truth(it.call(now, [a, b]))
    ctx.prove("post: conditions accepted only if acyclic", seen[-1][1] if seen else False)
    ctx.prove("post: a node precedes its successor and the other neighbours of the successor", Implies(flow_edges(x, y), T(x, y)), assume=False)
    ctx.prove("post: a controlled node comes after every node its condition depends on", Implies(cond_edges(x, y), T(x, y)), assume=False)
    ctx.prove("post: the order is irreflexive", Not(T(x, x)), assume=False)
    ctx.prove("post: the order is transitive", Implies(And(T(x, y), T(y, w)), T(x, w)), assume=False)


def t_compl(it):
    ctx = it.ctx
    g = SGraph(it)
    ins, outs = sublist(it, "inputs", g), sublist(it, "outputs", g)
    c = circuit(it, g, _input_nodes=ins, _output_nodes=outs)
    v = ctx.int("v")
    i = z3.Int("i!cp")
    for name, s in (("outputc", outs), ("inputc", ins)):
        r = it.getattr(c, name)
        m = z(ops.seq_len(r))
        a, b = ctx.int("a"), ctx.int("b")
        el = lambda k: z(ops.seq_get(r, k))
        ctx.prove("post: %s lists nodes that are not in the list" % name, Implies(rng(a, m), And(g.isnode(el(a)), Not(s.mem(el(a))))), assume=False)
        ctx.prove("post: %s lists no node twice and keeps the order of the nodes" % name, Implies(And(rng(a, m), rng(b, m), a < b), z(g.idx(el(a))) < z(g.idx(el(b)))), assume=False)
        f = getattr(r, "filtered", None)
        p = f[1](g.idx(v)) if f else g.idx(v)
        ctx.prove("post: %s misses none" % name, Implies(And(g.isnode(v), Not(s.mem(v))), And(rng(p, m), el(p) == v)), assume=False)


UNITS = [
    Unit("_check_measurement_order: accepts exactly the lists without inversion", t_check, [CK]),
    Unit("measurement_order setter: succeeds exactly on permutations without contradiction", t_set, [MB + "MBQCircuit.measurement_order"]),
    Unit("calculate_order: a linear extension of every strict partial order", t_calc, [MB + "MBQCircuit.calculate_order"]),
    Unit("Flow: layers partition the nodes by layer number, the order concatenates them", t_layers, [FL + "Flow.__init__", FL + "Flow.find_flow"]),
    Unit("_update_partial_order: flow order extended by the conditions", t_conds, [MB + "MBQCircuit._update_partial_order"]),
    Unit("outputc, inputc: the complements in node order", t_compl, [MB + "MBQCircuit.outputc", MB + "MBQCircuit.inputc"]),
]
