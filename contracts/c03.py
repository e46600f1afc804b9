"""C03: causal flow search (mentpy/mbqc/flow.py: find_cflow, causal_flow_aux)"""
from .common import *
from pyvc.lib_nx import SGraph
from pyvc.spec import put

FL = "mentpy.mbqc.flow."


class AGraph(SGraph):
    """arbitrary finite simple graph; membership and adjacency as predicates"""

    def __init__(self, it, name="g"):
        ctx = self.ctx = it.ctx
        self.it = it
        self.n = ctx.int(name + "_n")
        N, X = ctx.func(name + "_node", I, I), ctx.func(name + "_idx", I, I)
        self.V, self.E = ctx.func(name + "_isnode", I, B), ctx.func(name + "_adj", I, I, B)
        i, u, v = z3.Ints("i!g u!g v!g")
        V, Ed = self.V, self.E
        ctx.assume(self.n >= 0)
        ctx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < self.n), z3.And(V(N(i)), X(N(i)) == i)), patterns=[N(i)]))
        ctx.assume(z3.ForAll([v], z3.Implies(V(v), z3.And(X(v) >= 0, X(v) < self.n, N(X(v)) == v)), patterns=[X(v)]))
        ctx.assume(z3.ForAll([u, v], z3.Implies(Ed(u, v), z3.And(Ed(v, u), V(u), V(v), u != v)), patterns=[Ed(u, v)]))
        self.node, self.idx = (lambda k: N(z(k))), (lambda v: X(z(v)))
        self.isnode = lambda v: V(z(v))
        self.adj = lambda u, v: Ed(z(u), z(v))


def card(it, name, mem, pat):
    """K(w) = number of x with mem(w, x)"""
    ctx = it.ctx
    K, a, b = ctx.func(name, I, I), ctx.func(name + "_a", I, I), ctx.func(name + "_b", I, I)
    w, x = z3.Ints("w!c x!c")
    m = lambda p, q: z(mem(p, q))
    ctx.assume(z3.ForAll([w], z3.And(K(w) >= 0, z3.Implies(K(w) >= 1, m(w, a(w))), z3.Implies(K(w) >= 2, z3.And(m(w, b(w)), a(w) != b(w)))), patterns=[K(w)]))
    ctx.assume(z3.ForAll([w, x], z3.Implies(m(w, x), z3.And(K(w) >= 1, z3.Implies(K(w) == 1, x == a(w)))), patterns=[multi(K(w), pat(w, x))]))
    ctx.trust("cardinality of a finite set: 0 iff empty, 1 iff exactly one element")
    return K


class W:
    """the mathematical state: O (nodes done), g, l, past, K(w) = |N(w) \\ O|"""

    def __init__(self, it, G, tag):
        c = it.ctx
        self.O, self.gh, self.g, self.l, self.p = c.func("done" + tag, I, B), c.func("has_succ" + tag, I, B), c.func("succ" + tag, I, I), c.func("layer" + tag, I, I), c.func("past" + tag, I, I)
        self.C = c.func("next" + tag, I, B)
        self.K = card(it, "count" + tag, lambda w, x: z3.And(G.E(w, x), z3.Not(self.O(x))), lambda w, x: G.E(w, x))


MARK = z3.Function("index", I, B)  # true everywhere (see P); names the index of a layer in proofs


def mark(j):
    return MARK(z(j))


class Clause:
    """for all variables: formula (proved for fresh ones, assumed with a pattern)"""

    def __init__(self, name, n, f, pat=None):
        self.name, self.n, self.f, self.pat = name, n, f, pat

    def prove(self, it, pre):
        vs = [it.ctx.int("v") for _ in range(self.n)]
        it.ctx.prove(pre + self.name, self.f(*vs), assume=False)

    def assume(self, it):
        vs = [z3.Int("q%d!cl" % i) for i in range(self.n)]
        f = z(self.f(*vs))
        if not vs:
            it.ctx.assume(f)
        elif self.pat:
            pats = [t for t in self.pat(*vs) if pattern_ok(t)]
            it.ctx.assume(z3.ForAll(vs, f, patterns=pats) if pats else z3.ForAll(vs, f))
        else:
            it.ctx.assume(z3.ForAll(vs, f))


def pattern_ok(t):
    if isinstance(t, z3.PatternRef):
        return True
    if t.sort() == B and not is_app(t):
        return False
    return not (z3.is_app_of(t, z3.Z3_OP_ITE)) and all(pattern_ok(c) for c in t.children())


class P:
    """the problem: graph, inputs, outputs"""

    def __init__(self, it):
        ctx = self.ctx = it.ctx
        self.it = it
        self.G = AGraph(it)
        self.I0, self.O0 = ctx.func("is_input", I, B), ctx.func("is_output", I, B)
        v = z3.Int("v!p")
        ctx.assume(z3.ForAll([v], MARK(v), patterns=[MARK(v)]))
        ctx.assume(z3.ForAll([v], z3.Implies(z3.Or(self.I0(v), self.O0(v)), self.G.V(v)), patterns=[multi(self.I0(v)), multi(self.O0(v))]))

    def sound(self, O, gh, g, l, k):
        """what holds of the part of the flow built so far; layers below k are complete"""
        G, V, Ed, I0, O0 = self.G, self.G.V, self.G.E, self.I0, self.O0
        x = z3.Int("x!ex")
        return [
            Clause("done nodes are nodes", 1, lambda v: Implies(O(v), V(v)), lambda v: [O(v)]),
            Clause("outputs are done", 1, lambda v: Implies(O0(v), O(v)), lambda v: [O(v), O0(v)]),
            Clause("successor defined on done non-outputs", 1, lambda v: Iff(gh(v), And(O(v), Not(O0(v)))), lambda v: [gh(v), O(v)] if is_app(gh(v)) else [O(v)]),
            Clause("successor is a non-input neighbour of an earlier layer", 1, lambda v: Implies(gh(v), And(Ed(v, g(v)), Not(I0(g(v))), O(g(v)), l(v) >= 1, l(g(v)) < l(v))), lambda v: [g(v)]),
            Clause("other neighbours of the successor are done and in earlier layers", 2, lambda v, w: Implies(And(gh(v), Ed(g(v), w), w != v), And(O(w), l(w) < l(v))), lambda v, w: [Ed(g(v), w)]),
            Clause("distinct successors", 2, lambda v, w: Implies(And(gh(v), gh(w), g(v) == g(w)), v == w), lambda v, w: [multi(g(v), g(w))]),
            Clause("layer 0 without successor", 1, lambda v: Implies(And(V(v), Not(gh(v))), l(v) == 0), lambda v: [l(v)]),
            Clause("no gap in the layers", 2, lambda v, j: Implies(And(mark(j), gh(v), z(j) >= 1, z(j) <= l(v)), z3.Exists([x], z3.And(z(gh(x)), z(l(x)) == j))), lambda v, j: [multi(l(v), mark(j))]),
        ]

    def layers(self, gh, l, k):
        x = z3.Int("x!ex")
        return [
            Clause("layers below the current one", 1, lambda v: Implies(gh(v), l(v) < z(k)), lambda v: [l(v)]),
            Clause("layers so far are not empty", 1, lambda j: Implies(And(mark(j), z(j) >= 1, z(j) < z(k)), z3.Exists([x], z3.And(z(gh(x)), z(l(x)) == j))), lambda j: [mark(j)]),
        ]

    def counts(self, O, p, K):
        V, I0 = self.G.V, self.I0
        return [Clause("past counts the neighbours not done", 1, lambda v: Implies(V(v), p(v) == ite(And(O(v), Not(I0(v))), K(v), z3.IntVal(0))), lambda v: [p(v)])]

    def stuck(self, O, K):
        return [Clause("no node can correct another", 1, lambda v: Implies(And(O(v), Not(self.I0(v))), K(v) != 1), lambda v: [K(v)])]

    def todo(self, O, K, C):
        I0 = self.I0
        return [
            Clause("candidates are done, no inputs, with at most one neighbour left", 1, lambda v: Implies(C(v), And(O(v), Not(I0(v)), K(v) <= 1)), lambda v: [K(v)]),
            Clause("every node with one neighbour left is a candidate", 1, lambda v: Implies(And(O(v), Not(I0(v)), K(v) == 1), C(v)), lambda v: [K(v)]),
        ]


def is_app(t):
    return z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED


class Fields:
    """current program objects of one run of the search"""

    def __init__(self, P, g, l, past, outputs):
        self.P = P
        self.g, self.l, self.past, self.outputs = g, l, past, outputs

    def views(self):
        for d in (self.g, self.l, self.past):
            if not isinstance(d, (SDict, VDict)):
                raise Unsupported("dictionary expected")
        if not isinstance(self.outputs, (SSet, VSet)):
            raise Unsupported("set expected")
        g, l, p = lib_py.to_sdict(self.g), lib_py.to_sdict(self.l), lib_py.to_sdict(self.past)
        num = lambda d: lambda v: z(zint(d.get(z(v)))) if not isinstance(d.get(z(v)), Opaque) else z3.IntVal(0)
        mem = lib_py.mem_of(self.outputs)
        return (lambda v: z(mem(z(v)))), (lambda v: z(g.has(z(v)))), num(g), num(l), num(p), (lambda v: z(l.has(z(v)))), (lambda v: z(p.has(z(v))))


def total(it, P, pre, lh, ph):
    v = it.ctx.int("v")
    it.ctx.prove(pre + "layers for exactly the nodes", Iff(lh(v), P.G.V(v)), assume=False)
    it.ctx.prove(pre + "counts for exactly the nodes", Iff(ph(v), P.G.V(v)), assume=False)


def new_counts(it, P, where, O, K, O2, u):
    """counts for O2 = O + {u} (u None: O2 = O), each step an obligation"""
    ctx = it.ctx
    x = ctx.int("x")
    if u is None:
        ctx.prove(where + "no node became done", O2(x) == O(x), assume=False)
    else:
        ctx.prove(where + "exactly one node became done", And(Not(O(u)), Iff(O2(x), Or(O(x), x == u))), assume=False)
    K2 = card(it, "count_new", lambda w, y: z3.And(P.G.E(w, y), z3.Not(z(O2(y)))), lambda w, y: P.G.E(w, y))
    w = z3.Int("w!k")
    if u is None:
        ctx.assume(z3.ForAll([w], K2(w) == K(w), patterns=[K2(w)]))
    else:
        ctx.assume(z3.ForAll([w], K2(w) == K(w) - z3.If(P.G.E(w, u), 1, 0), patterns=[K2(w)]))
        ctx.trust("cardinality: removing an element of a finite set lowers its size by one, removing a non-element leaves it")
    # cardinalities the program computed
    for c, mem in it.cards:
        for v in ([u] if u is not None else []):
            if ctx.valid(z(mem(x)) == z3.And(P.G.E(v, x), z3.Not(z(O2(x)))), 500):
                ctx.assume(c == K2(v))
    return K2


class Round:
    """one round of the search: candidates of C processed so far"""

    kind = "for"

    def __init__(self, p, S, C, k, names):
        self.p, self.S, self.C, self.k, self.names = p, S, C, k, names

    def bind(self, L):
        if L.seq is None or getattr(L.seq, "of_set", None) is None and not hasattr(L.seq, "mem"):
            pass
        for n in self.names.values():
            L.v(n)

    def parts(self, L):
        n = self.names
        f = Fields(self.p, L.v(n["g"]), L.v(n["l"]), L.v(n["past"]), L.v(n["outputs"]))
        Cn = L.v("C_prime")
        if not isinstance(Cn, (SSet, VSet)):
            raise Unsupported("C_prime is not a set")
        m = lib_py.mem_of(Cn)
        return f, (lambda v: z(m(z(v))))

    def clauses(self, O, gh, g, l, p, K, Cn, j):
        P, S, k = self.p, self.S, self.k
        x = z3.Int("x!ex")
        pos = self.pos
        return (
            P.sound(O, gh, g, l, k + 1)
            + P.counts(O, p, K)
            + [
                Clause("layers up to the current one", 1, lambda v: Implies(gh(v), l(v) <= k), lambda v: [l(v)]),
                Clause("nodes done before stay", 1, lambda v: Implies(S.O(v), And(O(v), l(v) == S.l(v))), lambda v: [S.O(v)]),
                Clause("new nodes have the current layer", 1, lambda v: Implies(And(O(v), Not(S.O(v))), l(v) == k), lambda v: [O(v)]),
                Clause("new candidates are done, no inputs, with at most one neighbour left", 1, lambda v: Implies(Cn(v), And(O(v), Not(P.I0(v)), K(v) <= 1)), lambda v: [K(v)]),
                Clause("nodes with one neighbour left are candidates", 1, lambda v: Implies(And(O(v), Not(P.I0(v)), K(v) == 1), Or(Cn(v), And(self.C(v), pos(v) >= z(j)))), lambda v: [K(v)]),
                Clause("new candidates only after progress", 1, lambda v: Implies(Cn(v), z3.Exists([x], z3.And(z(O(x)), z3.Not(S.O(x))))), None),
            ]
        )

    def find_pos(self, L):
        s = getattr(L.seq, "base", L.seq)
        if getattr(s, "index_of", None) is None:
            raise Unsupported("the round does not range over the candidate set")
        self.pos = lambda v: z(s.index_of(z(v)))
        v = L.ctx.int("v")
        if not L.ctx.valid(z(s.mem(v)) == self.C(v)):
            raise Unsupported("the round does not range over the candidate set")

    def check(self, L, j, phase):
        it, P, S = L.it, self.p, self.S
        self.find_pos(L)
        f, Cn = self.parts(L)
        O, gh, g, l, p, lh, ph = f.views()
        pre = "%s/%s: " % (L.where, phase)
        if phase == "init":
            K = S.K
            x = it.ctx.int("x")
            it.ctx.prove(pre + "starts from the given state", O(x) == S.O(x), assume=False)
        else:
            H = self.H
            u = self.added(L, O, H.O)
            K = new_counts(it, P, pre, H.O, H.K, O, u)
        total(it, P, pre, lh, ph)
        for c in self.clauses(O, gh, g, l, p, K, Cn, j):
            c.prove(it, pre)

    def added(self, L, O, O1):
        """the node added in this iteration, if any"""
        x = L.ctx.int("x")
        if z3.simplify(O(x)).eq(z3.simplify(O1(x))):
            return None
        for n, v in L.fr.vars.items():
            if is_z3(v) and v.sort() == I and L.ctx.valid(z3.And(O(v), z3.Not(O1(v))), 1000):
                return v
        raise Unsupported("no added node found")

    def havoc(self, L, j):
        it, P = L.it, self.p
        self.find_pos(L)
        H = self.H = W(it, P.G, "_r")
        n = self.names
        put(L, n["g"], SDict(lambda v: H.gh(z(v)), lambda v: H.g(z(v))))
        put(L, n["l"], SDict(lambda v: P.G.V(z(v)), lambda v: H.l(z(v))))
        put(L, n["past"], SDict(lambda v: P.G.V(z(v)), lambda v: H.p(z(v))))
        put(L, n["outputs"], SSet(lambda v: H.O(z(v))))
        put(L, "C_prime", SSet(lambda v: H.C(z(v))))
        for c in self.clauses(H.O, H.gh, H.g, H.l, H.p, H.K, H.C, j):
            c.assume(it)

    def enter(self, L, k):
        pass

    def on_break(self, L, k):
        raise Unsupported("break")

    def on_exit(self, L, n):
        pass


def bind_params(it, qual, a, kw):
    f = it.fn(qual)
    return it.bind(f, a, kw)


def t_aux(it):
    ctx = it.ctx
    p = P(it)
    S = W(it, p.G, "")
    k = ctx.int("k")
    ctx.assume(k >= 1)
    for c in p.sound(S.O, S.gh, S.g, S.l, k) + p.layers(S.gh, S.l, k) + p.counts(S.O, S.p, S.K) + p.todo(S.O, S.K, S.C):
        c.assume(it)
    q = FL + "causal_flow_aux"
    g, l, past = SDict(lambda v: S.gh(z(v)), lambda v: S.g(z(v))), SDict(lambda v: p.G.V(z(v)), lambda v: S.l(z(v))), SDict(lambda v: p.G.V(z(v)), lambda v: S.p(z(v)))
    inputs, outputs, C = SSet(lambda v: p.I0(z(v))), SSet(lambda v: S.O(z(v))), SSet(lambda v: S.C(z(v)))
    names = dict(g="g", l="l", past="past", outputs="outputs")
    rd = Round(p, S, S.C, k, names)
    it.loop_specs[(q, 0)] = rd

    def old(L, n):
        return lib_py.to_sdict(L.snap[n]) if isinstance(L.snap[n], (SDict, VDict)) else SSet(lib_py.mem_of(L.snap[n]))

    def bind2(L):
        for n in ("past", "C_prime"):
            v = L.v(n)
            L.snap[n] = SDict(v.has, v.get) if isinstance(v, SDict) else SSet(v.mem) if isinstance(v, SSet) else v
        if getattr(L.seq, "index_of", None) is None:
            raise Unsupported("inner loop does not range over a set")

    done = lambda L, kk: lambda v: And(z(L.seq.mem(z(v))), z(L.seq.index_of(z(v))) < z(kk))

    def mkpast(L, kk):
        o, d = old(L, "past"), done(L, kk)
        return SDict(o.has, lambda v: z3.If(z(And(d(v), z(o.get(v)) > 0)), z(o.get(v)) - 1, z(o.get(v))))

    def mkC(L, kk):
        o, c, d = old(L, "past"), old(L, "C_prime"), done(L, kk)
        return SSet(lambda v: Or(c.mem(v), And(d(v), z(o.get(v)) == 2)))

    it.loop_specs[(q, 1)] = Inv(exact={"past": mkpast, "C_prime": mkC}, bind=bind2)
    box = []

    def rec(it_, a, kw):
        # the recursive call, by contract
        b = bind_params(it, q, a, kw)
        pre = "recursive call: "
        if not all(n in b for n in ("graph", "inputs", "outputs", "C", "past", "k", "g", "l")):
            raise Unsupported("parameters of causal_flow_aux changed")
        ctx.prove(pre + "same graph", b["graph"] is p.G)
        O, gh, gg, ll, pp, lh, ph = Fields(p, b["g"], b["l"], b["past"], b["outputs"]).views()
        x = ctx.int("x")
        mi, mc = lib_py.mem_of(b["inputs"]), lib_py.mem_of(b["C"])
        ctx.prove(pre + "same inputs", z(mi(x)) == p.I0(x), assume=False)
        total(it, p, pre, lh, ph)
        K = rd.H.K
        ctx.prove(pre + "done nodes unchanged since the round", O(x) == rd.H.O(x), assume=False)
        kn = z(b["k"])
        for c in p.sound(O, gh, gg, ll, kn) + p.layers(gh, ll, kn) + p.counts(O, pp, K) + p.todo(O, K, lambda v: z(mc(z(v)))):
            c.prove(it, pre)
        ctx.prove(pre + "round counter positive", kn >= 1)
        y = z3.Int("y!ex")
        ctx.prove(pre + "progress (termination)", z3.Exists([y], z3.And(z(O(y)), z3.Not(S.O(y)))))
        R_ = W(it, p.G, "_end")
        for c in p.sound(R_.O, R_.gh, R_.g, R_.l, None) + p.stuck(R_.O, R_.K):
            c.assume(it)
        box.append(R_)
        return (SDict(lambda v: R_.gh(z(v)), lambda v: R_.g(z(v))), SDict(lambda v: p.G.V(z(v)), lambda v: R_.l(z(v))))

    it.contracts[q] = rec
    r = it.call_fn(it.fn(q), [p.G, inputs, outputs, C, past, k, g, l], {})
    ctx.prove("post: returns the flow and the layers", isinstance(r, tuple) and len(r) == 2 and all(isinstance(d, SDict) for d in r))
    if box:
        H = box[0]
    else:
        H = rd.H
        for c in p.stuck(H.O, H.K):
            c.prove(it, "post: ")
    gd, ld = r
    v = ctx.int("v")
    num = lambda d: lambda v: z(zint(d.get(z(v))))
    ctx.prove("post: layers for exactly the nodes", Iff(ld.has(v), p.G.V(v)))
    for c in p.sound(H.O, lambda v: z(gd.has(z(v))), num(gd), num(ld), None):
        c.prove(it, "post: ")



def replace_local(it, old, new):
    """an empty dict / set built by the caller becomes symbolic: rebind its names"""
    if isinstance(old, (SDict, SSet)):
        it.write_log(old)
        if isinstance(old, SDict):
            old.has, old.get, old.keys = new.has, new.get, None
        else:
            old.mem, old.card, old.prov = new.mem, None, None
        return
    for fr in it.frames:
        while fr is not None:
            for n, v in fr.vars.items():
                if v is old:
                    fr.vars[n] = new
                elif isinstance(v, (VList, tuple)) and any(x is old for x in v):
                    raise Unsupported("the dictionary is shared")
            fr = fr.parent


def problem(it, kind=P):
    """lists of inputs and outputs (distinct nodes), of any sizes"""
    p = kind(it)
    ins, outs = sublist(it, "inputs", p.G), sublist(it, "outputs", p.G)
    v = z3.Int("v!io")
    it.ctx.assume(z3.ForAll([v], p.I0(v) == z(ins.mem(v)), patterns=[p.I0(v)]))
    it.ctx.assume(z3.ForAll([v], p.O0(v) == z(outs.mem(v)), patterns=[p.O0(v)]))
    return p, ins, outs


def t_size(it):
    p, ins, outs = problem(it)
    it.ctx.assume(ins.n != outs.n)
    must_raise(it, "post: different numbers of inputs and outputs rejected", lambda: it.call(it.fn(FL + "find_cflow"), [p.G, ins, outs]), "ValueError")


def t_find(it):
    ctx = it.ctx
    p, ins, outs = problem(it)
    G = p.G
    ctx.assume(ins.n == outs.n)
    K0 = card(it, "count0", lambda w, x: z3.And(G.E(w, x), z3.Not(p.O0(x))), lambda w, x: G.E(w, x))
    q = FL + "find_cflow"
    zero = lambda L, k: SDict(lambda v: And(G.V(z(v)), G.idx(v) < z(k)), lambda v: z3.IntVal(0))
    it.loop_specs[(q, 0)] = Inv(exact={"l": zero, "past": zero})
    free = lambda v: And(p.O0(z(v)), Not(p.I0(z(v))))

    def links(L, k, phase):
        # cardinalities computed by the program are those of K0 (same sets)
        x = ctx.int("x")
        for c, mem in it.cards:
            for v in [t for t in L.fr.vars.values() if is_z3(t) and t.sort() == I]:
                if ctx.valid(z(mem(x)) == z3.And(G.E(v, x), z3.Not(p.O0(x))), 500):
                    ctx.assume(c == K0(v))

    def done(L, k):
        if getattr(L.seq, "index_of", None) is None:
            raise Unsupported("the loop does not range over a set")
        return lambda v: And(L.seq.mem(z(v)), L.seq.index_of(z(v)) < z(k))

    it.loop_specs[(q, 1)] = Inv(
        exact={
            "past": lambda L, k: SDict(lambda v: G.V(z(v)), lambda v: ite(z(And(free(v), done(L, k)(v))), K0(z(v)), z3.IntVal(0))),
            "C_set": lambda L, k: SSet(lambda v: And(free(v), done(L, k)(v), K0(z(v)) == 1)),
        },
        lemma=links,
    )
    H = []

    def aux(it_, a, kw):
        b = bind_params(it, FL + "causal_flow_aux", a, kw)
        pre = "call of causal_flow_aux: "
        if not all(n in b for n in ("graph", "inputs", "outputs", "C", "past", "k", "g", "l")):
            raise Unsupported("parameters of causal_flow_aux changed")
        ctx.prove(pre + "same graph", b["graph"] is G)
        O, gh, gg, ll, pp, lh, ph = Fields(p, b["g"], b["l"], b["past"], b["outputs"]).views()
        x = ctx.int("x")
        mi, mc = lib_py.mem_of(b["inputs"]), lib_py.mem_of(b["C"])
        ctx.prove(pre + "inputs", z(mi(x)) == p.I0(x), assume=False)
        total(it, p, pre, lh, ph)
        ctx.prove(pre + "outputs are done", O(x) == p.O0(x), assume=False)
        kn = z(b["k"])
        for c in p.sound(O, gh, gg, ll, kn) + p.layers(gh, ll, kn) + p.counts(O, pp, K0) + p.todo(O, K0, lambda v: z(mc(z(v)))):
            c.prove(it, pre)
        ctx.prove(pre + "round counter positive", kn >= 1)
        R_ = W(it, G, "_end")
        for c in p.sound(R_.O, R_.gh, R_.g, R_.l, None) + p.stuck(R_.O, R_.K):
            c.assume(it)
        H.append(R_)
        gd, ld = SDict(lambda v: R_.gh(z(v)), lambda v: R_.g(z(v))), SDict(lambda v: G.V(z(v)), lambda v: R_.l(z(v)))
        c, w = ctx.int("flow_size"), z3.Int("w!fs")
        # size of the set of done non-outputs against n - m: obligations of the lemma first
        ctx.prove(pre + "flow domain is a set of non-outputs", Implies(R_.gh(x), And(G.V(x), Not(p.O0(x)))), assume=False)
        t = z3.Int("missing!" + ctx.uid("w"))
        ctx.assume(And(c >= 0, c <= G.n - outs.n))
        ctx.assume(z3.Implies(c == G.n - outs.n, z3.ForAll([w], z3.Implies(z3.And(G.V(w), z3.Not(p.O0(w))), R_.gh(w)), patterns=[G.V(w)])))
        ctx.assume(z3.Implies(c != G.n - outs.n, z3.And(G.V(t), z3.Not(p.O0(t)), z3.Not(R_.gh(t)))))
        ctx.trust("cardinality: a set of nodes outside the (distinct) outputs has at most n - m elements, and exactly n - m iff it is all of them")
        gd.length = lambda d: c
        replace_local(it, b["g"], gd)
        replace_local(it, b["l"], ld)
        p1, o1 = ctx.func("past_left", I, I), ctx.func("outputs_left", I, B)
        replace_local(it, b["past"], SDict(lambda v: G.V(z(v)), lambda v: p1(z(v))))
        replace_local(it, b["outputs"], SSet(lambda v: o1(z(v))))
        return gd, ld

    it.contracts[FL + "causal_flow_aux"] = aux
    r = unwritten(it, "frame: arguments not modified", [ins, outs, G], lambda: it.call(it.fn(q), [G, ins, outs]))
    ok = isinstance(r, (tuple, VList)) and len(r) == 4
    ctx.prove("post: four results", ok)
    if not ok:
        return
    if all(x is None for x in r):
        if not H:
            raise Unsupported("no search made")
        S = H[0]
        # a hypothetical causal flow (successor fs, layers ls) contradicts the stuck search
        fs, ls = ctx.func("any_flow", I, I), ctx.func("any_layer", I, I)
        v, w = z3.Ints("v!hf w!hf")
        dom = lambda v: z3.And(G.V(v), z3.Not(p.O0(v)))
        ctx.assume(z3.ForAll([v], z3.Implies(dom(v), z3.And(G.E(v, fs(v)), z3.Not(p.I0(fs(v))), ls(fs(v)) < ls(v))), patterns=[fs(v)]))
        ctx.assume(z3.ForAll([v, w], z3.Implies(z3.And(dom(v), G.E(fs(v), w), w != v), ls(w) < ls(v)), patterns=[G.E(fs(v), w)]))
        ctx.assume(z3.ForAll([v], ls(v) >= 0, patterns=[ls(v)]))
        k = ctx.int("layer")
        # strong induction on the layer: every node of the hypothetical flow is done
        u = ctx.int("u")
        with ctx.scope(z3.ForAll([v], z3.Implies(z3.And(G.V(v), ls(v) < k), S.O(v)), patterns=[ls(v)])):
            ctx.assume(S.K(fs(u)) >= 0)
            with ctx.scope(And(G.V(u), ls(u) == k, Not(S.O(u)))):
                ctx.prove("no flow found: inner node", dom(u))
                ctx.prove("no flow found: its successor is done", S.O(fs(u)))
                w_ = ctx.int("w")
                ctx.prove("no flow found: the other neighbours of the successor are done", Implies(And(G.E(fs(u), w_), w_ != u), S.O(w_)), assume=False)
                ctx.assume(z3.ForAll([w], z3.Implies(z3.And(G.E(fs(u), w), w != u), S.O(w)), patterns=[G.E(fs(u), w)]))
                ctx.prove("no flow found: exactly one neighbour of the successor is left", S.K(fs(u)) == 1)
            ctx.prove("no flow found: every node of a causal flow would be done (strong induction on its layer)", Implies(And(G.V(u), ls(u) == k), S.O(u)), assume=False)
        ctx.assume(z3.ForAll([v], z3.Implies(G.V(v), S.O(v)), patterns=[G.V(v)]))
        ctx.prove("post: no flow is reported only if there is none", False)
        return
    f, order, depth, layers = r
    if not H or not isinstance(layers, SDict):
        raise Unsupported("unexpected result")
    u, w, j = ctx.int("u"), ctx.int("w"), ctx.int("j")
    inner = And(G.V(u), Not(p.O0(u)))
    lay = lambda v: z(layers.get(v))
    ctx.prove("post: outputs have layer 0", Implies(p.O0(u), lay(u) == 0))
    ctx.prove("post: layers for exactly the nodes", Iff(layers.has(u), G.V(u)))
    before = lambda a, b_: z(it.truth(it.call(order, [a, b_])))
    # order: exactly the order of the layers
    with ctx.scope(And(G.V(u), G.V(w))):
        ctx.prove("post: the order is that of the layers", before(u, w) == (lay(u) > lay(w)), assume=False)
    with ctx.scope(inner):
        s = z(it.call(f, [u]))
        ctx.prove("post: a node is a neighbour of its successor", G.E(u, s))
        ctx.prove("post: no successor is an input", z3.Not(p.I0(s)))
        ctx.prove("post: a node comes before its successor", before(u, s))
        with ctx.scope(And(G.E(s, w), w != u)):
            ctx.prove("post: and before the other neighbours of the successor", before(u, w), assume=False)
        with ctx.scope(And(G.V(w), Not(p.O0(w)), w != u)):
            ctx.prove("post: distinct successors", z(it.call(f, [w])) != s, assume=False)
    d = z(zint(depth))
    x = z3.Int("x!ex")
    ctx.prove("post: depth is the largest layer", And(d >= 0, Implies(G.V(u), lay(u) <= d)), assume=False)
    ctx.prove("post: every layer up to the depth has a node", Implies(And(mark(j), j >= 1, j <= d), z3.Exists([x], z3.And(G.V(x), lay(x) == j))), assume=False)


UNITS = [Unit("causal_flow_aux", t_aux, [FL + "causal_flow_aux"]), Unit("find_cflow", t_find, [FL + "find_cflow"]), Unit("find_cflow (sizes)", t_size, [FL + "find_cflow"])]
ASSUMES = ["the graph is simple and finite; inputs and outputs are lists of distinct nodes", "a causal flow is a successor map with an order; for a finite graph the order is given by integer layers (every finite strict order has one)"]
