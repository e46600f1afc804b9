"""C12: generators of the Lie algebra of a circuit (mentpy/utils/lie_algebra.py)"""
from .common import *
from .c05 import rel
from .c10 import Dot, xor
from pyvc.core import intern_str
from pyvc.lib_nx import SGraph
from pyvc.lib_str import SLine
from pyvc.spec import put

LA = "mentpy.utils.lie_algebra."
PO = "mentpy.operators.pauliop.PauliOp"
WALL = 200
TRUSTED = [
    "attributes of the circuit by their contracts: measurement_order lists every node once, outputc the nodes that are not outputs (C05), stabilizers() is [identity | adjacency] in node order and index_mapping() the positions of the nodes (C23)",
    "PauliOp product, append and get_subset by their contracts (C09); solve by its contract (C10)",
]
bit = lambda c: z3.If(z(c), z3.IntVal(1), z3.IntVal(0))


class Table:
    """a PauliOp: n rows, entry e(r, c) of 2q columns"""

    def __init__(self, it, n, q, e, view=False):
        self.it, self.n, self.q, self.e, self.view = it, n, q, e, view
        self.born = birth()

    def __pyvc_subst__(self, pairs):
        ps = [(a, z(b)) for a, b in pairs]
        n = z3.substitute(z(self.n), *ps) if is_z3(self.n) else self.n
        return Table(self.it, n, self.q, lambda r, c: z3.substitute(z(zint(self.e(r, c))), *ps), True)

    def __pyvc_ite__(self, c, a, b):
        if not (isinstance(a, Table) and isinstance(b, Table)) or a.n is not b.n and not (z(a.n).eq(z(b.n))):
            raise Unsupported("merging operators")
        return Table(self.it, a.n, a.q, lambda r, k: z3.If(z(c), z(zint(a.e(r, k))), z(zint(b.e(r, k)))))

    def width(self):
        return z3.simplify(2 * z(self.q))

    def __pyvc_len__(self, it):
        return self.n

    def __pyvc_getitem__(self, it, k):
        if isinstance(k, (PySlice, tuple)):
            raise Unsupported("slice of operators")
        if not it.ctx.branch(And(z(k) < z(self.n), z(k) >= 0)):
            raise Unsupported("row out of range")
        return Table(it, 1, self.q, lambda r, c: self.e(k, c), True)

    def __pyvc_getattr__(self, it, name):
        if name == "matrix":
            return SArr((self.n, self.width()), lambda r, c: self.e(r, c), "gf2")
        if name == "append":
            return Builtin(name, self.append)
        if name == "number_of_qubits":
            return self.q
        raise Unsupported("PauliOp." + name)

    def append(self, it, a, k):
        o = a[0]
        if self.view or not isinstance(o, Table):
            raise Unsupported("append")
        it.write_log(self)
        n, e = z(self.n), self.e
        it.ctx.prove("append: same number of qubits", z(o.q) == z(self.q))
        self.n = z3.simplify(n + z(o.n))
        self.e = lambda r, c: z3.If(z(r) < n, z(zint(e(r, c))), z(zint(o.e(z3.simplify(z(r) - n), c))))

    def __pyvc_binop__(self, it, op, a, b):
        if op != "*" or not (isinstance(a, Table) and isinstance(b, Table)):
            raise Unsupported("operator on operators")
        it.ctx.prove("product: same sizes", And(z(a.q) == z(b.q), z(a.n) == z(b.n)))
        return Table(it, a.n, a.q, lambda r, c: xor(z(zint(a.e(r, c))), z(zint(b.e(r, c)))))


class Circ:
    """the circuit, through the attributes the module uses"""

    def __init__(self, it):
        ctx = self.ctx = it.ctx
        g = self.g = SGraph(it)
        self.it, self.n = it, g.n
        n = g.n
        ctx.assume(n >= 1)
        self.ins, self.outs = sublist(it, "inputs", g), sublist(it, "outputs", g)
        self.mo, self.meas = sublist(it, "order", g), sublist(it, "measured", g)
        v = z3.Int("v!ci")
        ctx.assume(z(self.mo.n) == n)
        ctx.assume(z3.ForAll([v], z3.Implies(g.isnode(v), self.mo.mem(v)), patterns=[self.mo.mem(v)]))
        i = z3.Int("i!ci")
        N = lambda k: g.node(k)
        ctx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(self.mo.mem(N(i)), self.meas.mem(N(i)) == z3.Not(self.outs.mem(N(i))))), patterns=[N(i)]))
        self.lt, self.po = rel(it)
        self.q = n
        X = self.stab = lambda r, c: z3.If(z(c) < n, bit(z(r) == z(c)), bit(g.edge_ij(r, z3.simplify(z(c) - n))))
        self.S = Table(it, n, n, X, True)

    def __pyvc_getattr__(self, it, name):
        r = dict(measurement_order=self.mo, outputc=self.meas, input_nodes=self.ins, output_nodes=self.outs, partial_order=self.po).get(name)
        if r is not None:
            return r
        if name == "index_mapping":
            return Builtin(name, lambda it_, a, k: SDict(self.g.isnode, lambda v: self.g.idx(v)))
        if name == "stabilizers":
            return Builtin(name, lambda it_, a, k: self.S)
        raise Unsupported("circuit." + name)

    def __pyvc_len__(self, it):
        return self.n

    def forbidden(self, j, c):
        """the stabiliser of the c-th node may not be used for j"""
        v = self.g.node(c)
        return z3.Or(z3.Not(self.lt(z(j), v)), v == z(j), self.ins.mem(v))


def stop_rows(it, C, j):
    """the positions in the measurement order whose stabiliser is ruled out"""
    mo = lambda k: z(ops.seq_get(C.mo, k))
    bad = lambda i: C.forbidden(j, C.g.idx(mo(z(i))))
    return Filtered(it, "ruled_out", C.n, bad, lambda i: C.g.idx(mo(i))), mo


def system_rows(C, F, k, j):
    """the constraint rows: unit rows of the stabilisers ruled out, adjacency rows of the measured"""
    g, n = C.g, C.n
    m = F.cnt(z(n))
    me = lambda r: z(ops.seq_get(C.meas, r))

    def a(r, c):
        r = z(r)
        return z3.If(r < m, bit(C.g.idx(C.mo.f(F.at(r))) == z(c)), bit(g.edge_ij(g.idx(me(z3.simplify(r - m))), c)))

    def b(r):
        r = z(r)
        return z3.If(r < m, z3.IntVal(0), bit(me(z3.simplify(r - m)) == z(j)))

    return a, b, m


def t_constrains(it):
    ctx = it.ctx
    C = Circ(it)
    g, n = C.g, C.n
    j = ctx.int("j")
    q = LA + "_constrains"
    F, mo = stop_rows(it, C, j)
    a, b, m = system_rows(C, F, None, j)
    unit = lambda t: SArr((n,), lambda c: bit(F.elem(F.at(z(t))) == z(c)), "gf2")
    zero = lambda t: SArr((1,), lambda c: z3.IntVal(0), "i")
    it.loop_specs[(q, 0)] = Inv(
        exact={"A": lambda L, k: SSeq(F.cnt(z(k)), unit), "b": lambda L, k: SSeq(F.cnt(z(k)), zero)},
        lemma=lambda L, k, ph: F.step(z3.simplify(z(k) - 1)) if ph == "preserve" else None,
    )
    row = lambda r: SArr((n,), lambda c: a(r, c), "gf2")
    rhs = lambda r: SArr((1,), lambda c: b(r), "i")
    it.loop_specs[(q, 1)] = Inv(exact={"A": lambda L, k: SSeq(z3.simplify(m + z(k)), row), "b": lambda L, k: SSeq(z3.simplify(m + z(k)), rhs)})
    r = attempt(it, lambda: it.call(it.fn(q), [j, C, C.S]))
    known = C.meas.mem(j)
    if r[0] == "exc":
        ctx.prove("post: an error only for a node that is not measured", And(r[1] == "ValueError", Not(known)))
        return
    ctx.prove("post: only measured nodes are accepted", known)
    A, B_ = r[1]
    M = z3.simplify(m + z(C.meas.n))
    prove_eq(it, "post: constraint matrix", A, SArr((M, n), a, A.dtype))
    prove_eq(it, "post: right hand side", B_, SArr((M, 1), lambda i, c: b(i), B_.dtype))


def t_check(it):
    ctx = it.ctx
    m, n = ctx.int("rows"), ctx.int("cols")
    ctx.assume(And(m >= 1, n >= 1))
    f, b, y = ctx.func("A", I, I, I), ctx.func("b", I, I), ctx.func("x", I, I)
    i, j = z3.Ints("i!ch j!ch")
    ctx.assume(z3.ForAll([i, j], z3.And(f(i, j) >= 0, f(i, j) <= 1), patterns=[f(i, j)]))
    ctx.assume(z3.ForAll([i], z3.And(b(i) >= 0, b(i) <= 1), patterns=[b(i)]))
    ctx.assume(z3.ForAll([i], z3.And(y(i) >= 0, y(i) <= 1), patterns=[y(i)]))
    A = SArr((m, n), lambda r, c: f(z(r), z(c)), "gf2")
    B_ = SArr((m, 1), lambda r, c: b(z(r)), "gf2")
    x = SArr((n,), lambda c: y(z(c)), "gf2")
    ans = it.truth(it.call(it.fn(LA + "_check_solution"), [A, B_, x]))
    # parity of the products, row by row
    D = Dot(it, lambda r, c: f(z(r), z(c)), lambda c: y(z(c)) == 1)
    s = lambda r: ctx.sum(n, lambda c: f(z(r), c) * y(c))
    r = ctx.int("row")
    t = z(ctx.sum(n, lambda c: ops.mul(ctx, f(r, c), y(c))))
    st, cnt, body, sq = ctx.sum_terms[t.get_id()]
    part = lambda k_: st.decl()(*st.children()[:-1], z3.simplify(z(k_)))
    use = induct(it, "lemma: sum of the products modulo 2 is their parity", lambda k_: Implies(And(rng(r, m), z(k_) <= n), part(k_) % 2 == D(r, k_)), [])
    use(n)
    holds = D(r, n) == b(r)
    ctx.prove("post: an accepted vector satisfies every equation", Implies(And(ans, rng(r, m)), holds), assume=False)
    # rejected: some equation fails; its row is the witness
    ctx.prove("post: a rejected vector violates an equation", Implies(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < m), (z(s(i)) - b(i)) % 2 == 0)), ans), assume=False)


def solver(it, C, j, cons):
    """contracts of _constrains, solve and _check_solution for one measured node j"""
    ctx = it.ctx
    g, n = C.g, C.n
    F, mo = stop_rows(it, C, j)
    a, b, m = system_rows(C, F, None, j)
    M = z3.simplify(m + z(C.meas.n))
    y = ctx.func("answer", I, B)
    A = SArr((M, n), a, "gf2")
    Bv = SArr((M, 1), lambda r, c: b(r), "gf2")
    X = SArr((n,), lambda c: bit(y(z(c))), "i")
    D = Dot(it, a, y, "DA")

    def con(it_, args, kw):
        v = list(it_.bind(it_.fn(LA + "_constrains"), args, kw).values())
        ctx.prove("the constraints are those of j, the circuit and its stabilisers", And(z(v[0]) == z(j), v[1] is C, v[2] is C.S))
        if not ctx.branch(C.meas.mem(z(j))):
            ops.pyraise("ValueError", "j")
        return A, Bv

    def slv(it_, args, kw):
        v = list(it_.bind(it_.fn("mentpy.calculator.linalg2.solve"), args, kw).values())
        ctx.prove("the constraint system is solved", v[0] is A and v[1] is Bv)
        return X

    r = z3.Int("r!so")
    ok = ctx.func("accepted", B)()
    r0 = ctx.int("violated")
    ctx.define(z3.If(ok, z3.ForAll([r], z3.Implies(z3.And(r >= 0, r < M), D.D(r, n) == b(r)), patterns=[D.D(r, n)]), z3.And(r0 >= 0, r0 < M, D(r0, n) != b(r0))))

    def chk(it_, args, kw):
        v = list(it_.bind(it_.fn(LA + "_check_solution"), args, kw).values())
        e = v[2]
        ctx.prove("the solution is checked against its own system", v[0] is A and v[1] is Bv and isinstance(e, SArr) and e.ndim == 1)
        prove_eq(it, "the vector checked is the solution", SArr(e.shape, e.snap(), "i"), X)
        return ok

    it.contracts[LA + "_constrains"] = con
    it.contracts["mentpy.calculator.linalg2.solve"] = slv
    it.contracts[LA + "_check_solution"] = chk
    it.contracts[PO] = identity(it, C)
    return y, a, b, m, M, F, D, ok, mo


def identity(it, C):
    def f(it_, args, kw):
        v = list(args) + list(kw.values())
        if len(v) != 1 or not isinstance(v[0], SLine):
            raise Unsupported("PauliOp of %r" % (v,))
        k = it.ctx.int("letter")
        it.ctx.prove("the empty product has the size of the circuit", z(v[0].w) == C.n)
        it.ctx.prove("the empty product is the identity", Implies(rng(k, C.n), z(v[0].ch(k)) == intern_str("I")), assume=False)
        return Table(it, 1, C.n, lambda r, c: z3.IntVal(0))

    return f


class Product:
    """after k stabilisers: the product of those among them that the solution selects"""

    kind = "for"

    def __init__(self, C, P):
        self.C, self.P = C, P

    def bind(self, L):
        names = [nm for nm in L.assigned if isinstance(L.fr.vars.get(nm), Table)]
        if len(names) != 1:
            raise Unsupported("the loop does not build one product")
        self.name = names[0]

    def check(self, L, k, phase):
        ctx, C = L.ctx, self.C
        o = L.fr.vars[self.name]
        if not isinstance(o, Table):
            raise Unsupported("the product is no operator")
        w = "%s/%s: " % (L.where, phase)
        ctx.prove(w + "one row of the size of the circuit", And(z(o.n) == 1, z(o.q) == C.n))
        c = ctx.int("col")
        ctx.prove(w + "product of the selected stabilisers so far", Implies(rng(c, 2 * C.n), z(zint(o.e(0, c))) == self.P(c, k)), assume=False)

    def havoc(self, L, k):
        L.fr.vars[self.name] = Table(L.it, 1, self.C.n, lambda r, c: self.P(c, k))
        L.carried.add(self.name)

    def enter(self, L, k):
        pass

    def on_break(self, L, k):
        raise Unsupported("break")

    def on_exit(self, L, n):
        pass


def t_find(it):
    ctx = it.ctx
    C = Circ(it)
    g, n = C.g, C.n
    j = ctx.int("j")
    ctx.assume(C.meas.mem(j))
    y, a, b, m, M, F, D, ok, mo = solver(it, C, j, True)
    P = Dot(it, lambda c, i: C.stab(i, c), y, "DP")
    q = LA + "_find_solution"
    it.loop_specs[(q, 0)] = Product(C, P)
    # an arbitrary admissible product: s selects stabilisers
    s = ctx.func("other", I, B)
    r = attempt(it, lambda: it.call(it.fn(q), [j, C, C.S]))
    c = ctx.int("c")
    Z = Dot(it, lambda v, i: bit(g.edge_ij(v, i)), y, "DZ")
    if r[0] == "exc":
        ctx.prove("post: a missing product is reported by a ValueError", r[1] == "ValueError")
        ctx.prove("post: an error only if the solver's answer violates the system (it has no solution, C10)", Not(ok), assume=False)
        # any admissible selection solves the system
        Ds = Dot(it, a, s, "DAs")
        Zs = Dot(it, lambda v, i: bit(g.edge_ij(v, i)), s, "DZs")
        rr = ctx.int("r")
        k = z3.Int("k!fs")
        ctx.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n, C.forbidden(j, k)), z3.Not(s(k))), patterns=[s(k)]))
        me = lambda t: z(ops.seq_get(C.meas, t))
        t = z3.simplify(rr - m)
        vi = g.idx(me(t))
        use1 = induct(it, "lemma: a unit row picks one coefficient", lambda k_: Implies(And(rr >= 0, rr < m, z(k_) <= n), Ds(rr, k_) == bit(And(F.elem(F.at(rr)) < z(k_), s(F.elem(F.at(rr)))))), [])
        use1(n)
        use2 = induct(it, "lemma: an adjacency row gives the Z component", lambda k_: Implies(And(rr >= m, rr < M, z(k_) <= n), Ds(rr, k_) == Zs(vi, k_)), [])
        use2(n)
        ctx.assume(Implies(And(rr >= m, rr < M), Zs(vi, n) == bit(me(t) == j)))  # admissible: Z on j and on no other measured node
        ctx.prove("post: any admissible selection solves the system, so an error means there is none", Implies(rng(rr, M), Ds(rr, n) == b(rr)), assume=False)
        return
    O = r[1]
    if not isinstance(O, Table):
        raise Unsupported("result")
    ctx.prove("post: one operator on all nodes", And(z(O.n) == 1, z(O.q) == n))
    ctx.assume(rng(c, n))
    use = induct(it, "lemma: X component of the product", lambda k_: Implies(z(k_) <= n, P(c, k_) == bit(And(c < z(k_), y(c)))), [])
    use(n)
    use = induct(it, "lemma: Z component of the product", lambda k_: Implies(z(k_) <= n, P(z3.simplify(c + n), k_) == Z(c, k_)), [])
    use(n)
    ctx.prove("post: X component: the selected stabilisers", z(zint(O.e(0, c))) == bit(y(c)), assume=False)
    ctx.prove("post: Z component: parity of the selected neighbours", z(zint(O.e(0, z3.simplify(c + n)))) == Z(c, n), assume=False)
    # stabilisers that are ruled out
    p = ctx.int("p")
    ctx.assume(p == z(C.mo.index_of(g.node(c))))
    row = F.cnt(p)
    with ctx.scope(C.forbidden(j, c)):
        if ctx.feasible(z3.BoolVal(True)):
            ctx.prove("lemma: a stabiliser that is ruled out has its equation", And(rng(p, n), rng(row, m), F.elem(F.at(row)) == c))
            use = induct(it, "lemma: its equation reads its coefficient", lambda k_: Implies(z(k_) <= n, D(row, k_) == bit(And(c < z(k_), y(c)))), [])
            use(n)
            D(row, n)
            ctx.prove("post: only stabilisers of non-input nodes strictly after j", Not(y(c)))
    with ctx.scope(C.meas.mem(g.node(c))):
        if ctx.feasible(z3.BoolVal(True)):
            t = z(C.meas.index_of(g.node(c)))
            row = z3.simplify(m + t)
            use = induct(it, "lemma: the equation of a measured node reads the Z component", lambda k_: Implies(z(k_) <= n, D(row, k_) == Z(c, k_)), [])
            use(n)
            D(row, n)
            ctx.prove("post: Z on j and on no other measured node", Z(c, n) == bit(g.node(c) == j))


class Collect:
    """after k measured nodes: one operator for each of them, None before the first"""

    kind = "for"

    def __init__(self, C, row):
        self.C, self.row = C, row

    def bind(self, L):
        names = [nm for nm in L.assigned if nm in L.fr.vars and L.fr.vars[nm] is None]
        if len(names) != 1:
            raise Unsupported("the loop does not collect into one variable")
        self.name = names[0]

    def check(self, L, k, phase):
        ctx, C = L.ctx, self.C
        o = L.fr.vars[self.name]
        w = "%s/%s: " % (L.where, phase)
        if o is None:
            ctx.prove(w + "nothing collected before the first", z(k) == 0)
            return
        if not isinstance(o, Table):
            raise Unsupported("collected something else")
        r, c = ctx.int("row"), ctx.int("col")
        ctx.prove(w + "one operator for each node treated", And(z(o.n) == z(k), z(o.q) == C.n, z(k) >= 1))
        ctx.prove(w + "the operators in order", Implies(And(rng(r, k), rng(c, 2 * C.n)), z(zint(o.e(r, c))) == self.row(r, c)), assume=False)

    def havoc(self, L, k):
        if L.ctx.branch(z(k) == 0):
            L.fr.vars[self.name] = None
        else:
            L.fr.vars[self.name] = t = Table(L.it, z(k), self.C.n, lambda r, c: self.row(r, c))
            L.covered.append(t)
        L.carried.add(self.name)

    def enter(self, L, k):
        pass

    def on_break(self, L, k):
        raise Unsupported("break")

    def on_exit(self, L, n):
        pass


def t_complete(it):
    ctx = it.ctx
    C = Circ(it)
    n = C.n
    f, none = ctx.func("operator", I, I, I), ctx.func("impossible", I, B)
    me = lambda r: z(ops.seq_get(C.meas, r))

    def find(it_, a, k):
        v = list(it_.bind(it_.fn(LA + "_find_solution"), a, k).values())
        ctx.prove("operators are found for this circuit with its stabilisers", And(v[1] is C, v[2] is C.S))
        j = z(v[0])
        ctx.prove("operators are found for measured nodes", C.meas.mem(j))
        if ctx.branch(none(j)):
            ops.pyraise("ValueError", "no solution")
        return Table(it, 1, n, lambda r, c: f(j, z(c)))

    it.contracts[LA + "_find_solution"] = find
    q = LA + "calculate_complete_gens_lie_algebra"
    it.loop_specs[(q, 0)] = Collect(C, lambda r, c: f(me(r), z(c)))
    r = attempt(it, lambda: it.call(it.fn(q), [C]))
    if r[0] == "exc":
        ctx.prove("post: an impossible product is an error", r[1] == "ValueError")
        return
    T = r[1]
    if T is None:
        ctx.prove("post: nothing only if nothing is measured", z(C.meas.n) == 0)
        return
    if not isinstance(T, Table):
        raise Unsupported("result")
    a, c = ctx.int("a"), ctx.int("c")
    ctx.prove("post: one operator per measured node", And(z(T.n) == z(C.meas.n), z(T.q) == n))
    ctx.prove("post: the operator of each measured node, in order", Implies(And(rng(a, T.n), rng(c, 2 * n)), z(zint(T.e(a, c))) == f(me(a), c)), assume=False)


class Full:
    """what calculate_complete_gens_lie_algebra returned"""

    def __init__(self, C, res):
        self.C, self.res, self.calls = C, res, []

    def __pyvc_getattr__(self, it, name):
        if name != "get_subset":
            raise Unsupported("PauliOp." + name)

        def f(it_, a, k):
            v = list(a) + list(k.values())
            s = it_.as_seq(v[0])
            if s is None:
                raise Unsupported("subset")
            t, C = it_.ctx.int("t"), self.C
            it_.ctx.prove("post: restricted to as many qubits as there are outputs", z(s.n) == z(C.outs.n))
            it_.ctx.prove("post: restricted to the outputs in order", Implies(rng(t, s.n), z(s.f(t)) == C.g.idx(z(ops.seq_get(C.outs, t)))), assume=False)
            return self.res

        return Builtin(name, f)


def t_gens(it):
    ctx = it.ctx
    C = Circ(it)
    sub, last = Opaque("the restrictions"), Opaque("the distinct restrictions")
    T = Full(C, sub)

    def complete(it_, a, k):
        b = list(it_.bind(it_.fn(LA + "calculate_complete_gens_lie_algebra"), a, k).values())
        ctx.prove("post: the operators are those of the circuit", b[0] is C)
        return T

    def distinct(it_, a, k):
        b = list(it_.bind(it_.fn(LA + "remove_repeated_ops"), a, k).values())
        ctx.prove("post: repetitions are removed from the restrictions", b[0] is sub)
        return last

    it.contracts[LA + "calculate_complete_gens_lie_algebra"] = complete
    it.contracts[LA + "remove_repeated_ops"] = distinct
    r = it.call(it.fn(LA + "calculate_gens_lie_algebra"), [C])
    ctx.prove("post: the distinct restrictions are returned", r is last)


def t_unique(it):
    """at most one admissible selection per measured node, whatever the node order: two of them
    differ by a selection s of non-inputs with no Z on any measured node, and then s is empty"""
    ctx = it.ctx
    g = SGraph(it, contiguous=True)
    n = g.n
    ctx.assume(n >= 1)
    ins, meas, f, h, l, s = ctx.func("is_input", I, B), ctx.func("is_measured", I, B), ctx.func("succ", I, I), ctx.func("pred", I, I), ctx.func("layer", I, I), ctx.func("difference", I, B)
    top = ctx.int("depth")
    v, w = z3.Ints("v!u w!u")
    E_ = lambda a, b: z3.And(a >= 0, a < n, b >= 0, b < n, g.edge_ij(a, b))
    M = lambda a: z3.And(a >= 0, a < n, meas(a))
    # the flow (C03): layers decrease along the order
    ctx.assume(z3.ForAll([v], z3.Implies(M(v), z3.And(f(v) >= 0, f(v) < n, z3.Not(ins(f(v))), E_(v, f(v)), l(v) <= top)), patterns=[f(v)]))
    ctx.assume(z3.ForAll([v, w], z3.Implies(z3.And(M(v), E_(f(v), w), w != v), l(w) < l(v)), patterns=[multi(f(v), l(w))]))
    # as many inputs as outputs: the successor map reaches every non-input
    ctx.assume(z3.ForAll([v], z3.Implies(z3.And(v >= 0, v < n, z3.Not(ins(v))), z3.And(M(h(v)), f(h(v)) == v)), patterns=[h(v)]))
    ctx.trust("an injective map between finite sets of equal size is onto (circuits have as many inputs as outputs, find_cflow enforces it)")
    ctx.assume(z3.ForAll([v], z3.Implies(s(v), z3.And(v >= 0, v < n, z3.Not(ins(v)))), patterns=[s(v)]))
    Z = Dot(it, lambda a, i: bit(g.edge_ij(a, i)), lambda i: s(z(i)), "DZ")
    ctx.assume(z3.ForAll([v], z3.Implies(M(v), Z.D(v, n) == 0), patterns=[Z.D(v, n)]))
    k, x = ctx.int("k"), ctx.int("x")
    below = lambda a, b: z3.ForAll([v], z3.Implies(z3.And(M(v), l(v) > z(a) - z(b)), z3.Not(s(f(v)))), patterns=[f(v)])
    ctx.prove("base: no measured node above the first layer", Implies(And(M(x), l(x) > top), Not(s(f(x)))), assume=False)
    ctx.assume(And(k >= 0, below(top, k), M(x), l(x) == top - k))

    i = ctx.int("i")
    ctx.assume(z3.Implies(z3.And(s(i), i != f(x), E_(x, i)), h(i) == h(i)))
    ctx.prove("step: another selected neighbour is the successor of an earlier node", Implies(And(s(i), E_(x, i), i != f(x)), And(M(h(i)), f(h(i)) == i, l(x) < l(h(i)))), assume=False)
    ctx.prove("step: so no other neighbour is selected", Implies(And(E_(x, i), i != f(x)), Not(s(i))), assume=False)
    ctx.assume(z3.ForAll([w], z3.Implies(z3.And(E_(x, w), w != f(x)), z3.Not(s(w))), patterns=[s(w)]))
    use = induct(it, "step: the equation of the node reads the coefficient of its successor", lambda k_: Implies(z(k_) <= n, Z(x, k_) == bit(And(f(x) < z(k_), s(f(x))))), [])
    use(n)
    ctx.prove("step: the coefficient of the successor vanishes", Not(s(f(x))))
    ctx.trust("induction over the layers of the flow")


UNITS = [
    Unit("_constrains: the constraint system of a measured node", t_constrains, [LA + "_constrains"]),
    Unit("_check_solution: accepts exactly the solutions", t_check, [LA + "_check_solution"]),
    Unit("_find_solution: product of admissible stabilisers with Z on j only", t_find, [LA + "_find_solution"]),
    Unit("calculate_complete_gens_lie_algebra: one operator per measured node", t_complete, [LA + "calculate_complete_gens_lie_algebra"]),
    Unit("lemma: with a causal flow the admissible product of a measured node is unique", t_unique, []),
    Unit("calculate_gens_lie_algebra: the distinct restrictions to the outputs", t_gens, [LA + "calculate_gens_lie_algebra"]),
]
