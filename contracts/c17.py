"""C17: density matrices and partial traces (mentpy/calculator/state_ops.py)"""
from .common import *

S = "mentpy.calculator.state_ops."
BITCODE = lib_py.bit_of


def t_pure2density(it):
    ctx = it.ctx
    n = ctx.int("n")
    ctx.assume(n >= 1)
    psi = carr(it, "psi", n)
    f = psi.snap()
    out = unwritten(it, "frame: the state is not modified", [psi], lambda: it.call(it.fn(S + "pure2density"), [psi]))
    prove_eq(it, "post: psi_a conj(psi_b)", out, SArr((n, n), lambda a, b: ops.mul(ctx, f(a), ops.conj(f(b))), "c"))


def index_list(it, n):
    """arbitrary list of distinct qubits of an n-qubit register"""
    ctx = it.ctx
    r = ctx.int("r")
    F, IDX, M = ctx.func("traced", I, I), ctx.func("position", I, I), ctx.func("is_traced", I, B)
    i = z3.Int("i")
    ctx.assume(And(r >= 0, r <= n))
    ctx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < r), z3.And(M(F(i)), IDX(F(i)) == i)), patterns=[F(i)]))
    ctx.assume(z3.ForAll([i], z3.Implies(M(i), z3.And(i >= 0, i < n, IDX(i) >= 0, IDX(i) < r, F(IDX(i)) == i)), patterns=[M(i)]))
    s = SSeq(r, lambda j: F(z(j)))
    s.mem = lambda x: M(z(x))
    s.index_of = lambda x: IDX(z(x))
    return s, r, M, IDX


class Cut:
    """arithmetic of the basis states of an n-qubit register across the cut: prefix of k qubits"""

    def __init__(self, it, M, IDX, r):
        self.it, self.ctx, self.M, self.IDX, self.r = it, it.ctx, M, IDX, r
        self.Cnt = z3.Function("kept_among", I, I)
        self.Sel = z3.Function("selected", I, I, I, I, B)
        self.Ins = z3.Function("inserted", I, I, I, I)

    def count(self, k):
        """number of remaining qubits among the first k"""
        k = z3.simplify(z(k))
        t = self.Cnt(k)
        p = z3.simplify(k - 1)
        P2 = z3.Function("pow2", I, I)
        self.ctx.once(("cnt", t.get_id()), lambda: [z3.Implies(self.Cnt(p) >= 0, z3.And(P2(self.Cnt(p) + 1) == 2 * P2(self.Cnt(p)), P2(self.Cnt(p)) >= 1)), z3.Implies(k == 0, t == 0), z3.Implies(k > 0, z3.And(t == self.Cnt(p) + z3.If(self.M(p), 0, 1), self.Cnt(p) >= 0)), z3.Implies(k >= 0, t >= 0)])
        return t

    def sel(self, i, a, m, k):
        """i has the digits of m on the traced qubits and those of a, in order, elsewhere"""
        i, a, m, k = z(i), z(a), z(m), z3.simplify(z(k))
        t = self.Sel(i, a, m, k)
        p = z3.simplify(k - 1)
        bit = BITCODE(m, self.IDX(p), self.r)
        self.ctx.once(("sel", t.get_id()), lambda: [
            z3.Implies(k == 0, t == z3.And(i == 0, a == 0)),
            z3.Implies(k == 1, z3.And(self.Sel(i / 2, a, m, p) == z3.And(i / 2 == 0, a == 0), self.Sel(i / 2, a / 2, m, p) == z3.And(i / 2 == 0, a / 2 == 0))),
            z3.Implies(k > 0, t == z3.If(self.M(p), z3.And((i % 2 == 1) == bit, self.Sel(i / 2, a, m, p)), z3.And(i % 2 == a % 2, self.Sel(i / 2, a / 2, m, p)))),
        ])
        return t

    def ins(self, a, m, k):
        """the basis state with the digits of m on the traced qubits and those of a elsewhere"""
        a, m, k = z(a), z(m), z3.simplify(z(k))
        t = self.Ins(a, m, k)
        p = z3.simplify(k - 1)
        bit = z3.If(BITCODE(m, self.IDX(p), self.r), 1, 0)
        self.ctx.once(("ins", t.get_id()), lambda: [z3.Implies(k == 0, t == 0), z3.Implies(k > 0, t == z3.If(self.M(p), 2 * self.Ins(a, m, p) + bit, 2 * self.Ins(a / 2, m, p) + a % 2))])
        return t


def t_mixed(kind):
    """density matrices of complex, real or integer entries"""
    return lambda it: mixed(it, kind)


def mixed(it, kind):
    ctx = it.ctx
    n = ctx.int("n")
    ctx.assume(n >= 1)
    idx, r, M, IDX = index_list(it, n)
    cut = Cut(it, M, IDX, r)
    dim = ops.pow2(ctx, n)
    rho = dict(complex=carr, real=rarr, integer=iarr)[kind](it, "rho", dim, dim)
    entry = rho.snap()
    rf = lambda i, j: to_cx(entry(z(i), z(j)))
    ctx.assume(cut.count(n) == n - r)
    ctx.trust("counting: a list of r distinct qubits of an n-qubit register leaves n-r qubits")
    Dim = ops.pow2(ctx, z3.simplify(n - r))
    Sre, Sim = z3.Function("blocks_re", I, I, I, R), z3.Function("blocks_im", I, I, I, R)
    st = {}

    def block(m, a, b):
        return rf(cut.ins(a, m, n), cut.ins(b, m, n))

    def partial(a, b, m):
        """sum of the blocks of the first m basis states"""
        a, b, m = z(a), z(b), z3.simplify(z(m))
        t = Cx(Sre(a, b, m), Sim(a, b, m) if kind == "complex" else z3.RealVal(0))
        p = z3.simplify(m - 1)
        e = block(p, a, b)
        ctx.once(("blk", t.re.get_id()), lambda: [z3.Implies(m == 0, z3.And(t.re == 0, t.im == 0)), z3.Implies(m > 0, z3.And(t.re == Sre(a, b, p) + z(e.re), t.im == (Sim(a, b, p) if kind == "complex" else 0) + z(e.im)))])
        return t

    def sigma(L, k):
        dt = getattr(L.v("sigma"), "dtype", "c")  # whatever can hold the sum
        return SArr((Dim, Dim), lambda a, b: ops.as_entry(partial(a, b, k), dt), dt)

    def ptrace(L, k):
        if not is_z3(k) and k == 0 or is_z3(k) and ctx.branch(k == 0):
            return 1
        rows, cols = ops.pow2(ctx, z3.simplify(z(k))), ops.pow2(ctx, cut.count(k))
        return SArr((rows, cols), lambda i, a: z3.If(cut.sel(i, a, st["m"], k), z3.RealVal(1), z3.RealVal(0)), "f")

    def stmt(k, i, a, m):
        rows, cols = ops.pow2(ctx, z3.simplify(z(k))), ops.pow2(ctx, cut.count(k))
        t = cut.ins(a, m, k)
        return Implies(And(rng(a, cols), rng(i, rows)), And(rng(t, rows), cut.sel(i, a, m, k) == (i == t)))

    use = induct(it, "lemma: one basis state is selected", stmt, [("i", I), ("a", I), ("m", I)], ih=lambda k, i, a, m: [(i / 2, a / 2, m), (i / 2, a, m), (0, a / 2, m), (0, a, m)])

    def selected(L, k):
        P = L.v("ptrace")
        if not isinstance(P, SArr):
            raise Unsupported("no selection matrix")
        m = st["m"]
        i, a = ctx.int("i"), ctx.int("a")
        ctx.assume(And(rng(i, P.shape[0]), rng(a, P.shape[1])))
        use(n, i, a, m)
        ctx.prove("ptrace selects one basis state", P.get(i, a) == z3.If(i == cut.ins(a, m, n), z3.RealVal(1), z3.RealVal(0)))
        ctx.prove("ptrace: the selected state is a basis state", rng(cut.ins(a, m, n), dim))
        P.sel = ("row", lambda b: cut.ins(b, m, n), P._f)

    it.loop_specs[(S + "partial_trace_mixed_state", 0)] = Inv(exact={"sigma": sigma}, enter=lambda L, k: st.__setitem__("m", z(k)))
    it.loop_specs[(S + "partial_trace_mixed_state", 1)] = Inv(exact={"ptrace": ptrace}, on_exit=selected)
    out = unwritten(it, "frame: arguments are not modified", [rho, idx], lambda: it.call(it.fn(S + "partial_trace_mixed_state"), [rho, idx]))
    ctx.prove("post: a matrix", isinstance(out, SArr) and out.ndim == 2)
    prove_eq(it, "post: sum of the blocks over all basis states of the traced qubits", out, SArr((Dim, Dim), lambda a, b: partial(a, b, ops.pow2(ctx, r)), "c"))


def t_dispatch(it):
    """vectors go to the pure-state rule, matrices to the mixed-state rule, other shapes are rejected"""
    ctx = it.ctx
    n, m, k, l = (ctx.int(s) for s in "nmkl")
    ctx.assume(And(n >= 1, m >= 1, k >= 1, l >= 1))
    idx = SSeq(ctx.int("r"), lambda j: ctx.int("q"))
    seen = []
    for f in ("partial_trace_pure_state", "partial_trace_mixed_state"):
        def contract(it_, a, kw, f=f):
            seen.append((f, a, kw))
            return f

        it.contracts[S + f] = contract
    for shape, f in (((n,), "partial_trace_pure_state"), ((n, m), "partial_trace_mixed_state")):
        data = carr(it, "d%d" % len(shape), *shape)
        del seen[:]
        r = it.call(it.fn(S + "partial_trace"), [data, idx])
        vals = (list(seen[0][1]) + list(seen[0][2].values())) if seen else []
        ctx.prove("rank %d" % len(shape), len(seen) == 1 and seen[0][0] == f and r == f and len(vals) == 2 and vals[0] is data and vals[1] is idx)
    for shape in ((), (n, m, k), (n, m, k, l)):
        data = carr(it, "x%d" % len(shape), *shape)
        must_raise(it, "rank %d rejected" % len(shape), lambda: it.call(it.fn(S + "partial_trace"), [data, idx]), "ValueError")


UNITS = [
    Unit("C17.pure2density", t_pure2density, [S + "pure2density"]),
    *[Unit("C17.partial_trace_mixed_state (%s entries)" % k, t_mixed(k), [S + "partial_trace_mixed_state"]) for k in ("complex", "real", "integer")],
    Unit("C17.partial_trace", t_dispatch, [S + "partial_trace"]),
]
BOUNDED = ["partial_trace_pure_state: checked by running it on states of up to 6 qubits against the product-state oracle (its tensor has a symbolic number of axes, out of the generator's reach)"]
