r"""C20: local-Clifford equivalence of graph states (mentpy/utils/lc_equivalence.py)"""
from .common import *
from .c10 import Dot, bits_of, is_uf, xor, sums_in

M_ = "mentpy.utils.lc_equivalence."
RRE, SYS, NULL, SEARCH = M_ + "reduce_RREform_mod2", M_ + "lc_constraint_system", M_ + "nullspace_basis", M_ + "search_nullspace"
TENS, GLOB, EQUIV = M_ + "clifford_vec_to_tensors", M_ + "clifford_vec_to_global", M_ + "are_lc_equivalent"
WALL = 200


def bit_matrix(it, name, rows, cols):
    ctx = it.ctx
    f = ctx.func(name, I, I, I)
    i, j = z3.Ints("i!bm j!bm")
    ctx.assume(z3.ForAll([i, j], z3.And(f(i, j) >= 0, f(i, j) <= 1), patterns=[f(i, j)]))
    return f, SArr((rows, cols), lambda i, j: f(z(i), z(j)), "i")


# ------------------------------------------------------------------ row reduction


class Reduce:
    """the loop over the columns.  Ghost: a functional y that vanishes on every row"""

    kind = "for"

    def __init__(self, S):
        self.S = S

    def bind(self, L):
        for nm in ("R", "p"):
            L.v(nm)

    def claims(self, f, d, p, k):
        S = self.S
        a, b, p, k = S["a"], S["b"], z(p), z(k)
        r, t, c = z3.Ints("r!r t!r c!r")
        pat = [f(t, c)] if is_uf(f(t, c)) else []
        return [
            ("rank range", z3.And(p >= 0, p <= a, p <= k)),
            ("entries 0 or 1", z3.ForAll([t, c], z3.Implies(z3.And(t >= 0, t < a, c >= 0, c < b), z3.And(z(f(t, c)) >= 0, z(f(t, c)) <= 1)), patterns=pat)),
            ("zeros below the pivots", z3.ForAll([t, c], z3.Implies(z3.And(t >= p, t < a, c >= 0, c < k), z(f(t, c)) == 0), patterns=pat)),
            ("functional vanishes", z3.ForAll([r], z3.Implies(z3.And(r >= 0, r < a), d.D(r, b) == 0), patterns=[d.D(r, b)])),
        ]

    def prove(self, L, f, d, p, k, phase):
        for nm, g in self.claims(f, d, p, k):
            L.ctx.prove("%s/%s:%s" % (L.where, phase, nm), g)

    def check(self, L, k, phase):
        S = self.S
        if phase == "init":
            prove_eq(L.it, L.where + "/init:matrix", L.v("R"), SArr((S["a"], S["b"]), S["f"], "i"))
            self.prove(L, S["f"], S["d"], L.v("p"), 0, phase)
        else:
            f, d = self.step(L, z3.simplify(z(k) - 1))
            self.prove(L, f, d, L.v("p"), k, phase)

    def havoc(self, L, k):
        from pyvc.spec import put

        S, ctx = self.S, L.ctx
        f = self.f = ctx.func("Rk", I, I, I)
        p = self.p = ctx.int("p")
        put(L, "R", SArr((S["a"], S["b"]), lambda i, j: f(z(i), z(j)), "i"))
        put(L, "p", p)
        self.d = Dot(L.it, f, S["y"], "Dk")
        for nm, g in self.claims(f, self.d, p, k):
            ctx.assume(g)

    def enter(self, L, k):
        pass

    def step(self, L, col):
        S, it, ctx = self.S, L.it, L.ctx
        a, b = S["a"], S["b"]
        M = L.v("R")
        if not isinstance(M, SArr) or M.ndim != 2 or M.dtype != "i":
            raise Unsupported("the reduced matrix is no integer matrix")
        for d, want in zip(M.shape, (a, b)):
            ctx.prove(L.where + "/preserve:shape", z(d) == want)
        of, od, p = self.f, self.d, z(self.p)
        p1 = z(L.v("p"))
        g, F = M.snap(), ctx.func("Rn", I, I, I)
        i, j = z3.Ints("i!n j!n")
        nd = Dot(it, F, S["y"], "Dn")
        if z3.simplify(p1).eq(z3.simplify(p)):
            q, c = ctx.int("rq"), ctx.int("cq")
            with ctx.scope(And(rng(q, a), rng(c, b))):
                ctx.prove(L.where + "/preserve:nothing changed", z(zint(g(q, c))) == of(q, c))
            ctx.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < a, j >= 0, j < b), F(i, j) == of(i, j)), patterns=[F(i, j)]))
            sw, flag, pr = (lambda r: z(r)), (lambda r: z3.BoolVal(False)), p
        else:
            pr = z(L.v("i"))
            sw = lambda r: z3.If(z(r) == p, pr, z3.If(z(r) == pr, p, z(r)))
            flag = lambda r: z3.And(z(r) != p, of(sw(r), col) == 1)
            ctx.prove(L.where + "/preserve:pivot row", z3.And(pr >= p, pr < a, of(pr, col) == 1))
            ctx.prove(L.where + "/preserve:rank grows by one", p1 == p + 1)
            q, c = ctx.int("rq"), ctx.int("cq")
            want = lambda q, c: z3.If(flag(q), xor(of(sw(q), c), of(pr, c)), of(sw(q), c))
            with ctx.scope(And(rng(q, a), rng(c, b))):
                of(sw(q), c), of(pr, c), of(sw(q), col)
                ctx.prove(L.where + "/preserve:row operations", z(zint(g(q, c))) == want(q, c))
            ctx.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < a, j >= 0, j < b), F(i, j) == want(i, j)), patterns=[F(i, j)]))

        def stmt(kk, r):
            kk = z(kk)
            rhs = z3.If(flag(r), xor(od(sw(r), kk), od(pr, kk)), od(sw(r), kk))
            return Implies(And(rng(r, a), kk <= b), nd(r, kk) == rhs)

        use = induct(it, L.where + "/functional of the new rows", stmt, [("r", I)], ih=lambda k_, r: [(r,)])
        q, r = ctx.int("r_any"), z3.Int("r!nd")
        use(b, q)
        ctx.prove(L.where + "/functional vanishes on every new row", Implies(rng(q, a), nd(q, b) == 0), assume=False)
        ctx.assume(z3.ForAll([r], z3.Implies(z3.And(r >= 0, r < a), nd.D(r, b) == 0), patterns=[nd.D(r, b)]))
        return F, nd

    def on_break(self, L, k):
        f, d = self.step(L, k)
        self.prove(L, f, d, L.v("p"), z3.simplify(z(k) + 1), "break")
        self.S["final"] = f, d

    def on_exit(self, L, n):
        self.S["final"] = self.f, self.d


def reduce_unit(cols):
    def unit(it):
        ctx = it.ctx
        a, b = ctx.int("rows"), ctx.int("cols")
        ctx.assume(And(a >= 0, b >= 0))
        f, M = bit_matrix(it, "M", a, b)
        y = ctx.func("functional", I, B)
        d = Dot(it, f, y, "D0")
        r = z3.Int("r!0")
        ctx.assume(z3.ForAll([r], z3.Implies(z3.And(r >= 0, r < a), d.D(r, b) == 0), patterns=[d.D(r, b)]))
        S = dict(a=a, b=b, f=f, y=y, d=d)
        it.loop_specs[(RRE, 0)] = Reduce(S)
        args, mc = [M], b
        if cols:
            mc = ctx.int("max_cols")
            ctx.assume(And(mc >= 0, mc <= b))
            args.append(mc)
        res = unwritten(it, "frame: matrix not modified", [M], lambda: it.call(it.fn(RRE), args))
        ctx.prove("post: a matrix and the rank", isinstance(res, tuple) and len(res) == 2 and isinstance(res[0], SArr) and is_int(res[1]))
        R, p = res
        p = z(zint(p))
        ctx.prove("post: same shape", And(z(R.shape[0]) == a, z(R.shape[1]) == b, R.dtype == "i"))
        ctx.prove("post: rank range", And(p >= 0, p <= a))
        q, c = ctx.int("q"), ctx.int("c")
        ctx.assume(And(rng(q, a), rng(c, b)))
        e = z(zint(R.get(q, c)))
        ctx.prove("post: entries 0 or 1", And(e >= 0, e <= 1), assume=False)
        ctx.prove("post: rows after the rank vanish in the reduced columns", Implies(And(q >= p, c < mc), e == 0), assume=False)
        g = R.snap()
        G = ctx.func("Rout", I, I, I)
        i, j = z3.Ints("i!o j!o")
        ctx.assume(z3.ForAll([i, j], G(i, j) == z(zint(g(i, j))), patterns=[G(i, j)]))
        dn = Dot(it, G, y, "Dout")
        ff, fd = S["final"]
        with ctx.scope(z3.BoolVal(True)):
            prove_eq(it, "post: the matrix of the last step", R, SArr((a, b), lambda i, j: ff(z(i), z(j)), "i"))
        ctx.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < a, j >= 0, j < b), G(i, j) == ff(i, j)), patterns=[G(i, j)]))
        use = induct(it, "post: same partial sums", lambda k_, r: Implies(And(rng(r, a), z(k_) <= b), dn(r, k_) == fd(r, k_)), [("r", I)], ih=lambda k_, r: [(r,)])
        use(b, q)
        fd(q, b)
        ctx.prove("post: the functional vanishes on every row", dn.D(q, b) == 0)

    return unit




# ------------------------------------------------------------------ null space


def nullspace_unit(it):
    """every row v of the result satisfies M v = 0 (mod 2), for every equation q of M"""
    ctx = it.ctx
    Rn, C = ctx.int("equations"), ctx.int("unknowns")
    ctx.assume(And(Rn >= 0, C >= 1))
    m, M = bit_matrix(it, "M", Rn, C)
    q = ctx.int("equation")
    ctx.assume(rng(q, Rn))
    calls = []
    yq = ctx.func("eq_functional", I, B)  # on rows of [M^T | I]
    yv = ctx.func("eq_unknowns", I, B)  # on rows of the second block
    c = z3.Int("c!y")
    ctx.assume(z3.ForAll([c], yq(c) == z3.If(c < Rn, c == q, m(q, c - Rn) == 1), patterns=[yq(c)]))
    ctx.assume(z3.ForAll([c], yv(c) == (m(q, c) == 1), patterns=[yv(c)]))
    tot = z3.simplify(Rn + C)
    st = {}

    def reduce_contract(it, a, k):
        """reduce_RREform_mod2 by its contract, for the functional of equation q"""
        X = a[0]
        mc = a[1] if len(a) > 1 else k.get("max_cols")
        n = len(calls)
        calls.append(X)
        if set(k) - {"max_cols"} or not isinstance(X, SArr) or X.ndim != 2 or X.dtype != "i":
            raise Unsupported("reduction of this argument")
        rows, cols = X.shape
        g = X.snap()
        G = ctx.func("X%d" % n, I, I, I)
        i, j = z3.Ints("i!x j!x")
        r, cc = ctx.int("r"), ctx.int("c")
        with ctx.scope(And(rng(r, rows), rng(cc, cols))):
            e = z(zint(g(r, cc)))
            ctx.prove("reduce %d/pre: entries 0 or 1" % n, And(e >= 0, e <= 1))
        ctx.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < z(rows), j >= 0, j < z(cols)), G(i, j) == z(zint(g(i, j)))), patterns=[G(i, j)]))
        if mc is not None:
            ctx.prove("reduce %d/pre: column limit" % n, And(z(mc) >= 0, z(mc) <= z(cols)))
        if n == 0:
            ctx.prove("reduce 0/pre: one row per unknown, equations and unit vectors side by side", And(z(rows) == C, z(cols) == tot))
            y, d = yq, Dot(it, G, yq, "DA")
            use = induct(it, "rows of [M^T | I]: equations part", lambda k_, r: Implies(And(rng(r, C), z(k_) <= Rn), d(r, k_) == z3.If(z3.And(z(k_) > q, m(q, r) == 1), 1, 0)), [("r", I)], ih=lambda k_, r: [(r,)])

            def stmt(k_, r):
                if not is_z3(k_) and k_ == 0 or z3.is_int_value(z(k_)) and z(k_).as_long() == 0:
                    use(Rn, r)
                return Implies(And(rng(r, C), z(k_) <= C), d(r, z3.simplify(Rn + z(k_))) == z3.If(z3.And(m(q, r) == 1, z(k_) <= z(r)), 1, 0))

            use2 = induct(it, "rows of [M^T | I]: unit vectors", stmt, [("r", I)], ih=lambda k_, r: [(r,)])
            t = ctx.int("row")
            use2(C, t)
            ctx.prove("reduce 0/pre: the functional of the equation vanishes on every row", Implies(rng(t, C), d(t, tot) == 0), assume=False)
        elif n == 1:
            ctx.prove("reduce 1/pre: one column per unknown", z(cols) == C)
            y, d = yv, Dot(it, G, yv, "DN")
            F0, d0, p0 = st["F"], st["d"], st["p"]
            use = induct(it, "rows after the rank: equations part", lambda k_, r: Implies(And(r >= p0, r < C, z(k_) <= Rn), d0(r, k_) == 0), [("r", I)], ih=lambda k_, r: [(r,)])

            def stmt(k_, r):
                if z3.is_int_value(z3.simplify(z(k_))) and z3.simplify(z(k_)).as_long() == 0:
                    use(Rn, z3.simplify(r + p0))
                return Implies(And(rng(r, rows), z(k_) <= C), And(d(r, k_) == d0(z3.simplify(r + p0), z3.simplify(Rn + z(k_)))))

            use2 = induct(it, "rows after the rank: the second block satisfies the equation", stmt, [("r", I)], ih=lambda k_, r: [(r,)])
            t = ctx.int("row")
            use2(C, t)
            d0(z3.simplify(t + p0), tot)
            ctx.prove("reduce 1/pre: the equation holds for every row", Implies(rng(t, rows), d(t, C) == 0), assume=False)
        else:
            raise Unsupported("more than two reductions")
        F, p = ctx.func("Red%d" % n, I, I, I), ctx.int("rank%d" % n)
        ctx.assume(And(p >= 0, p <= z(rows)))
        ctx.assume(z3.ForAll([i, j], z3.And(F(i, j) >= 0, F(i, j) <= 1), patterns=[F(i, j)]))
        lim = z(cols) if mc is None else z(mc)
        ctx.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= p, i < z(rows), j >= 0, j < lim), F(i, j) == 0), patterns=[F(i, j)]))
        dn = Dot(it, F, y, "DR%d" % n)
        ctx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < z(rows)), dn.D(i, z(cols)) == 0), patterns=[dn.D(i, z(cols))]))
        st.update(F=F, p=p, d=dn, lim=lim)
        return (SArr((rows, cols), lambda i, j: F(z(i), z(j)), "i"), p)

    it.contracts[RRE] = reduce_contract
    N = unwritten(it, "frame: matrix not modified", [M], lambda: it.call(it.fn(NULL), [M]))
    ctx.prove("post: a matrix with one column per unknown", isinstance(N, SArr) and N.ndim == 2 and N.dtype == "i")
    ctx.prove("post: columns", z(N.shape[1]) == C)
    r, c = ctx.int("r"), ctx.int("c")
    g = N.snap()
    with ctx.scope(And(rng(r, N.shape[0]), rng(c, C))):
        e = z(zint(g(r, c)))
        ctx.prove("post: entries 0 or 1", And(e >= 0, e <= 1))
    G = ctx.func("N", I, I, I)
    i, j = z3.Ints("i!g j!g")
    ctx.assume(z3.ForAll([i, j], G(i, j) == z(zint(g(i, j))), patterns=[G(i, j)]))
    d = Dot(it, G, yv, "DB")
    fd = st["d"]
    use = induct(it, "post: same partial sums", lambda k_, r: Implies(And(rng(r, N.shape[0]), z(k_) <= C), d(r, k_) == fd(r, k_)), [("r", I)], ih=lambda k_, r: [(r,)])
    use(C, r)
    fd(r, C)
    ctx.prove("post: every row solves the equation", Implies(rng(r, N.shape[0]), d.D(r, C) == 0))


UNITS = [Unit("reduce_RREform_mod2 (%s)" % t, reduce_unit(c), [RRE]) for c, t in ((False, "all columns"), (True, "some columns"))]
UNITS += [Unit("nullspace_basis", nullspace_unit, [NULL])]


# ------------------------------------------------------------------ constraint system


def equation(G, H, n, j, k, c):
    """coefficient of unknown c (a, b, c, d of the n qubits) in the equation (j, k):
    G[j,k] a_k + [j=k] b_k + sum_i G[i,j] H[i,k] c_i + H[j,k] d_j = 0"""
    n, j, k, c = z(n), z(j), z(k), z(c)
    zero, one = z3.IntVal(0), z3.IntVal(1)
    return z3.If(c < n, z3.If(c == k, G(j, k), zero), z3.If(c < 2 * n, z3.If(z3.And(c - n == k, k == j), one, zero), z3.If(c < 3 * n, G(c - 2 * n, j) * H(c - 2 * n, k), z3.If(c - 3 * n == j, H(j, k), zero))))


def system_unit(it):
    ctx = it.ctx
    n = ctx.int("qubits")
    ctx.assume(n >= 1)
    G, GA = bit_matrix(it, "G", n, n)
    H, HA = bit_matrix(it, "H", n, n)
    bl = {
        0: lambda j, k, i: z3.If(z(i) == z(k), G(z(j), z(k)), z3.IntVal(0)),
        1: lambda j, k, i: z3.If(z3.And(z(k) == z(j), z(i) == z(j)), z3.RealVal(1), z3.RealVal(0)),
        2: lambda j, k, i: G(z(i), z(j)) * H(z(i), z(k)),
        3: lambda j, k, i: z3.If(z(i) == z(j), H(z(j), z(k)), z3.IntVal(0)),
    }
    row = lambda j: VList([SArr((n, n), (lambda b: lambda k, i: bl[b](j, k, i))(b), "f" if b == 1 else "i") for b in range(4)])
    it.loop_specs[(SYS, 0)] = Inv(exact={"M": lambda L, k: SSeq(k, row)})
    it.loop_specs[(SYS, 1)] = Inv(exact={"D": lambda L, k: SArr((n, n), lambda r, i: z3.If(And(z(r) < z(k), z(i) == z(L.v("j"))), H(z(L.v("j")), z(r)), z3.IntVal(0)), "i")})
    S = unwritten(it, "frame: arguments not modified", [GA, HA], lambda: it.call(it.fn(SYS), [GA, HA]))
    ctx.prove("post: an integer matrix", isinstance(S, SArr) and S.ndim == 2 and S.dtype == "i")
    ctx.prove("post: n^2 equations with 4n unknowns", And(z(S.shape[0]) == n * n, z(S.shape[1]) == 4 * n))
    j, k, c = ctx.int("j"), ctx.int("k"), ctx.int("c")
    ctx.assume(And(rng(j, n), rng(k, n), rng(c, 4 * n)))
    r = z3.simplify(j * n + k)
    ctx.prove("post: row j*n + k", And(r / n == j, r % n == k))
    ctx.prove("post: row range", rng(r, n * n))
    ctx.prove("post: the equation of (j, k)", z(zint(S.get(r, c))) == equation(G, H, n, j, k, c))


UNITS += [Unit("lc_constraint_system", system_unit, [SYS])]


# ------------------------------------------------------------------ search


def det(v, n, k):
    n, k = z(n), z(k)
    return (v(k) * v(k + 3 * n) + v(k + n) * v(k + 2 * n)) % 2


def rows_of(e, f):
    """the row arguments of the applications of f inside e"""
    out, st, seen = [], [e], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().eq(f):
                out.append(x.arg(0))
            st.extend(x.children())
    return out


def search_unit(it):
    """None, or a vector of 4n bits with odd determinants that lies in the span of the rows:
    a functional y that vanishes on every row vanishes on it"""
    ctx = it.ctx
    d, n = ctx.int("basis vectors"), ctx.int("qubits")
    ctx.assume(And(d >= 0, n >= 1))
    C = z3.simplify(4 * n)
    f, Bm = bit_matrix(it, "basis", d, C)
    y = ctx.func("functional", I, B)
    D = Dot(it, f, y, "D")
    r = z3.Int("r!s")
    ctx.assume(z3.ForAll([r], z3.Implies(z3.And(r >= 0, r < d), D.D(r, C) == 0), patterns=[D.D(r, C)]))
    none = SSeq(0, lambda i: SArr((C,), lambda c: z3.IntVal(0), "i"))
    outer = lambda: Inv(exact={"sols": lambda L, k: none, "equivalent": lambda L, k: False})
    it.loop_specs[(SEARCH, 0)] = outer()
    it.loop_specs[(SEARCH, 1)] = outer()
    S = {}

    def bind(L):
        v = ops.seq_get(L.v("sols"), 0)
        if not isinstance(v, SArr) or v.ndim != 1:
            raise Unsupported("the candidate is no vector")
        g = v.snap()
        F = S["F"] = ctx.func("candidate", I, I)
        c = z3.Int("c!F")
        S["v"] = v
        q = ctx.int("c")
        with ctx.scope(rng(q, C)):
            e = z(zint(g(q)))
            ctx.prove("candidate: bits", And(e >= 0, e <= 1), assume=False)
            ctx.prove("candidate: one entry per unknown", z(v.shape[0]) == C)
        ctx.assume(z3.ForAll([c], z3.Implies(z3.And(c >= 0, c < C), z3.And(F(c) == z(zint(g(c))), F(c) >= 0, F(c) <= 1)), patterns=[F(c)]))

        S["inst"] = lambda c: ctx.assume(Implies(rng(c, C), And(F(z(c)) == z(zint(g(c))), F(z(c)) >= 0, F(z(c)) <= 1)))

    def lemma(L, k, phase):
        if phase == "preserve":
            p = z3.simplify(z(k) - 1)
            for m in range(4):
                S["inst"](z3.simplify(p + m * n))
            ctx.prove("candidate: odd determinant of this qubit", det(S["F"], n, p) == 1)

    k_ = z3.Int("k!d")
    it.loop_specs[(SEARCH, 2)] = Inv(
        bind=bind,
        lemma=lemma,
        exact={"sols": lambda L, k: SSeq(1, lambda i: S["v"]), "sat": lambda L, k: True},
        inv=lambda L, k: [z3.ForAll([k_], z3.Implies(z3.And(k_ >= 0, k_ < z(k)), det(S["F"], n, k_) == 1), patterns=[S["F"](k_)])],
    )
    R = unwritten(it, "frame: basis not modified", [Bm], lambda: it.call(it.fn(SEARCH), [Bm]))
    if R is None:
        return
    ctx.prove("post: an integer vector", isinstance(R, SArr) and R.ndim == 1 and R.dtype == "i")
    ctx.prove("post: 4n entries", z(R.shape[0]) == C)
    c, k = ctx.int("c"), ctx.int("k")
    F = S["F"]
    e = z(zint(R.get(c)))
    ctx.prove("post: bits", Implies(rng(c, C), And(e >= 0, e <= 1)), assume=False)
    g = lambda c: z(zint(R.get(c)))
    F(z(k))
    with ctx.scope(rng(k, n)):
        for t in (k, k + n, k + 2 * n, k + 3 * n):
            S["inst"](z3.simplify(t))
            ctx.prove("post: the vector that was checked", g(z3.simplify(t)) == F(z3.simplify(t)))
        ctx.prove("post: odd determinants", det(g, n, k) == 1, assume=False)
    ts = sums_in(ctx, e)
    fd = f(z3.IntVal(0), z3.IntVal(0)).decl()
    if ts:
        if len(ts) != 1:
            raise Unsupported("the solution is not one sum of rows")
        st, cnt, body, sq = ctx.sum_terms[ts[0].get_id()]
        rows = rows_of(body, fd)
        if len(set(x.get_id() for x in rows)) != 1:
            raise Unsupported("the solution is not one sum of rows")
        row = lambda t: z3.simplify(z3.substitute(rows[0], (sq, z(t))))
        part = lambda t, col: z3.substitute(st.decl()(*st.children()[:-1], z(t)), (c, z(col)))
    else:
        rows = sorted(set(rows_of(e, fd)), key=str)
        cnt = z3.IntVal(len(rows))
        pick = lambda t, k: rows[k] if k + 1 == len(rows) else z3.If(z(t) == k, rows[k], pick(t, k + 1))
        row = lambda t: z3.simplify(pick(t, 0))
        part = lambda t, col: z3.Sum([z3.IntVal(0)] + [z3.If(z(t) > k, f(x, z(col)), z3.IntVal(0)) for k, x in enumerate(rows)])
    t, q = ctx.int("summand"), ctx.int("col")
    with ctx.scope(And(rng(t, cnt), rng(q, C))):
        ctx.prove("post: the summands are rows of the basis", And(rng(row(t), d), part(t + 1, q) == part(t, q) + f(row(t), q)), assume=False)
    W = Dot(it, lambda t, col: part(t, col) % 2, lambda col: y(col), "W")
    use = induct(it, "partial sums of rows", lambda k_, t: Implies(And(rng(t, cnt), z(k_) <= C), W(z3.simplify(z(t) + 1), k_) == xor(W(t, k_), D(row(t), k_))), [("t", I)], ih=lambda k_, t: [(t,)])
    zero = induct(it, "no summand", lambda k_: Implies(z(k_) <= C, W(0, k_) == 0), [])

    def stmt(t):
        t = z3.simplify(z(t))
        if t.eq(z3.IntVal(0)):
            zero(C)
        else:
            p = z3.simplify(t - 1)
            use(C, p)
            D(row(p), C)
        return Implies(t <= z(cnt), W(t, C) == 0)

    use2 = induct(it, "sums of rows satisfy the equation", stmt, [])
    use2(cnt)
    # the result is the last partial sum, modulo 2
    G = Dot(it, lambda r, col: g(col), lambda col: y(col), "G")
    use3 = induct(it, "post: the returned vector is the sum of the rows, modulo 2", lambda k_: Implies(z(k_) <= C, G(0, k_) == W(cnt, k_)), [])
    use3(C)
    ctx.prove("post: the functional vanishes on the returned vector", G(0, C) == 0)


UNITS += [Unit("search_nullspace", search_unit, [SEARCH])]


# ------------------------------------------------------------------ output forms


def bits(it, name, n):
    ctx = it.ctx
    f = ctx.func(name, I, I)
    i = z3.Int("i!v")
    ctx.assume(z3.ForAll([i], z3.And(f(i) >= 0, f(i) <= 1), patterns=[f(i)]))
    return f, SArr((n,), lambda i: f(z(i)), "i")


def entry_of(v, n, k, a, b):
    """entry (a, b) of the Clifford [[a_k, b_k], [c_k, d_k]] of qubit k"""
    return v(z(k) + (2 * z3.If(z(a) == 0, z3.IntVal(0), z3.IntVal(1)) + z3.If(z(b) == 0, z3.IntVal(0), z3.IntVal(1))) * z(n))


def tensors_unit(it):
    ctx = it.ctx
    n = ctx.int("qubits")
    ctx.assume(n >= 1)
    f, v = bits(it, "v", z3.simplify(4 * n))
    one = lambda k: SArr((2, 2), lambda a, b: z3.simplify(entry_of(f, n, k, a, b)), "i")
    it.loop_specs[(TENS, 0)] = Inv(exact={"local_clifford_list": lambda L, k: SSeq(k, one)})
    R = unwritten(it, "frame: vector not modified", [v], lambda: it.call(it.fn(TENS), [v]))
    prove_eq(it, "post: one 2x2 matrix per qubit", R, SSeq(n, one))


def global_unit(it):
    """the 2n x 2n matrix that acts on qubit k (rows and columns k and n + k) as its tensor factor"""
    ctx = it.ctx
    n = ctx.int("qubits")
    ctx.assume(n >= 1)
    f, v = bits(it, "v", z3.simplify(4 * n))
    R = unwritten(it, "frame: vector not modified", [v], lambda: it.call(it.fn(GLOB), [v]))
    ctx.prove("post: an integer matrix", isinstance(R, SArr) and R.ndim == 2 and R.dtype == "i")
    ctx.prove("post: 2n x 2n", And(z(R.shape[0]) == 2 * n, z(R.shape[1]) == 2 * n))
    r, c = ctx.int("r"), ctx.int("c")
    for a in (0, 1):
        for b in (0, 1):
            with ctx.scope(And(rng(r, n), rng(c, n))):
                e = z(zint(R.get(z3.simplify(r + a * n), z3.simplify(c + b * n))))
                ctx.prove("post: block (%d, %d) is diagonal" % (a, b), Implies(r != c, e == 0), assume=False)
                ctx.prove("post: block (%d, %d) holds the entries of the factors" % (a, b), Implies(r == c, e == entry_of(f, n, r, a, b)), assume=False)


UNITS += [Unit("clifford_vec_to_tensors", tensors_unit, [TENS]), Unit("clifford_vec_to_global", global_unit, [GLOB])]


# ------------------------------------------------------------------ are_lc_equivalent


class LCGraph:
    """a simple graph: nodes in some order, symmetric irreflexive adjacency between labels"""

    def __init__(self, it, name, n, isnode, circuit=False):
        ctx = self.ctx = it.ctx
        self.n, self.isnode, self.circuit = n, isnode, circuit
        f, x = ctx.func(name + "_node", I, I), ctx.func(name + "_pos", I, I)
        i, v = z3.Ints("i!lc v!lc")
        ctx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(isnode(f(i)), x(f(i)) == i)), patterns=[f(i)]))
        ctx.assume(z3.ForAll([v], z3.Implies(isnode(v), z3.And(x(v) >= 0, x(v) < n, f(x(v)) == v)), patterns=[isnode(v)]))
        self.f = f
        A = ctx.func(name + "_edge", I, I, B)
        self.edge = lambda u, v: z3.If(z(u) < z(v), A(z(u), z(v)), z3.And(z(v) < z(u), A(z(v), z(u))))
        self.list = SSeq(n, lambda k: f(z(k)))
        self.list.mem = lambda t: isnode(z(t))
        self.list.index_of = lambda t: x(z(t))

    def __pyvc_isinstance__(self, it, t):
        if getattr(t, "name", "") == "networkx.Graph":
            return not self.circuit
        raise Unsupported("isinstance of a graph")

    def __pyvc_getattr__(self, it, name):
        if name == "graph" and self.circuit:
            g = LCGraph.__new__(LCGraph)
            g.__dict__.update(self.__dict__)
            g.circuit = False
            return g
        if self.circuit:
            raise Unsupported("MBQCircuit.%s" % name)
        if name == "nodes":
            return LCNodes(self)
        raise Unsupported("Graph." + name)

    def __pyvc_len__(self, it):
        return self.n


class LCNodes:
    def __init__(self, g):
        self.g = g

    def __pyvc_call__(self, it, a, k):
        if a or k:
            raise Unsupported("nodes(...)")
        return self.g.list.snap()

    def __pyvc_iter__(self, it):
        return self.g.list

    def __pyvc_len__(self, it):
        return self.g.n


def nx_array(it, a, k):
    """to_numpy_array(g, nodelist=l, dtype=int): entry (i, j) is the adjacency of l[i] and l[j]"""
    ctx = it.ctx
    g = a[0]
    dt = k.get("dtype")
    if not isinstance(g, LCGraph) or g.circuit or len(a) > 2 or set(k) - {"nodelist", "dtype"} or getattr(dt, "name", "") != "int":
        raise Unsupported("to_numpy_array with these arguments")
    l = a[1] if len(a) > 1 else k.get("nodelist")
    s = g.list if l is None else it.as_seq(l)
    if not isinstance(s, SSeq):
        raise Unsupported("to_numpy_array with these arguments")
    if l is not None:
        q, r = ctx.int("q"), ctx.int("r")
        ctx.prove("nodelist: nodes of the graph", Implies(rng(q, s.n), g.isnode(z(s.f(q)))), assume=False)
        ctx.prove("nodelist: no repetition", Implies(And(rng(q, s.n), rng(r, s.n), q != r), z(s.f(q)) != z(s.f(r))), assume=False)
    f = s.snap().f
    out = SArr((s.n, s.n), lambda i, j: z3.If(g.edge(f(i), f(j)), z3.IntVal(1), z3.IntVal(0)), "i")
    ctx.trust("nx.to_numpy_array(g, nodelist, int): the 0/1 adjacency matrix in that order of the nodes")
    return out


class Comps:
    """the connected components of the graph of a 0/1 matrix, as a list of sets of positions"""

    def __init__(self, it, M, name):
        ctx = self.ctx = it.ctx
        self.it, self.M, self.n = it, M.copy(), z(M.shape[0])
        n = self.n
        self.K = ctx.int(name + "_count")
        ctx.assume(self.K >= 0)
        self.comp, self.cnt, self.at = ctx.func(name + "_of", I, I), ctx.func(name + "_rank", I, I, I), ctx.func(name + "_at", I, I, I)
        comp, cnt, at = self.comp, self.cnt, self.at
        q, x, t, u = z3.Ints("q!co x!co t!co u!co")
        e = z(zint(self.M.get(x, t)))
        ctx.define(z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < n), z3.And(comp(x) >= 0, comp(x) < self.K, cnt(comp(x), x) >= 0, cnt(comp(x), x) < cnt(comp(x), n), at(comp(x), cnt(comp(x), x)) == x)), patterns=[comp(x)]))
        ctx.define(z3.ForAll([q, t], z3.Implies(z3.And(q >= 0, q < self.K, t >= 0, t < cnt(q, n)), z3.And(at(q, t) >= 0, at(q, t) < n, comp(at(q, t)) == q, cnt(q, at(q, t)) == t)), patterns=[at(q, t)]))
        ctx.define(z3.ForAll([q, t, u], z3.Implies(z3.And(q >= 0, q < self.K, t >= 0, t < u, u < cnt(q, n)), at(q, t) < at(q, u)), patterns=[multi(at(q, t), at(q, u))]))
        ctx.define(z3.ForAll([q], z3.And(cnt(q, 0) == 0, z3.Implies(z3.And(q >= 0, q < self.K), cnt(q, n) >= 1)), patterns=[cnt(q, n)]))
        ctx.trust("nx.connected_components: non-empty sets that partition the nodes; adjacent nodes lie in the same set")
        ctx.trust("sorted(component): its elements in increasing order, by their rank")
        self.inside = {}

    def m(self, q):
        return self.cnt(z(q), self.n)

    def step(self, q, x):
        """the rank counts the earlier members"""
        self.ctx.define(Implies(And(rng(x, self.n)), self.cnt(z(q), z3.simplify(z(x) + 1)) == self.cnt(z(q), z(x)) + z3.If(self.comp(z(x)) == z(q), 1, 0)))

    def joined(self, x, y):
        """an edge lies inside one component (instance)"""
        self.ctx.define(Implies(And(rng(x, self.n), rng(y, self.n), z(zint(self.M.get(x, y))) != 0), self.comp(z(x)) == self.comp(z(y))))

    def has(self, other):
        """which components of the other graph are components here"""
        if id(other) not in self.inside:
            ctx = self.ctx
            P, Q = z3.Function(ctx.uid("is_component"), I, B), z3.Function(ctx.uid("same_component"), I, I)  # not per comprehension index
            p, x = z3.Ints("p!ic x!ic")
            body = z3.Implies(z3.And(p >= 0, p < other.K, P(p), x >= 0, x < self.n), (other.comp(x) == p) == (self.comp(x) == Q(p)))
            ctx.define(z3.ForAll([p, x], body, patterns=[multi(P(p), other.comp(x))]))
            ctx.define(z3.ForAll([p, x], body, patterns=[multi(P(p), self.comp(x))]))
            self.inside[id(other)] = other, P, Q
        return self.inside[id(other)]

    def __pyvc_iter__(self, it):
        s = SSeq(self.K, lambda q: CompSet(self, q))

        def mem(v):
            if not isinstance(v, CompSet):
                raise Unsupported("membership in a list of components")
            return self.has(v.of)[1](z(v.q)) if v.of is not self else And(z(v.q) >= 0, z(v.q) < self.K)

        s.mem = mem
        return s


class CompSet(SSet):
    def __init__(self, of, q):
        SSet.__init__(self, lambda t: z3.And(z(t) >= 0, z(t) < of.n, of.comp(z(t)) == z(q)), card=of.m(q))
        self.of, self.q = of, q

    def __pyvc_sorted__(self, it):
        return SSeq(self.of.m(self.q), lambda t: self.of.at(z(self.q), z(t)))


class PosGraph:
    def __init__(self, M):
        self.M = M


def nx_from_array(it, a, k):
    if k or len(a) != 1 or not isinstance(a[0], SArr) or a[0].ndim != 2 or a[0].dtype != "i":
        raise Unsupported("from_numpy_array with these arguments")
    it.ctx.prove("from_numpy_array: square", z(a[0].shape[0]) == z(a[0].shape[1]))
    return PosGraph(a[0])


def lc_unit(form, circuits):
    def unit(it):
        ctx = it.ctx
        n = ctx.int("nodes")
        ctx.assume(n >= 1)
        isnode = ctx.func("isnode", I, B)
        g1, g2 = LCGraph(it, "g", n, isnode, circuits), LCGraph(it, "h", n, isnode, circuits)
        LIB["networkx.Graph"] = LibType("networkx.Graph", None, None)
        LIB["networkx.to_numpy_array"] = Builtin("networkx.to_numpy_array", nx_array)
        LIB["networkx.from_numpy_array"] = Builtin("networkx.from_numpy_array", nx_from_array)
        S = dict(comps=[], n=n, mats=[])

        def conn(it_, a, k):
            if not isinstance(a[0], PosGraph) or len(S["comps"]) > 1:
                raise Unsupported("connected_components of this")
            c = Comps(it, a[0].M, "comp%d" % len(S["comps"]))
            S["comps"].append(c)
            return c

        LIB["networkx.connected_components"] = Builtin("networkx.connected_components", conn)
        j0, k0 = ctx.int("j"), ctx.int("k")
        ctx.assume(And(rng(j0, n), rng(k0, n)))
        f1 = g1.f
        G = lambda i, j: z3.If(g1.edge(f1(z(i)), f1(z(j))), z3.IntVal(1), z3.IntVal(0))
        H = lambda i, j: z3.If(g2.edge(f1(z(i)), f1(z(j))), z3.IntVal(1), z3.IntVal(0))

        # ---- contracts of the helpers
        def system(it_, a, k):
            X, Y = a
            ctx.prove("system/pre: square matrices of the same size", X.ndim == 2 and Y.ndim == 2 and And(*[z(d) == z(X.shape[0]) for d in X.shape + Y.shape]))
            ctx.prove("system/pre: at least one qubit", z(X.shape[0]) >= 1)
            q, r = ctx.int("q"), ctx.int("r")
            gx, gy = X.snap(), Y.snap()
            m = X.shape[0]
            with ctx.scope(And(rng(q, m), rng(r, m))):
                ctx.prove("system/pre: entries 0 or 1", And(*[And(z(g(q, r)) >= 0, z(g(q, r)) <= 1) for g in (gx, gy)]), assume=False)
            out = SArr((z(m) * z(m), 4 * z(m)), lambda r, c: equation(lambda i, j: z(gx(i, j)), lambda i, j: z(gy(i, j)), m, z(r) / z(m), z(r) % z(m), c), "i")
            S["system"] = (out, gx, gy, m)
            return out

        def null(it_, a, k):
            X, gx, gy, m = S["system"]
            if a[0] is not X or len(a) != 1 or k:
                raise Unsupported("null space of another matrix")
            ctx.prove("null space/pre: at least one unknown", z(X.shape[1]) >= 1)
            q, r = ctx.int("q"), ctx.int("r")
            with ctx.scope(And(rng(q, X.shape[0]), rng(r, X.shape[1]))):
                e = z(X.get(q, r))
                ctx.prove("null space/pre: entries 0 or 1", And(e >= 0, e <= 1), assume=False)
            out = Opaque("null space")
            S["null"] = out
            return out

        def search(it_, a, k):
            X, gx, gy, m = S["system"]
            if len(a) != 1 or k or a[0] is not S.get("null"):
                raise Unsupported("search in another basis")
            if ctx.choose(2):
                return None
            q = S["q"]
            c, t = z3.Ints("c!se t!se")
            C = S["comps"][0]
            sol = S["sol"]
            ctx.prove("search: one unknown block per component", z(m) == C.m(q))
            for fact in S["found"](q):
                ctx.assume(fact)
            # the equation of (j0, k0) in this component: row rank(j0)*m + rank(k0)
            rj, rk = C.cnt(q, j0), C.cnt(q, k0)
            with ctx.scope(And(C.comp(j0) == q, C.comp(k0) == q)):
                r = rj * z(m) + rk
                ctx.prove("system row of the pair", And(r / z(m) == rj, r % z(m) == rk, r >= 0, r < z(m) * z(m)))
            y = lambda c: equation(lambda i, j: z(gx(i, j)), lambda i, j: z(gy(i, j)), m, rj, rk, c) == 1
            W = Dot(it, lambda r, c: sol(q, z(c)), y, "W")
            ctx.assume(Implies(And(C.comp(j0) == q, C.comp(k0) == q), W(0, 4 * z(m)) == 0))
            S["W"](it, W, q, m)
            return SArr((4 * z(m),), lambda c: sol(z(q), z(c)), "i")

        it.contracts[SYS], it.contracts[NULL], it.contracts[SEARCH] = system, null, search
        it.contracts[TENS] = lambda it_, a, k: S.setdefault("tens", []).append(1) or SSeq(n, (lambda v: lambda k: SArr((2, 2), lambda x, y: entry_of(lambda c: z(zint(v(c))), n, k, x, y), "i"))(pre_vec(a[0], k)))

        def pre_vec(v, k):
            ctx.prove("output/pre: 4n entries", not k and isinstance(v, SArr) and v.ndim == 1 and v.dtype == "i" and z(v.shape[0]) == 4 * n)
            return v.snap()

        def glob(it_, a, k):
            v = pre_vec(a[0], k)
            v1 = lambda c: z(zint(v(c)))

            def e(r, c):
                r, c = z(r), z(c)
                a_, b_ = z3.If(r < n, z3.IntVal(0), z3.IntVal(1)), z3.If(c < n, z3.IntVal(0), z3.IntVal(1))
                return z3.If(r - a_ * n == c - b_ * n, entry_of(v1, n, r - a_ * n, a_, b_), z3.IntVal(0))

            return SArr((2 * n, 2 * n), e, "i")

        it.contracts[GLOB] = glob

        # ---- ghost state: the solution of every component
        sol = S["sol"] = ctx.func("solution", I, I, I)
        E = ctx.func("block_equation", I, B)  # the equation of the pair, for the solution of component q

        def found(q):
            C = S["comps"][0]
            c, t = z3.Ints("c!fo t!fo")
            m = C.m(q)
            q = z(q)
            v = lambda c: sol(q, c)
            return [
                z3.ForAll([c], z3.Implies(z3.And(c >= 0, c < 4 * m), z3.And(v(c) >= 0, v(c) <= 1)), patterns=[v(c)]),
                z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < m), det(v, m, t) == 1), patterns=[v(t)]),
            ]

        S["found"] = found
        # parity of c_i G[i,j] H[i,k] over the first nodes, with c from the ghost solutions
        P = []

        def full(C):
            if not P:
                P.append(Dot(it, lambda r, i: sol(C.comp(z(i)), 2 * C.m(C.comp(z(i))) + C.cnt(C.comp(z(i)), z(i))), lambda i: z3.And(G(i, j0) == 1, H(i, k0) == 1), "P"))
            return P[0]

        def goal(C):
            """the equation of (j0, k0) for the solution of the component of both"""
            m, q = C.m(C.comp(j0)), C.comp(j0)
            rj, rk = C.cnt(q, j0), C.cnt(q, k0)
            a_, b_, d_ = sol(q, rk) * G(j0, k0), z3.If(z(j0) == z(k0), sol(q, m + rk), z3.IntVal(0)), sol(q, 3 * m + rj) * H(j0, k0)
            return z3.simplify(xor(xor(a_, b_), xor(full(C)(0, n), d_)) == 0)

        def derive(it_, W, q, m):
            C = S["comps"][0]
            q, m = z(q), z(m)
            both = z3.And(C.comp(j0) == q, C.comp(k0) == q)
            rj, rk = C.cnt(q, j0), C.cnt(q, k0)
            with ctx.scope(both):
                ctx.prove("ranks of the pair", And(rng(rj, m), rng(rk, m), C.at(q, rj) == j0, C.at(q, rk) == k0))
                v = lambda c: sol(q, z3.simplify(z(c)))
                zero = z3.IntVal(0)
                bit1 = lambda e: z3.If(e, z3.IntVal(1), zero)
                A = induct(it, "block a", lambda k_: Implies(z(k_) <= m, W(0, k_) == z3.If(And(z(k_) > rk, G(j0, k0) == 1), v(rk), zero)), [])
                A(m)

                def sb(k_):
                    return Implies(z(k_) <= m, W(0, z3.simplify(m + z(k_))) == xor(W(0, m), z3.If(And(z(k_) > rk, rj == rk), v(m + rk), zero)))

                Bi = induct(it, "block b", sb, [])
                Bi(m)
                Q = Dot(it, lambda r, t: v(2 * m + z(t)), lambda t: z3.And(G(C.at(q, z(t)), j0) == 1, H(C.at(q, z(t)), k0) == 1), "Q")
                Ci = induct(it, "block c", lambda k_: Implies(z(k_) <= m, W(0, z3.simplify(2 * m + z(k_))) == xor(W(0, z3.simplify(2 * m)), Q(0, k_))), [])
                Ci(m)
                Di = induct(it, "block d", lambda k_: Implies(z(k_) <= m, W(0, z3.simplify(3 * m + z(k_))) == xor(W(0, z3.simplify(3 * m)), z3.If(And(z(k_) > rj, H(j0, k0) == 1), v(3 * m + rj), zero))), [])
                Di(m)

                def sf(x):
                    x = z3.simplify(z(x))
                    p = z3.simplify(x - 1)
                    if not x.eq(z3.IntVal(0)):
                        C.step(q, p)
                        C.joined(p, j0)
                    return Implies(x <= n, And(C.cnt(q, x) >= 0, C.cnt(q, x) <= m, full(C)(0, x) == Q(0, C.cnt(q, x))))

                Fi = induct(it, "sum over the component is the sum over all nodes", sf, [])
                Fi(n)
                ctx.prove("the equation of the pair", goal(C))

        S["W"] = derive

        # ---- the loop over the components
        def vec(L, k):
            C = S["comps"][0]

            def e(c):
                c = z(c)
                b_ = z3.If(c < n, z3.IntVal(0), z3.If(c < 2 * n, z3.IntVal(1), z3.If(c < 3 * n, z3.IntVal(2), z3.IntVal(3))))
                off = lambda w: z3.If(c < n, z3.IntVal(0), z3.If(c < 2 * n, w, z3.If(c < 3 * n, 2 * w, 3 * w)))
                x = c - off(n)
                return z3.If(C.comp(x) < z(k), sol(C.comp(x), off(C.m(C.comp(x))) + C.cnt(C.comp(x), x)), z3.IntVal(0))

            return SArr((4 * n,), e, "i")

        def inv(L, k):
            C = S["comps"][0]
            q, c, t = z3.Ints("q!in c!in t!in")
            m = C.m(q)
            v = lambda c: sol(q, c)
            return [
                ("bits", z3.ForAll([q, c], z3.Implies(z3.And(q >= 0, q < z(k), c >= 0, c < 4 * m), z3.And(v(c) >= 0, v(c) <= 1)), patterns=[v(c)])),
                ("determinants", z3.ForAll([q, t], z3.Implies(z3.And(q >= 0, q < z(k), t >= 0, t < m), det(v, m, t) == 1), patterns=[v(t)])),
                ("the equation of the pair", Implies(And(C.comp(j0) == C.comp(k0), C.comp(j0) < z(k)), goal(C))),
            ]

        it.loop_specs[(EQUIV, 0)] = Inv(exact={"solution_vector": vec}, inv=inv, enter=lambda L, k: S.__setitem__("q", z(k)))
        args = [g1, g2] + ([] if form is None else [form])
        res = it.call(it.fn(EQUIV), args)
        ctx.prove("post: an answer and a Clifford", isinstance(res, tuple) and len(res) == 2 and isinstance(res[0], bool))
        if res[0] is False:
            ctx.prove("post: no Clifford without equivalence", res[1] is None)
            return
        out = res[1]
        if form in (None, "tensor"):
            ctx.prove("post: one matrix per node", isinstance(out, SSeq) and z(out.n) == n)
            T = lambda k, a, b: z(zint(ops.seq_get(out, k).get(a, b)))
        else:
            ctx.prove("post: a 2n x 2n matrix", isinstance(out, SArr) and out.ndim == 2 and And(z(out.shape[0]) == 2 * n, z(out.shape[1]) == 2 * n))
            T = lambda k, a, b: z(zint(out.get(z3.simplify(z(k) + a * n), z3.simplify(z(k) + b * n))))
            r, c = ctx.int("r"), ctx.int("c")
            with ctx.scope(And(rng(r, 2 * n), rng(c, 2 * n), r != c, r != c + n, c != r + n)):
                ctx.prove("post: no entry between different qubits", z(zint(out.get(r, c))) == 0, assume=False)
        C, CH = S["comps"]
        k = ctx.int("qubit")
        m = C.m(C.comp(k))
        with ctx.scope(rng(k, n)):
            for a in (0, 1):
                for b in (0, 1):
                    ctx.prove("post: Clifford entries come from the solution of the component", T(k, a, b) == sol(C.comp(k), (2 * a + b) * m + C.cnt(C.comp(k), k)))
                    ctx.prove("post: bits", And(T(k, a, b) >= 0, T(k, a, b) <= 1))
            sol(C.comp(k), C.cnt(C.comp(k), k))
            ctx.prove("post: every Clifford is invertible", (T(k, 0, 0) * T(k, 1, 1) + T(k, 0, 1) * T(k, 1, 0)) % 2 == 1, assume=False)
        # generator j of the first graph is mapped into the stabiliser group of the second:
        # its image has x' = c G[j,.] + d e_j and z' = a G[j,.] + b e_j, and z' = x' H
        for kk in (j0, k0):
            for a in (0, 1):
                for b in (0, 1):
                    ctx.prove("entries at the pair", And(T(kk, a, b) == sol(C.comp(kk), (2 * a + b) * C.m(C.comp(kk)) + C.cnt(C.comp(kk), kk)), T(kk, a, b) >= 0, T(kk, a, b) <= 1))
        zk = xor(T(k0, 0, 0) * G(j0, k0), z3.If(j0 == k0, T(k0, 0, 1), z3.IntVal(0)))
        ximg = lambda i: xor(T(i, 1, 0) * G(j0, i), z3.If(z(i) == j0, T(i, 1, 1), z3.IntVal(0)))
        R = Dot(it, lambda r, i: ximg(i), lambda i: H(i, k0) == 1, "R")
        _, P_, Q_ = C.has(CH)

        def joined_h(x, y):
            CH.joined(x, y)
            ctx.assume(Implies(And(rng(x, n), rng(y, n)), And(rng(CH.comp(z(x)), CH.K), rng(CH.comp(z(y)), CH.K))))
            ctx.prove("the components of the second graph are components of the first", Implies(rng(y, n), P_(CH.comp(z(y)))))
            ctx.prove("edges of the second graph join no two components", Implies(And(rng(x, n), rng(y, n), H(x, y) == 1), C.comp(z(x)) == C.comp(z(y))))

        # different components: every term vanishes
        with ctx.scope(C.comp(j0) != C.comp(k0)):
            C.joined(j0, k0)
            ctx.prove("no edge between components", And(G(j0, k0) == 0, j0 != k0))

            def sd(x):
                x = z3.simplify(z(x))
                if not x.eq(z3.IntVal(0)):
                    p = z3.simplify(x - 1)
                    C.joined(p, j0)
                    C.joined(j0, p)
                    joined_h(p, k0)
                return Implies(x <= n, R(0, x) == 0)

            use = induct(it, "different components: no term", sd, [])
            use(n)
            ctx.prove("post: the image of a generator is a product of generators (other components)", R(0, n) == zk, assume=False)
        with ctx.scope(C.comp(j0) == C.comp(k0)):
            F = full(C)

            def ss(x):
                x = z3.simplify(z(x))
                if not x.eq(z3.IntVal(0)):
                    p = z3.simplify(x - 1)
                    with ctx.scope(rng(p, n)):
                        for b in (0, 1):
                            ctx.prove("entries of a node", And(T(p, 1, b) == sol(C.comp(p), (2 + b) * C.m(C.comp(p)) + C.cnt(C.comp(p), p)), T(p, 1, b) >= 0, T(p, 1, b) <= 1))
                return Implies(x <= n, R(0, x) == xor(F(0, x), z3.If(And(x > j0, H(j0, k0) == 1), T(j0, 1, 1), z3.IntVal(0))))

            use = induct(it, "image of a generator", ss, [])
            use(n)
            ctx.prove("post: the image of a generator is a product of generators", R(0, n) == zk, assume=False)

    return unit


def sizes_unit(circuits):
    def unit(it):
        """graphs of different size are never equivalent"""
        ctx = it.ctx
        n1, n2 = ctx.int("nodes1"), ctx.int("nodes2")
        ctx.assume(And(n1 >= 0, n2 >= 0, n1 != n2))
        p1, p2 = ctx.func("isnode1", I, B), ctx.func("isnode2", I, B)
        g1, g2 = LCGraph(it, "g", n1, p1, circuits), LCGraph(it, "h", n2, p2, circuits)
        x = z3.Int("el!eq")
        ctx.assume(z3.Not(z3.ForAll([x], p1(x) == p2(x))))
        ctx.trust("lists of distinct nodes of different length have different sets of elements")
        LIB["networkx.Graph"] = LibType("networkx.Graph", None, None)
        LIB["networkx.to_numpy_array"] = Builtin("networkx.to_numpy_array", nx_array)
        form = AnyStr(it, "form") if ctx.choose(2) else None
        res = it.call(it.fn(EQUIV), [g1, g2] + ([form] if form is not None else []))
        ctx.prove("post: not equivalent, no Clifford", isinstance(res, tuple) and len(res) == 2 and res[0] is False and res[1] is None)

    return unit


for _c in (False, True):
    UNITS += [Unit("are_lc_equivalent (%s, %s form)" % ("circuits" if _c else "graphs", f or "default"), lc_unit(f, _c), [EQUIV]) for f in (None, "tensor", "global")]
    UNITS += [Unit("are_lc_equivalent (different sizes, %s)" % ("circuits" if _c else "graphs"), sizes_unit(_c), [EQUIV])]

BOUNDED = [
    "completeness (a circuit is equivalent to itself and to its connected local complements; answers on all graphs of up to 5 nodes against the orbits of local complementation): the search's exhaustiveness is decided by running it, not proved",
]
TRUSTED = [
    "stabiliser groups: invertible single-qubit Cliffords map independent generators to independent ones, so a stabiliser group whose generators all land in a group of the same size is mapped onto it (the proof shows, for every generator, that its image satisfies z' = x' H); Pauli signs are not part of the binary picture",
]
