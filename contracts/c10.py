r"""C10: binary linear solver (mentpy/calculator/linalg2.py, mentpy/mbqc/flow.py)"""
from .common import *

F1 = "mentpy.calculator.linalg2.solve"
F2 = "mentpy.mbqc.flow.binary_gaussian_elimination"
WALL = 200


def sums_in(ctx, e):
    out, st, seen = [], [z(zint(e))], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.get_id() in ctx.sum_terms:
            out.append(x)
            continue
        st.extend(x.children())
    return out


def xor(a, b):
    return z3.If(a == b, z3.IntVal(0), z3.IntVal(1))


class Dot:
    """parity (0 or 1) of the first k terms of row r of the 0/1 matrix f with the vector y:
    D(r,0)=0, D(r,k+1) = D(r,k) xor (f(r,k) and y(k))"""

    def __init__(self, it, f, y, name="D"):
        self.ctx, self.f, self.y = it.ctx, f, y
        self.D = z3.Function(it.ctx.uid(name), I, I, I)

    def __call__(self, r, k):
        r, k = z(r), z3.simplify(z(k))
        t = self.D(r, k)
        p = z3.simplify(k - 1)
        self.ctx.once(("dot", t.get_id()), lambda: [z3.And(t >= 0, t <= 1), z3.Implies(k == 0, t == 0), z3.Implies(k > 0, t == z3.If(z3.And(z(self.f(r, p)) == 1, self.y(p)), 1 - self.D(r, p), self.D(r, p)))])
        return t


class Sys:
    """the linear system: matrix A, right hand side b, a solution xs, and the final answer y
    (a prophecy: an arbitrary vector, identified with the returned one at the end)"""

    def __init__(self, it, qual, gf, flat):
        ctx = self.ctx = it.ctx
        self.it, self.qual, self.gf = it, qual, gf
        self.m, self.n = ctx.int("rows"), ctx.int("cols")
        ctx.assume(And(self.m >= 0, self.n >= 0))
        dt = "gf2" if gf else "i"
        a, b = ctx.func("A", I, I, I), ctx.func("b", I, I)
        i, j = z3.Ints("i!b j!b")
        ctx.assume(z3.ForAll([i, j], z3.And(a(i, j) >= 0, a(i, j) <= 1), patterns=[a(i, j)]))
        ctx.assume(z3.ForAll([i], z3.And(b(i) >= 0, b(i) <= 1), patterns=[b(i)]))
        self.A = SArr((self.m, self.n), lambda i, j: a(z(i), z(j)), dt)
        self.b = SArr((self.m,), lambda i: b(z(i)), dt) if flat else SArr((self.m, 1), lambda i, j: b(z(i)), dt)
        self.M0 = lambda r, c: z3.If(z(c) < self.n, a(z(r), z(c)), b(z(r)))
        xs, y = ctx.func("solution", I, B), ctx.func("answer", I, B)
        self.xs, self.y = xs, y
        r = z3.Int("r!s")
        d = Dot(it, self.M0, xs, "D0s")
        self.ds0 = d
        ctx.assume(z3.ForAll([r], z3.Implies(z3.And(r >= 0, r < self.m), d.D(r, self.n) == b(r)), patterns=[b(r)]))
        # the equation that is checked at the end
        self.r0 = ctx.int("equation")
        self.dy0 = Dot(it, self.M0, y, "D0y")
        self.viol0 = And(rng(self.r0, self.m), self.dy0(self.r0, self.n) != b(self.r0))
        self.goal = Implies(rng(self.r0, self.m), self.dy0(self.r0, self.n) == b(self.r0))
        it.loop_specs[(qual, 0)] = Elim(self)
        it.loop_specs[(qual, 1)] = Inv(inv=self.no_pivot)
        it.loop_specs[(qual, 2)] = Inv(exact={"augmented_matrix": self.eliminated})
        it.loop_specs[(qual, 3)] = Back(self)

    def no_pivot(self, L, k):
        m = L.v("augmented_matrix").snap()
        r, row, col = z3.Int("r!n"), z(L.v("row")), z(L.v("col"))
        return [z3.ForAll([r], z3.Implies(z3.And(r >= row, r < row + z(k)), z(zint(m(r, col))) == 0))]

    def eliminated(self, L, k):
        """rows row+1 .. row+k have the pivot row added where they had a 1 in the column"""
        f = L.e("augmented_matrix").snap()
        row, col = z(L.v("row")), z(L.v("col"))

        def e(r, c):
            r, c = z(r), z(c)
            hit = z3.And(r > row, r < row + 1 + z(k), z(zint(f(r, col))) == 1)
            return z3.If(hit, z3.If(z(zint(f(r, c))) == z(zint(f(row, c))), z3.IntVal(0), z3.IntVal(1)), z(zint(f(r, c))))

        return SArr(L.e("augmented_matrix").shape, e, L.e("augmented_matrix").dtype)


def bits_of(f, m, n):
    i, j = z3.Ints("i!b j!b")
    return z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < m, j >= 0, j <= n), z3.And(z(f(i, j)) >= 0, z(f(i, j)) <= 1)), patterns=[f(i, j)] if is_uf(f(i, j)) else [])


def is_uf(e):
    return z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.num_args() > 0


class Elim:
    """elimination loop.  Ghost state: pivot columns pc, the row w violated by the answer"""

    kind = "for"

    def __init__(self, S):
        self.S = S

    def bind(self, L):
        S = self.S
        for nm in ("augmented_matrix", "row"):
            L.v(nm)
        self.dt = L.v("augmented_matrix").dtype

    def claims(self, st, k, row):
        S = self.S
        m, n, row, k = S.m, S.n, z(row), z(k)
        f, pc = st["f"], st["pc"]
        r, t, s, c = z3.Ints("r!e t!e s!e c!e")
        inr = lambda x: z3.And(x >= 0, x < row)
        pat = [f(t, c)] if is_uf(f(t, c)) else []
        pp = [pc(t)] if is_uf(pc(t)) else []
        p2 = [multi(pc(s), pc(t))] if is_uf(pc(t)) else []
        return [
            ("row range", z3.And(row >= 0, row <= m, row <= k)),
            ("entries 0 or 1", bits_of(f, m, n)),
            ("pivots", z3.ForAll([t], z3.Implies(inr(t), z3.And(pc(t) >= 0, pc(t) < k, z(f(t, pc(t))) == 1)), patterns=pp)),
            ("pivots increase", z3.ForAll([s, t], z3.Implies(z3.And(s >= 0, s < t, t < row), pc(s) < pc(t)), patterns=p2)),
            ("zeros before the pivot", z3.ForAll([t, c], z3.Implies(z3.And(inr(t), c >= 0, c < pc(t)), z(f(t, c)) == 0), patterns=pat)),
            ("zeros below", z3.ForAll([t, c], z3.Implies(z3.And(t >= row, t < m, c >= 0, c < k), z(f(t, c)) == 0), patterns=pat)),
            ("solution kept", z3.ForAll([r], z3.Implies(z3.And(r >= 0, r < m), st["ds"].D(r, n) == z(f(r, n))), patterns=[st["ds"].D(r, n)])),
            ("violated equation kept", z3.Implies(S.viol0, z3.And(st["w"] >= 0, st["w"] < m, st["dy"](st["w"], n) != z(f(st["w"], n))))),
        ]

    def prove(self, L, st, k, row, phase):
        for nm, f in self.claims(st, k, row):
            L.ctx.prove("%s/%s:%s" % (L.where, phase, nm), f)

    def check(self, L, k, phase):
        S = self.S
        if phase == "init":
            M = L.v("augmented_matrix")
            prove_eq(L.it, L.where + "/init:augmented matrix", M, SArr((S.m, z3.simplify(S.n + 1)), S.M0, self.dt))
            self.prove(L, dict(f=S.M0, pc=L.ctx.func("pc", I, I), w=S.r0, ds=S.ds0, dy=S.dy0), 0, L.v("row"), phase)
        else:
            st = self.step(L, z3.simplify(z(k) - 1))
            self.prove(L, st, k, L.v("row"), phase)

    def havoc(self, L, k):
        from pyvc.spec import put

        S, ctx, it = self.S, L.ctx, L.it
        f = ctx.func("M", I, I, I)
        row = ctx.int("row")
        put(L, "augmented_matrix", SArr((S.m, z3.simplify(S.n + 1)), lambda i, j: f(z(i), z(j)), self.dt))
        put(L, "row", row)
        st = self.st = dict(f=f, pc=ctx.func("pc", I, I), w=ctx.int("violated"), ds=Dot(it, f, S.xs, "Ds"), dy=Dot(it, f, S.y, "Dy"), rank=row)
        for nm, g in self.claims(st, k, row):
            ctx.assume(g)

    def enter(self, L, k):
        pass

    def step(self, L, col):
        """the state after the body, with the lemmas that relate it to the state before"""
        S, it, ctx = self.S, L.it, L.ctx
        m, n = S.m, S.n
        old = self.st
        M = L.v("augmented_matrix")
        for d, want in zip(M.shape, (m, n + 1)):
            ctx.prove(L.where + "/preserve:shape", z(d) == want)
        row1, row = z(L.v("row")), z(old["rank"])
        g, F = M.snap(), ctx.func("Mn", I, I, I)
        i, j = z3.Ints("i!b j!b")
        ctx.assume(z3.ForAll([i, j], F(i, j) == z(zint(g(i, j))), patterns=[F(i, j)]))  # a name for the matrix
        pc = old["pc"]
        new = dict(f=F, pc=lambda t: z3.If(z(t) < row, pc(t), z(col)), ds=Dot(it, F, S.xs, "Dsn"), dy=Dot(it, F, S.y, "Dyn"), rank=row1)
        if z3.simplify(row1).eq(z3.simplify(row)):
            p, sw, flag = row, (lambda r: z(r)), (lambda r: z3.BoolVal(False))
        else:
            p = z(L.v("pivot_row"))
            sw = lambda r: z3.If(z(r) == row, p, z3.If(z(r) == p, row, z(r)))
            flag = lambda r: z3.And(z(r) > row, z(r) < m, z(old["f"](sw(r), col)) == 1)
            ctx.prove(L.where + "/preserve:pivot row", z3.And(p >= row, p < m, z(old["f"](p, col)) == 1))
        uses = {}
        q, c = ctx.int("rq"), ctx.int("cq")
        of = old["f"]
        ctx.prove(L.where + "/preserve:row operations", Implies(And(rng(q, m), c >= 0, c <= n), F(q, c) == z3.If(flag(q), z3.If(of(sw(q), c) == of(p, c), z3.IntVal(0), z3.IntVal(1)), of(sw(q), c))), assume=False)
        ctx.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < m, j >= 0, j <= n), F(i, j) == z3.If(flag(i), z3.If(of(sw(i), j) == of(p, j), z3.IntVal(0), z3.IntVal(1)), of(sw(i), j))), patterns=[F(i, j)]))
        for d in ("ds", "dy"):
            o, nw = old[d], new[d]

            def stmt(kk, r, o=o, nw=nw):
                kk = z(kk)
                rhs = z3.If(flag(r), xor(o(sw(r), kk), o(p, kk)), o(sw(r), kk))
                return Implies(And(rng(r, m), kk <= n), nw(r, kk) == rhs)

            uses[d] = induct(it, L.where + "/partial sums of the new rows (%s)" % d, stmt, [("r", I)], ih=lambda k_, r: [(r,)])
        r = z3.Int("r!s")
        q = ctx.int("r_any")
        o, nw = old["ds"], new["ds"]
        uses["ds"](n, q)
        ctx.prove(L.where + "/solution satisfies every new row", Implies(rng(q, m), nw(q, n) == F(q, n)), assume=False)
        ctx.assume(z3.ForAll([r], z3.Implies(z3.And(r >= 0, r < m), nw.D(r, n) == F(r, n)), patterns=[nw.D(r, n)]))
        w = z(old["w"])
        sww = sw(w)
        uses["dy"](n, sww)
        uses["dy"](n, row)
        new["w"] = z3.If(new["dy"](sww, n) != F(sww, n), sww, row)
        return new

    def on_break(self, L, k):
        st = self.step(L, k)
        kk = z3.simplify(z(k) + 1)
        self.prove(L, st, kk, L.v("row"), "break")
        self.after(L, st, kk)

    def on_exit(self, L, n):
        self.after(L, self.st, n)

    def after(self, L, st, k):
        S, ctx = self.S, L.ctx
        S.final = st
        rank = S.rank = z(st["rank"])
        m, n, F = S.m, S.n, st["f"]
        ctx.prove("elimination: all rows or all columns used", z3.Or(rank == m, z(k) == n))
        ctx.prove("elimination: rank at most the number of columns", rank <= n)
        t, c = z3.Ints("t!z c!z")
        z0 = lambda r: z3.And(r >= rank, r < m)
        ctx.prove("elimination: rows without pivot vanish", z3.ForAll([t, c], z3.Implies(z3.And(z0(t), c >= 0, c < n), F(t, c) == 0)))
        ds = st["ds"]
        use = induct(L.it, "elimination: a vanishing row sums to 0", lambda k_, r: Implies(And(z0(r), z(k_) <= n), ds(r, k_) == 0), [("r", I)], ih=lambda k_, r: [(r,)])
        q = ctx.int("r_zero")
        use(n, q)
        ctx.prove("elimination: rows without pivot are consistent", Implies(z0(q), F(q, n) == 0), assume=False)
        ctx.assume(z3.ForAll([t], z3.Implies(z0(t), F(t, n) == 0), patterns=[F(t, n)]))


class Back:
    """back substitution: every row from the current one on is satisfied by x"""

    kind = "for"

    def __init__(self, S):
        self.S = S

    def bind(self, L):
        S, ctx = self.S, L.ctx
        M = L.v("augmented_matrix").snap()
        i, j = ctx.int("bi"), ctx.int("bj")
        ctx.prove(L.where + "/init:matrix of the elimination", Implies(And(rng(i, S.m), j >= 0, j <= S.n), z(zint(M(i, j))) == S.final["f"](i, j)))
        ctx.prove(L.where + "/init:rows from the last possible pivot row", z3.And(z(L.n) >= S.rank, z(L.n) <= S.m))

    def dot(self, L, name):
        x = L.v("x").snap()
        return Dot(L.it, self.S.final["f"], lambda c: z(zint(x(c))) % 2 == 1, name)

    def claim(self, L, d, k):
        S = self.S
        lo = z3.simplify(z(L.n) - z(k))
        r = z3.Int("r!x")
        return z3.ForAll([r], z3.Implies(z3.And(r >= lo, r < S.m), d.D(r, S.n) == S.final["f"](r, S.n)), patterns=[d.D(r, S.n)])

    def zero_rows(self, L, d, tag):
        """rows without pivot are satisfied by every vector"""
        S = self.S
        z0 = lambda r: z3.And(z(r) >= S.rank, z(r) < S.m)
        return induct(L.it, "%s/%s: a vanishing row sums to 0" % (L.where, tag), lambda k_, r: Implies(And(z0(r), z(k_) <= S.n), d(r, k_) == 0), [("r", I)], ih=lambda k_, r: [(r,)])

    def check(self, L, k, phase):
        S, ctx, it = self.S, L.ctx, L.it
        n, m, F = S.n, S.m, S.final["f"]
        x = L.v("x")
        ctx.prove("%s/%s:vector of the right length" % (L.where, phase), And(x.ndim == 1, z(x.shape[0]) == n, x.dtype == "i"))
        if self.S.gf:
            j0 = ctx.int("j_bit")
            e0 = z(zint(x.get(j0)))
            ctx.prove("%s/%s:entries 0 or 1" % (L.where, phase), Implies(rng(j0, n), And(e0 >= 0, e0 <= 1)), assume=False)
        d = self.dot(L, "Dx")
        use0 = self.zero_rows(L, d, phase)
        q = ctx.int("r_any")
        lo = z3.simplify(z(L.n) - z(k))
        if phase == "init":
            use0(n, q)
            ctx.prove(L.where + "/init:later rows are satisfied", Implies(And(q >= lo, q < m), d(q, n) == F(q, n)), assume=False)
            return
        old = self.d
        t = lo  # the row just processed
        pc = S.final["pc"]
        c0 = z(L.v("col"))
        ctx.prove(L.where + "/preserve:the column is the pivot of the row", Implies(t < S.rank, c0 == pc(t)))
        xf, xo = x.snap(), self.x
        j = ctx.int("j_any")
        ctx.prove(L.where + "/preserve:only that entry changes", Implies(And(rng(j, n), j != c0), z(zint(xf(j))) == xo(j)), assume=False)
        jj = z3.Int("j!x")
        xn = ctx.func("xn", I, I)
        ctx.assume(z3.ForAll([jj], xn(jj) == z(zint(xf(jj))), patterns=[xn(jj)]))
        ctx.assume(z3.ForAll([jj], z3.Implies(z3.And(jj >= 0, jj < n, jj != c0), xn(jj) == xo(jj)), patterns=[xn(jj)]))
        d = Dot(it, F, lambda c: xn(z(c)) % 2 == 1, "Dxn")
        use0 = self.zero_rows(L, d, phase)
        # rows below: their entry in the changed column is 0
        use1 = induct(it, L.where + "/preserve: rows without the changed column keep their sum", lambda k_, r: Implies(And(rng(r, m), F(r, c0) == 0, z(k_) <= n), d(r, k_) == old(r, k_)), [("r", I)], ih=lambda k_, r: [(r,)])
        # the row itself
        use2 = induct(it, L.where + "/preserve: nothing before the pivot", lambda k_: Implies(And(t < S.rank, z(k_) <= c0), d(t, k_) == 0), [])
        terms = sums_in(ctx, xf(c0))
        if len(terms) != 1:
            raise Unsupported("the updated entry is not one sum")
        s, cnt, body, sq = ctx.sum_terms[terms[0].get_id()]
        at = lambda k_: s.decl()(*s.children()[:-1], z3.simplify(z(k_)))
        use2(c0)
        d(t, z3.simplify(c0 + 1))
        rest = z3.simplify(n - c0 - 1)
        ctx.prove(L.where + "/preserve:the sum runs over the later columns", z(cnt) == rest)
        use3 = induct(it, L.where + "/preserve: later columns", lambda k_: Implies(And(t < S.rank, z(k_) <= rest), d(t, z3.simplify(c0 + 1 + z(k_))) == xor(xn(c0) % 2, at(k_) % 2)), [])
        use3(rest)
        d(t, n)
        ctx.prove(L.where + "/preserve:the current row is satisfied", Implies(t < S.rank, d(t, n) == F(t, n)))
        use0(n, q)
        use1(n, q)
        ctx.assume(Implies(And(q >= t + 1, q < m), old(q, n) == F(q, n)))  # instance of the invariant
        ctx.prove(L.where + "/preserve:later rows stay satisfied", Implies(And(q > t, q < m), d(q, n) == F(q, n)), assume=False)
        use0(n, t)
        ctx.prove(L.where + "/preserve:a row without pivot is satisfied", Implies(t >= S.rank, d(t, n) == F(t, n)))

    def havoc(self, L, k):
        from pyvc.spec import put

        S, ctx = self.S, L.ctx
        x = self.x = ctx.func("x", I, I)
        put(L, "x", SArr((S.n,), lambda i: x(z(i)), "i"))
        if S.gf:
            c = z3.Int("c!g")
            ctx.assume(z3.ForAll([c], z3.Implies(z3.And(c >= 0, c < S.n), z3.And(x(c) >= 0, x(c) <= 1)), patterns=[x(c)]))
        self.d = Dot(L.it, S.final["f"], lambda c: x(z(c)) % 2 == 1, "Dx")
        ctx.assume(self.claim(L, self.d, k))

    def enter(self, L, k):
        pass

    def on_break(self, L, k):
        raise Unsupported("break in the back substitution")

    def on_exit(self, L, n):
        S, ctx = self.S, L.ctx
        # from here on the answer y is the vector computed
        c = z3.Int("c!y")
        ctx.assume(z3.ForAll([c], S.y(c) == (self.x(c) % 2 == 1), patterns=[S.y(c)]))
        d, dy = self.d, S.final["dy"]
        use = induct(L.it, "answer: same partial sums", lambda k_, r: d(r, k_) == dy(r, k_), [("r", I)], ih=lambda k_, r: [(r,)])
        w = S.final["w"]
        use(S.n, w)
        ctx.assume(Implies(rng(w, S.m), d(w, S.n) == S.final["f"](w, S.n)))  # instance of the invariant


def t_solve(qual, gf, flat):
    def unit(it):
        ctx = it.ctx
        S = Sys(it, qual, gf, flat)
        x = unwritten(it, "frame: arguments not modified", [S.A, S.b], lambda: it.call(it.fn(qual), [S.A, S.b]))
        ctx.prove("post: a vector", isinstance(x, SArr) and x.ndim == 1)
        ctx.prove("post: one entry per column", z(x.shape[0]) == S.n)
        j = ctx.int("j")
        ctx.assume(rng(j, S.n))
        v = z(zint(x.get(j)))
        ctx.prove("post: entries 0 or 1", And(v >= 0, v <= 1))
        ctx.prove("post: the answer is the returned vector", S.y(j) == (v == 1))
        ctx.prove("post: every equation holds", S.goal)

    return unit


UNITS = [Unit("%s (%s, %s)" % (q.split(".")[-1], "GF(2)" if gf else "integers", "b column" if not flat else "b flat"), t_solve(q, gf, flat), [q]) for q in (F1, F2) for gf in (False, True) for flat in (False, True)]
ASSUMES = ["A is a matrix with entries 0/1 and b a vector (flat or column) with entries 0/1, of matching sizes; any number of rows and columns including 0", "prophecy: the answer y is an arbitrary vector during the elimination and identified with the returned vector at the end"]
