"""C09: Pauli operators (mentpy/operators/pauliop.py)"""
from .common import *
from pyvc.lib_str import SLine, SLines, AChar
from pyvc.core import intern_str

P = "mentpy.operators.pauliop.PauliOp"
WALL = 150
CX, CY, CZ, CI = (intern_str(c) for c in "XYZI")


def xbit(c):
    return z3.If(z3.Or(c == CX, c == CY), z3.IntVal(1), z3.IntVal(0))


def zbit(c):
    return z3.If(z3.Or(c == CZ, c == CY), z3.IntVal(1), z3.IntVal(0))


def valid(c):
    return z3.Or(c == CX, c == CY, c == CZ, c == CI)


def letter(x, zz):
    return z3.If(z(x) == 1, z3.If(z(zz) == 1, z3.IntVal(CY), z3.IntVal(CX)), z3.If(z(zz) == 1, z3.IntVal(CZ), z3.IntVal(CI)))


def chars(it, name, ok=True):
    """arbitrary characters ch(row, qubit), separators and spaces excluded"""
    f = it.ctx.func(name, I, I, I)
    i, j = z3.Ints("i!p j!p")
    c = f(i, j)
    no = z3.And(*[c != intern_str(s) for s in "\n; "])
    it.ctx.assume(z3.ForAll([i, j], z3.And(no, valid(c)) if ok else no, patterns=[c]))
    return f


def bits(it, name, m, n, dt="i"):
    f = it.ctx.func(name, I, I, I)
    i, j = z3.Ints("i!p j!p")
    it.ctx.assume(z3.ForAll([i, j], z3.And(f(i, j) >= 0, f(i, j) <= 1), patterns=[f(i, j)]))
    return SArr((m, n), lambda i, j: f(z(i), z(j)), dt)


def twice(n):
    return z3.simplify(2 * z(n))


def tab_of(ch, m, n, dt="gf2"):
    n = z(n)
    return SArr((m, twice(n)), lambda i, j: z3.If(z(j) < n, xbit(ch(i, j)), zbit(ch(i, z3.simplify(z(j) - n)))), dt)


def text_of(mat, n):
    f, m = mat.snap(), mat.shape[0]
    return SLines("\n", m, lambda i: n, lambda i, j: letter(f(i, j), f(i, z3.simplify(z(j) + z(n)))))


def rows_txt(ch, m, n, sep="\n"):
    return SLines(sep, m, lambda i: n, lambda i, j: ch(i, j))


class Row:
    """a one-row operator built from a line of text (contract of the constructor for a
    single row: unit `init/…` with one row)"""

    def __init__(self, it, line):
        self.it, self.line = it, line
        self.cls = it.fn(P)

    def __pyvc_subst__(self, pairs):
        return Row(self.it, self.line.__pyvc_subst__(pairs))

    def __pyvc_getattr__(self, it, name):
        if name == "txt":
            return self.line
        if name == "matrix":
            return tab_of(lambda i, j: self.line.ch(j), 1, self.line.w)
        raise Unsupported("attribute %s of a row" % name)

    def __pyvc_len__(self, it):
        return 1


def con_row(it):
    """contract of PauliOp(text of one row)"""

    def con(it_, a, k):
        v = a[0] if a else k["op"]
        if not isinstance(v, SLine):
            raise Unsupported("PauliOp of %r inside the constructor" % (v,))
        j = it.ctx.int("pj")
        it.ctx.prove("pre: a row contains only Pauli letters", Implies(rng(j, v.w), valid(z(v.ch(j)))))
        it.ctx.prove("pre: a row is not empty", z(v.w) >= 1)
        return Row(it, v)

    it.contracts[P] = con


def sizes(it):
    m, n = it.ctx.int("rows"), it.ctx.int("qubits")
    it.ctx.assume(And(m >= 1, n >= 1))
    return m, n


def mat_specs(it, ch, m, n):
    """invariants of _txt_to_mat: entries of the rows/columns already read"""
    n_ = z(n)

    def upto(L, cond):
        full = tab_of(ch, m, n, "i")
        f = full.snap()

        def e(i, j):
            q = z3.If(z(j) < n_, z(j), z(j) - n_)
            return z3.If(cond(z(i), q), z(zint(f(i, j))), z3.IntVal(0))

        return SArr((m, twice(n)), e, "i")

    i, j = z3.Ints("i!v j!v")
    good = lambda r, c: valid(ch(r, c))
    it.loop_specs[(P + "._txt_to_mat", 0)] = Inv(
        exact={"mat": lambda L, k: upto(L, lambda r, q: r < z(k))}, inv=lambda L, k: [z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < z(k), j >= 0, j < n_), good(i, j)), patterns=[ch(i, j)])]
    )

    def inner(L, k):
        r = z(L.v("i"))
        return upto(L, lambda a, q: z3.Or(a < r, z3.And(a == r, q < z(k))))

    it.loop_specs[(P + "._txt_to_mat", 1)] = Inv(exact={"mat": inner}, inv=lambda L, k: [z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < z(k)), good(z(L.v("i")), j)), patterns=[ch(z(L.v("i")), j)])])


def txt_specs(it, mat, n):
    """invariants of _mat_to_txt: the lines already written"""
    f, m = mat.snap(), mat.shape[0]
    let = lambda i, j: letter(f(i, j), f(i, z3.simplify(z(j) + z(n))))

    def outer(L, k):
        k = z(k)
        return SLines("\n", z3.If(k < z(m), k + 1, k), lambda r: z3.If(z(r) < k, z(n), z3.IntVal(0)), let)

    def inner(L, k):
        i, k = z(L.v("i")), z(k)
        nl = z3.And(k == z(n), i != z(m) - 1)
        return SLines("\n", i + 1 + z3.If(nl, 1, 0), lambda r: z3.If(z(r) < i, z(n), z3.If(z(r) == i, k, z3.IntVal(0))), let)

    it.loop_specs[(P + "._mat_to_txt", 0)] = Inv(exact={"txt": outer})
    it.loop_specs[(P + "._mat_to_txt", 1)] = Inv(exact={"txt": inner})


def check_op(it, o, txt, mat, tag="post: "):
    ctx = it.ctx
    g = lambda nm: it.getattr(o, nm)
    prove_eq(it, tag + "tableau", g("matrix"), mat)
    ctx.prove(tag + "tableau is over GF(2)", g("matrix").dtype == "gf2")
    ctx.prove(tag + "text", it.eq(g("txt"), txt))
    arr = g("_array")
    m = mat.shape[0]
    if isinstance(arr, VList) and len(arr) == 1:
        ctx.prove(tag + "single row refers to the operator itself", And(z(m) == 1, arr[0] is o))
        return
    ok = isinstance(arr, SSeq)
    ctx.prove(tag + "list of rows", ok)
    if not ok:
        return
    ctx.prove(tag + "one entry per row", z(arr.n) == z(m))
    i = ctx.int("row")
    ctx.assume(rng(i, m))
    e = arr.f(i)
    ctx.prove(tag + "entry is a Pauli operator", isinstance(e, Row))
    if isinstance(e, Row):
        ln = txt.lines().f(i)
        ctx.prove(tag + "entry i is row i", it.eq(e.line, ln))


def build(it, arg):
    o = Obj(it.fn(P))
    it.call(it.fn(P + ".__init__"), [o, arg])
    return o


def t_matrix(dt):
    def unit(it):
        m, n = sizes(it)
        mat = bits(it, "t", m, twice(n), dt)
        con_row(it)
        txt_specs(it, mat, n)
        o = unwritten(it, "frame: argument not modified", [mat], lambda: build(it, mat))
        check_op(it, o, text_of(mat, n), SArr(mat.shape, mat.snap(), "gf2"))

    return unit


def t_matrix_odd(it):
    ctx = it.ctx
    m, c = ctx.int("rows"), ctx.int("cols")
    ctx.assume(And(m >= 1, c >= 1, c % 2 == 1))
    mat = bits(it, "t", m, c)
    must_raise(it, "post: odd number of columns rejected", lambda: build(it, mat), "ValueError")


def t_strings(form):
    """text with rows of equal width: `a;b;c` / `a;b;c;` / with spaces / list of rows"""

    def unit(it):
        ctx = it.ctx
        m, n = sizes(it)
        ch = chars(it, "ch")
        con_row(it)
        mat_specs(it, ch, m, n)
        if form == "list":
            src = rows_txt(ch, m, n).lines()
            src.kind = "list"
            o = unwritten(it, "frame: argument not modified", [src], lambda: build(it, src))
        else:
            if form == "text":
                s = rows_txt(ch, m, n, ";")
            else:
                s = SLines(";", z3.simplify(m + 1), lambda i: z3.If(z(i) < m, n, z3.IntVal(0)), lambda i, j: ch(i, j))
            s.free_of = ("\n",)
            s.spaceless = s
            raw = SLines(";", s.n, ctx.func("raw_w", I, I), ctx.func("raw_c", I, I, I))
            raw.spaceless = s
            o = build(it, raw)
        check_op(it, o, rows_txt(ch, m, n), tab_of(ch, m, n))

    return unit


def t_unequal(form):
    """some row has another width: rejected"""

    def unit(it):
        ctx = it.ctx
        m = ctx.int("rows")
        w = ctx.func("width", I, I)
        i, r = z3.Int("i!w"), ctx.int("odd_row")
        ctx.assume(And(m >= 2, r >= 0, r < m, w(r) != w(0)))
        ctx.assume(z3.ForAll([i], w(i) >= 1, patterns=[w(i)]))
        ch = chars(it, "ch")
        s = SLines(";", m, lambda i: w(z(i)), lambda i, j: ch(i, j))
        s.spaceless, s.free_of = s, ("\n",)
        ctx.assume(w(m - 1) >= 1)

        def con(it_, a, k):
            ctx.prove("post: unequal rows are not read", False)
            raise StopPath()

        it.contracts[P + "._txt_to_mat"] = con
        must_raise(it, "post: unequal rows rejected", lambda: build(it, s if form == "text" else s.lines()), "ValueError")

    return unit


def t_badchar(it):
    """some character is not a Pauli letter: rejected"""
    ctx = it.ctx
    m, n = sizes(it)
    ch = chars(it, "ch", False)
    r, q = ctx.int("bad_row"), ctx.int("bad_qubit")
    ctx.assume(And(rng(r, m), rng(q, n), z3.Not(valid(ch(r, q)))))
    mat_specs(it, ch, m, n)
    src = rows_txt(ch, m, n).lines()
    o = Obj(it.fn(P))
    must_raise(it, "post: unknown letter rejected", lambda: it.call(it.fn(P + "._txt_to_mat"), [o, src]), "ValueError")


def t_other(it):
    must_raise(it, "post: other arguments rejected", lambda: build(it, it.ctx.int("x")), "ValueError")
    must_raise(it, "post: None rejected", lambda: build(it, None), "ValueError")


def op(it, name, m, n):
    o = Obj(it.fn(P))
    o.fields["matrix"] = bits(it, name, m, twice(n), "gf2")
    return o


def capture(it):
    """contract of PauliOp(tableau): the operator of that tableau (units init/matrix)"""

    def con(it_, a, k):
        v = a[0] if a else k["op"]
        if not isinstance(v, SArr):
            raise Unsupported("PauliOp of %r" % (v,))
        it.ctx.prove("pre: tableau is a matrix", v.ndim == 2)
        i, j = it.ctx.int("pi"), it.ctx.int("pj")
        e = z(zint(v.get(i, j)))
        it.ctx.prove("pre: tableau entries are 0 or 1", Implies(And(rng(i, v.shape[0]), rng(j, v.shape[1])), z3.Or(e == 0, e == 1)))
        it.ctx.prove("pre: even number of columns", z(v.shape[1]) % 2 == 0)
        o = Obj(it.fn(P))
        o.fields["matrix"] = SArr(v.shape, v.snap(), "gf2")
        return o

    it.contracts[P] = con


def xor(a, b):
    return (z(zint(a)) + z(zint(b))) % 2


def is_product(it, r, A, B, tag):
    ok = isinstance(r, Obj) and r.cls is it.fn(P)
    it.ctx.prove(tag + " is a Pauli operator", ok)
    if ok:
        f, g = A.fields["matrix"].snap(), B.fields["matrix"].snap()
        prove_eq(it, tag + ": tableaux added mod 2", r.fields["matrix"], SArr(A.fields["matrix"].shape, lambda i, j: xor(f(i, j), g(i, j)), "gf2"))


def t_mul(it):
    m, n = sizes(it)
    A, B = op(it, "a", m, n), op(it, "b", m, n)
    capture(it)
    r = unwritten(it, "frame: operands not modified", [A, B, A.fields["matrix"], B.fields["matrix"]], lambda: it.binop("*", A, B))
    is_product(it, r, A, B, "product")


def anti(A, B, i, j, k, n):
    """1 when the letters at qubit k of row i of A and row j of B anticommute"""
    f, g = A.fields["matrix"].snap(), B.fields["matrix"].snap()
    a = letter(f(i, k), f(i, z3.simplify(z(k) + z(n))))
    b = letter(g(j, k), g(j, z3.simplify(z(k) + z(n))))
    return z3.If(z3.And(a != b, a != CI, b != CI), z3.IntVal(1), z3.IntVal(0))


def t_symplectic(it):
    """parity of the number of qubits on which the letters anticommute"""
    ctx = it.ctx
    m, n = sizes(it)
    m2 = ctx.int("rows2")
    ctx.assume(m2 >= 1)
    A, B = op(it, "a", m, n), op(it, "b", m2, n)
    r = unwritten(it, "frame: operands not modified", [A, B, A.fields["matrix"], B.fields["matrix"]], lambda: it.call(it.getattr(A, "symplectic_prod"), [B]))
    ctx.prove("post: matrix of products", isinstance(r, SArr) and r.ndim == 2)
    ctx.prove("post: one value per pair of rows", And(z(r.shape[0]) == m, z(r.shape[1]) == m2))
    i, j = ctx.int("i"), ctx.int("j")
    ctx.assume(And(rng(i, m), rng(j, m2)))
    got = z(zint(r.get(i, j)))
    terms = sums_in(ctx, got)
    want = ctx.sum(n, lambda k: anti(A, B, i, j, k, n))
    wt = ctx.sum_terms[want.get_id()]
    # induction over the qubits: the summed inner products have the parity of the count
    part = lambda t, k: z3.substitute_vars  # (documentation only)
    def at(t, k):
        s = ctx.sum_terms[t.get_id()][0]
        return s.decl()(*s.children()[:-1], z(k))

    def stmt(k):
        body = z3.substitute(got, *[(t, at(t, k)) for t in terms])
        return Implies(z(k) <= n, body % 2 == at(want, k) % 2)

    use = induct(it, "parity of the count", stmt, [])
    use(n)
    for t in terms:
        ctx.prove("inner products run over all qubits", z(ctx.sum_terms[t.get_id()][1]) == n)
    ctx.prove("post: 1 exactly when the number of anticommuting letters is odd", got == want % 2)


def sums_in(ctx, e):
    out, st, seen = [], [z(zint(e))], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.get_id() in ctx.sum_terms:
            out.append(x)
            continue
        st.extend(x.children())
    return out


def t_commutator(it):
    ctx = it.ctx
    n = ctx.int("qubits")
    ctx.assume(n >= 1)
    A, B = op(it, "a", 1, n), op(it, "b", 1, n)
    s = ctx.int("sp")
    ctx.assume(And(s >= 0, s <= 1))
    seen = []

    def sp(it_, a, k):
        seen.append((a[0], a[1]))
        return SArr((1, 1), lambda i, j: s, "gf2")

    it.contracts[P + ".symplectic_prod"] = sp
    capture(it)
    r = unwritten(it, "frame: operands not modified", [A, B, A.fields["matrix"], B.fields["matrix"]], lambda: it.call(it.getattr(A, "commutator"), [B]))
    ctx.prove("post: decided by the symplectic product of the two", len(seen) >= 1 and all(set(map(id, p)) == {id(A), id(B)} for p in seen))
    if ctx.branch(s == 0):
        ctx.prove("post: commuting operators have commutator 0", is_num(r) and not is_z3(r) and r == 0)
        return
    is_product(it, r, A, B, "commutator of anticommuting operators")


def t_eq(it):
    ctx = it.ctx
    m, n = sizes(it)
    m2, n2 = ctx.int("rows2"), ctx.int("qubits2")
    ctx.assume(And(m2 >= 1, n2 >= 1))
    A, B = op(it, "a", m, n), op(it, "b", m2, n2)
    f, g = A.fields["matrix"].snap(), B.fields["matrix"].snap()
    r = it.truth(it.eq(A, B))
    i, j = z3.Ints("i!e j!e")
    same = z3.And(m == m2, n == n2, z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < m, j >= 0, j < 2 * n), z(f(i, j)) == z(g(i, j)))))
    ctx.prove("post: equal exactly when shapes and tableaux agree (1)", Implies(r, same))
    ctx.prove("post: equal exactly when shapes and tableaux agree (2)", Implies(same, r))


class Repr:
    """str(array): a function of shape and entries only"""

    def __init__(self, a):
        self.a = a


class Hash:
    def __init__(self, r):
        self.r = r


def t_hash(it):
    """equal operators have equal hashes: the hash is a function of the tableau"""
    m, n = sizes(it)
    A, B = op(it, "a", m, n), op(it, "b", m, n)
    f = A.fields["matrix"].snap()
    B.fields["matrix"] = SArr(A.fields["matrix"].shape, lambda i, j: f(i, j), "gf2")
    for o, nm in ((A, "x"), (B, "y")):
        # anything but the tableau may differ
        o.fields["txt"] = Opaque("text " + nm)
        o.fields["_array"] = Opaque("rows " + nm)
    st, hs = LIB["builtins.str"], LIB["builtins.hash"]
    try:
        LIB["builtins.str"] = LibType("str", lambda it_, a, k: Repr(a[0].copy()) if isinstance(a[0], SArr) else st.ctor(it_, a, k), st.test)
        LIB["builtins.hash"] = Builtin("hash", lambda it_, a, k: Hash(a[0]))
        ha, hb = [it.call(it.getattr(o, "__hash__"), []) for o in (A, B)]
    finally:
        LIB["builtins.str"], LIB["builtins.hash"] = st, hs
    ok = all(isinstance(h, Hash) and isinstance(h.r, (Repr, tuple)) for h in (ha, hb))
    it.ctx.prove("post: hash of the tableau", ok)
    if ok and isinstance(ha.r, Repr):
        prove_eq(it, "post: equal tableaux, equal hashes", ha.r.a, hb.r.a)
    elif ok:
        raise Unsupported("hash of a tuple")


def t_contains(it):
    ctx = it.ctx
    m, n = sizes(it)
    m2 = ctx.int("rows2")
    ctx.assume(m2 >= 1)
    A, B = op(it, "a", m, n), op(it, "b", m2, n)
    f, g = A.fields["matrix"].snap(), B.fields["matrix"].snap()
    mem = ctx.func("is_row", I, B_)
    i, s, c = z3.Ints("i!m s!m c!m")
    wit = ctx.func("row_found", I, I)
    dif = ctx.func("col_differs", I, I, I)
    in_ = lambda x, k: z3.And(x >= 0, x < z(k))
    # definition of is_row(i): row i of B equals some row of A (with witnesses)
    ctx.assume(z3.ForAll([i, c], z3.Implies(z3.And(in_(i, m2), mem(i), in_(c, 2 * n)), z3.And(in_(wit(i), m), z(f(wit(i), c)) == z(g(i, c)))), patterns=[multi(mem(i), g(i, c))]))
    ctx.assume(z3.ForAll([i, s], z3.Implies(z3.And(in_(i, m2), z3.Not(mem(i)), in_(s, m)), z3.And(in_(dif(i, s), 2 * n), z(f(s, dif(i, s))) != z(g(i, dif(i, s))))), patterns=[dif(i, s)]))
    ctx.assume(z3.ForAll([i], z3.Implies(z3.And(in_(i, m2), mem(i)), in_(wit(i), m)), patterns=[mem(i)]))
    ctx.dif = dif

    def step(L, k, phase):
        pass

    it.loop_specs[(P + ".__contains__", 0)] = Inv(inv=lambda L, k: [z3.ForAll([i], z3.Implies(in_(i, k), mem(i)), patterns=[mem(i)])])
    r = it.truth(it.contains(A, B))
    allm = z3.ForAll([i], z3.Implies(in_(i, m2), mem(i)), patterns=[mem(i)])
    ctx.prove("post: contained exactly when every row occurs (1)", Implies(r, allm))
    ctx.prove("post: contained exactly when every row occurs (2)", Implies(allm, r))


B_ = z3.BoolSort()


def t_append(it):
    ctx = it.ctx
    m, n = sizes(it)
    m2 = ctx.int("rows2")
    ctx.assume(m2 >= 1)
    A, B = op(it, "a", m, n), op(it, "b", m2, n)
    mb = B.fields["matrix"]
    f, g = A.fields["matrix"].snap(), mb.snap()
    got = []
    it.contracts[P + ".__init__"] = lambda it_, a, k: got.append((a[0], a[1] if len(a) > 1 else k["op"]))
    unwritten(it, "frame: second operand not modified", [B, mb], lambda: it.call(it.getattr(A, "append"), [B]))
    ok = len(got) == 1 and got[0][0] is A and isinstance(got[0][1], SArr)
    ctx.prove("post: re-initialised once, from a tableau", ok)
    if ok:
        want = SArr((z3.simplify(m + m2), twice(n)), lambda i, j: z3.If(z(i) < m, z(f(i, j)), z(g(z3.simplify(z(i) - m), j))), "gf2")
        prove_eq(it, "post: own rows, then the other's rows", got[0][1], want)


def t_subset(it):
    ctx = it.ctx
    m, n = sizes(it)
    A = op(it, "a", m, n)
    f = A.fields["matrix"].snap()
    l, q = ctx.int("len"), ctx.func("indices", I, I)
    i = z3.Int("i!s")
    ctx.assume(l >= 1)
    ctx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < l), q(i) >= 0), patterns=[q(i)]))
    idx = SSeq(l, lambda i: q(z(i)))
    capture(it)
    bad = z3.Exists([i], z3.And(i >= 0, i < l, q(i) >= n))
    try:
        r = unwritten(it, "frame: operator and index list not modified", [A, idx, A.fields["matrix"]], lambda: it.call(it.getattr(A, "get_subset"), [idx]))
    except PyExc as e:
        ctx.prove("post: only an out-of-range index is rejected", And(getattr(e.cls, "name", "") in ("ValueError", "IndexError"), bad))
        return
    ctx.prove("post: indices in range", Not(bad))
    want = SArr((m, twice(l)), lambda a, j: z(f(a, z3.If(z(j) < l, q(z(j)), q(z3.simplify(z(j) - l)) + n))), "gf2")
    prove_eq(it, "post: X and Z columns of the given qubits, in order", r.fields["matrix"], want)


def t_basic(it):
    ctx = it.ctx
    m, n = sizes(it)
    A = op(it, "a", m, n)
    ctx.prove("post: len is the number of rows", z(LIB["builtins.len"].fn(it, [A], {})) == m)
    ctx.prove("post: number_of_qubits", z(it.getattr(A, "number_of_qubits")) == n)
    ch = chars(it, "ch")
    txt = rows_txt(ch, m, n)
    A.fields["txt"] = txt
    ctx.prove("post: repr is the text", it.call(it.getattr(A, "__repr__"), []) is txt)


def t_index(it):
    """op[i] is row i (negative indices from the end), IndexError outside"""
    ctx = it.ctx
    m, n = sizes(it)
    ch = chars(it, "ch")
    A = Obj(it.fn(P))
    A.fields["_array"] = ctx_rows(it, ch, m, n)
    k = ctx.int("key")
    try:
        r = it.getitem(A, k)
    except PyExc as e:
        ctx.prove("post: IndexError exactly outside", And(getattr(e.cls, "name", "") == "IndexError", Or(k >= m, k < -m)))
        return
    ctx.prove("post: in range", And(k < m, k >= -m))
    ctx.prove("post: a row", isinstance(r, Row))
    prove_row(it, r, ch, z3.If(k >= 0, k, k + m), n)


def ctx_rows(it, ch, m, n):
    return SSeq(m, lambda i: Row(it, SLine(n, lambda j, i=i: ch(z(i), z(j)))))


def prove_row(it, r, ch, i, n):
    it.ctx.prove("post: row i", it.eq(r.line, SLine(n, lambda j: ch(z(i), z(j)))))


def t_slice(it):
    """op[a:b] has rows a..b-1 (contract of the constructor for `;`-joined rows)"""
    ctx = it.ctx
    m, n = sizes(it)
    ch = chars(it, "ch")
    A = Obj(it.fn(P))
    A.fields["_array"] = ctx_rows(it, ch, m, n)
    got = []
    it.contracts[P] = lambda it_, a, k: (got.append(a[0]), Opaque("op"))[1]
    lo, hi = ctx.int("lo"), ctx.int("hi")
    ctx.assume(And(lo >= 0, lo < hi, hi <= m))
    r = it.getitem(A, PySlice(lo, hi, None))
    ok = len(got) == 1 and isinstance(got[0], SLines)
    ctx.prove("post: built from text", ok)
    if ok:
        s = got[0]
        ctx.prove("post: rows separated by semicolons", s.sep == ";")
        ctx.prove("post: rows lo..hi-1 in order", it.eq(s, SLines(";", z3.simplify(hi - lo), lambda i: n, lambda i, j: ch(z3.simplify(z(i) + lo), z(j)))))


UNITS = [
    Unit("init/matrix", t_matrix("i"), [P + ".__init__", P + "._mat_to_txt"]),
    Unit("init/gf2 matrix", t_matrix("gf2"), [P + ".__init__", P + "._mat_to_txt"]),
    Unit("init/odd columns", t_matrix_odd, [P + ".__init__"]),
    Unit("init/text", t_strings("text"), [P + ".__init__", P + "._txt_to_mat"]),
    Unit("init/text with trailing semicolon", t_strings("trail"), [P + ".__init__", P + "._txt_to_mat"]),
    Unit("init/list", t_strings("list"), [P + ".__init__", P + "._txt_to_mat"]),
    Unit("init/unequal rows (text)", t_unequal("text"), [P + ".__init__"]),
    Unit("init/unequal rows (list)", t_unequal("list"), [P + ".__init__"]),
    Unit("init/unknown letter", t_badchar, [P + "._txt_to_mat"]),
    Unit("init/other", t_other, [P + ".__init__"]),
    Unit("mul", t_mul, [P + ".__mul__"]),
    Unit("symplectic_prod", t_symplectic, [P + ".symplectic_prod"]),
    Unit("commutator", t_commutator, [P + ".commutator"]),
    Unit("eq", t_eq, [P + ".__eq__"]),
    Unit("hash", t_hash, [P + ".__hash__"]),
    Unit("contains", t_contains, [P + ".__contains__"]),
    Unit("append", t_append, [P + ".append"]),
    Unit("get_subset", t_subset, [P + ".get_subset"]),
    Unit("len/qubits/repr", t_basic, [P + ".__len__", P + ".number_of_qubits", P + ".__repr__"]),
    Unit("getitem/index", t_index, [P + ".__getitem__"]),
    Unit("getitem/slice", t_slice, [P + ".__getitem__"]),
]
ASSUMES = [
    "at least one row and one qubit",
    "recursion of the constructor: an operator with several rows builds its rows by the constructor for one row, which does not recurse (contract of the one-row case = the same units with rows = 1)",
    "a string is its sequence of lines w.r.t. its separator; str.replace(' ', '') removes the spaces",
    "the single-qubit letters anticommute exactly when they differ and neither is I; n-qubit Paulis anticommute exactly when an odd number of letters does (textbook)",
    "str of an array is a function of its shape and entries",
    "membership, product and commutator: operands on the same number of qubits",
]
