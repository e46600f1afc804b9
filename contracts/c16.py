"""C16: gate builders of mentpy/operators/gates.py"""
from .common import *

G = "mentpy.operators.gates."


class Bits:
    """index arithmetic of an n-qubit register, defined by recursion on the number of
    qubits: the last qubit of a (k+1)-qubit index r is r % 2, the others are those of r // 2"""

    def __init__(self, it, qubits, first=0):
        self.it, self.ctx = it, it.ctx
        self.qubits = qubits
        self.first = first  # number of the first qubit (CNOT counts from 1)
        self.Q = z3.Function("qubit_of_index", I, I, I, B)
        self.A = z3.Function("agree_elsewhere", I, I, I, B)

    def q(self, r, q, k):
        """value of qubit q in the k-qubit index r"""
        r, q, k = z(r), z(q), z3.simplify(z(k))
        t = self.Q(r, q, k)
        last = z3.simplify(k - 1 + self.first)
        self.ctx.once(("Q", t.get_id()), lambda: [z3.Implies(k > 0, t == z3.If(q == last, r % 2 == 1, self.Q(r / 2, q, z3.simplify(k - 1))))])
        return t

    def agree(self, r, c, k):
        """r and c have the same value on every qubit outside self.qubits"""
        r, c, k = z(r), z(c), z3.simplify(z(k))
        t = self.A(r, c, k)
        last = z3.simplify(k - 1 + self.first)
        sel = z3.Or(*[last == z(x) for x in self.qubits])
        self.ctx.once(("A", t.get_id()), lambda: [z3.Implies(k == 0, t), z3.Implies(k == 1, self.A(r / 2, c / 2, z3.simplify(k - 1))), z3.Implies(k > 0, t == z3.And(self.A(r / 2, c / 2, z3.simplify(k - 1)), z3.Or(sel, r % 2 == c % 2)))])
        return t


def _zero(k):
    return not is_z3(k) and k == 0


def prodinv(bits, start, cond, dtype="f", val=None):
    """invariant of a Kronecker loop: scalar `start` before the first factor, then the
    2^k x 2^k matrix whose entry is start where cond holds and 0 elsewhere"""

    def maker(L, k):
        ctx = L.ctx
        if _zero(k) or ctx.branch(z(k) == 0):
            return start
        n = ops.pow2(ctx, z3.simplify(z(k)))
        return SArr((n, n), lambda r, c: val(r, c, k) if val else ite(cond(r, c, k), start, 0), dtype)

    return maker


def t_arbitrary(it):
    ctx = it.ctx
    n, i = ctx.int("n"), ctx.int("i")
    ctx.assume([n >= 1, i >= 0, i < n])
    u = carr(it, "u", 2, 2)
    bits = Bits(it, [i])
    spec = entry_1q(it, bits, u, i)
    it.loop_specs[(G + "arbitrary_qubit_gate", 0)] = Inv(exact={"op": prodinv(bits, 1, None, "c", spec)})
    r = it.call(it.fn(G + "arbitrary_qubit_gate"), [u, i, n])
    dim = ops.pow2(ctx, n)
    prove_eq(it, "post: u on qubit i, identity elsewhere", r, SArr((dim, dim), lambda a, b: spec(a, b, n), "c"))


def entry_1q(it, bits, u, i):
    uf = u.snap()

    def f(r, c, k):
        rb, cb = z3.If(bits.q(r, i, k), z3.IntVal(1), z3.IntVal(0)), z3.If(bits.q(c, i, k), z3.IntVal(1), z3.IntVal(0))
        inside = ite(bits.agree(r, c, k), uf(rb, cb), Cx(0, 0))
        return ite(z(i) < z(k), inside, ite(bits.agree(r, c, k), Cx(1, 0), Cx(0, 0)))

    return f


def block(bits, i, j, bi, bj):
    """product of |a><b| blocks on qubits i and j and identities elsewhere"""

    def cond(r, c, k):
        lim = lambda q: z(q) < z(k) + bits.first
        sel = lambda q, ab: Implies(lim(q), And(Iff(bits.q(r, q, k), ab[0] == 1), Iff(bits.q(c, q, k), ab[1] == 1)))
        return And(bits.agree(r, c, k), sel(i, bi), sel(j, bj))

    return cond


def two(it, first=0):
    ctx = it.ctx
    n, i, j = ctx.int("n"), ctx.int("i"), ctx.int("j")
    ctx.assume([n >= 2, i >= first, i < n + first, j >= first, j < n + first, i != j])
    return ctx, n, i, j


def t_cz(it):
    ctx, n, i, j = two(it)
    bits = Bits(it, [i, j])

    def c1(r, c, k):
        return z(r) == z(c)

    def c2(r, c, k):
        on = lambda q: Implies(z(q) < z(k), bits.q(r, q, k))
        return And(z(r) == z(c), on(i), on(j))

    it.loop_specs[(G + "controlled_z", 0)] = Inv(exact={"op1": prodinv(bits, 1, c1), "op2": prodinv(bits, 2, c2)})
    m = it.call(it.fn(G + "controlled_z"), [i, j, n])
    dim = ops.pow2(ctx, n)

    def spec(r, c):
        return ite(z(r) == z(c), ite(And(bits.q(r, i, n), bits.q(r, j, n)), -1, 1), 0)

    prove_eq(it, "post: diagonal, -1 exactly where both qubits are 1", m, SArr((dim, dim), spec, "f"))


def swap_spec(bits, i, j, n):
    def spec(r, c):
        return ite(And(bits.agree(r, c, n), Iff(bits.q(r, i, n), bits.q(c, j, n)), Iff(bits.q(r, j, n), bits.q(c, i, n))), 1, 0)

    return spec


def t_swap(it):
    ctx, n, i, j = two(it)
    bits = Bits(it, [i, j])
    inv = {
        "op1": prodinv(bits, 1, block(bits, i, j, (0, 0), (0, 0))),
        "op2": prodinv(bits, 1, block(bits, i, j, (1, 0), (0, 1))),
        "op3": prodinv(bits, 1, block(bits, i, j, (0, 1), (1, 0))),
        "op4": prodinv(bits, 1, block(bits, i, j, (1, 1), (1, 1))),
    }
    it.loop_specs[(G + "swap_ij", 0)] = Inv(exact=inv)
    m = it.call(it.fn(G + "swap_ij"), [i, j, n])
    dim = ops.pow2(ctx, n)
    prove_eq(it, "post: exchanges qubits i and j", m, SArr((dim, dim), swap_spec(bits, i, j, n), "f"))


def t_cnot(it):
    ctx, n, i, j = two(it, 1)
    bits = Bits(it, [i, j], 1)
    inv = {
        "op1": prodinv(bits, 1, block(bits, i, j, (0, 0), (0, 0))),
        "op2": prodinv(bits, 1, block(bits, i, j, (0, 0), (1, 1))),
        "op3": prodinv(bits, 1, block(bits, i, j, (1, 1), (1, 0))),
        "op4": prodinv(bits, 1, block(bits, i, j, (1, 1), (0, 1))),
    }
    it.loop_specs[(G + "cnot_ij", 0)] = Inv(exact=inv)
    m = it.call(it.fn(G + "cnot_ij"), [i, j, n])
    dim = ops.pow2(ctx, n)

    def spec(r, c):
        same = And(bits.agree(r, c, n), Iff(bits.q(r, i, n), bits.q(c, i, n)))
        return ite(And(same, Iff(bits.q(r, j, n), Not(Iff(bits.q(c, j, n), bits.q(c, i, n))))), 1, 0)

    prove_eq(it, "post: flips qubit j exactly where qubit i is 1", m, SArr((dim, dim), spec, "f"))


def t_swap_qubits(it):
    ctx = it.ctx
    n, i, j = ctx.int("n"), ctx.int("i"), ctx.int("j")
    ctx.assume([n >= 1, i >= 0, i < n, j >= 0, j < n])
    dim = ops.pow2(ctx, n)
    psi = carr(it, "psi", dim)
    bits = Bits(it, [i, j])
    CS = z3.Function("swapped_index", I, I, B, B, I)

    def cs(r, k, a, b):
        r, k = z(r), z3.simplify(z(k))
        t = CS(r, k, a, b)
        prev = CS(r / 2, z3.simplify(k - 1), a, b)
        bit = z3.If(k - 1 == i, z3.If(a, 1, 0), z3.If(k - 1 == j, z3.If(b, 1, 0), r % 2))
        ctx.once(("CS", t.get_id()), lambda: [z3.Implies(k == 0, t == 0), z3.Implies(k > 0, t == 2 * prev + bit)])
        return t

    def contract(it_, args, kw):
        ii, jj, nn = args
        ctx.prove("swap_ij/pre", And(z(ii) >= 0, z(ii) < z(nn), z(jj) >= 0, z(jj) < z(nn), z(ii) != z(jj), z(ii) == i, z(jj) == j, z(nn) == n))
        d = ops.pow2(ctx, nn)
        return SArr((d, d), swap_spec(bits, i, j, n), "f")

    it.contracts[G + "swap_ij"] = contract
    out = it.call(it.fn(G + "swap_qubits"), [psi, i, j])
    ctx.prove("post: a fresh array", out is not psi and out.root() is not psi)
    r = ctx.int("r")
    ctx.assume(rng(r, dim))
    if ctx.branch(i == j):
        prove_eq(it, "post: unchanged when i == j", out, psi)
        return
    prove_eq(it, "post: shape", out.shape[0], dim)

    # lemma: the index that agrees with r elsewhere and has a, b at i, j exists, is unique
    def stmt(k, r, c, a, b):
        k = z(k)
        lim = lambda q, v: Implies(q < k, bits.q(c, q, k) == v)
        p = ops.pow2(ctx, z3.simplify(k))
        t = cs(r, k, a, b)
        return Implies(And(rng(c, p), rng(r, p)), And(rng(t, p), Iff(And(bits.agree(r, c, k), lim(i, a), lim(j, b)), c == t)))

    a, b = bits.q(r, j, n), bits.q(r, i, n)
    use = induct(it, "lemma: swapped index", stmt, [("r", I), ("c", I), ("a", B), ("b", B)], ih=lambda k, r, c, a, b: [(r / 2, c / 2, a, b)])
    c0 = cs(r, n, a, b)
    s = out.get(r)
    kk = ctx.int("c")
    use(n, r, c0, a, b)
    body = lambda c: None
    q = z3.Int("sumidx")
    # instance of the lemma for every summand index
    qc = z3.Int("qc")
    ctx.assume(z3.ForAll([qc], z(stmt(n, r, qc, a, b)), patterns=[bits.A(r, qc, n)]))
    use(n, r, 0, a, b)
    sum_single(it, "matmul", s, c0)
    prove_eq(it, "post: entry r is the entry with qubits i and j exchanged", out.get(r), psi.get(c0))


UNITS = [
    Unit("C16.arbitrary_qubit_gate", t_arbitrary, [G + "arbitrary_qubit_gate"]),
    Unit("C16.controlled_z", t_cz, [G + "controlled_z"]),
    Unit("C16.swap_ij", t_swap, [G + "swap_ij"]),
    Unit("C16.cnot_ij", t_cnot, [G + "cnot_ij"]),
    Unit("C16.swap_qubits", t_swap_qubits, [G + "swap_qubits"]),
]
