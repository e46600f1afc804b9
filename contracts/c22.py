"""C22: datasets (mentpy/utils/generate_data.py)"""
from .common import *

D = "mentpy.utils.generate_data."


def data(it, name, n, dim=None):
    """arbitrary list of n samples (vectors of length dim, or opaque scalars)"""
    ctx = it.ctx
    if dim is None:
        f = ctx.func(name, I, R)
        return SSeq(n, lambda i: f(z(i)))
    re, im = ctx.func(name + "_re", I, I, R), ctx.func(name + "_im", I, I, R)
    return SSeq(n, lambda i: SArr((dim,), lambda j: Cx(re(z(i), z(j)), im(z(i), z(j))), "c"))


def counts(it, n, t):
    """rounded-down requested fraction"""
    ctx = it.ctx
    k = ctx.int("n_test")
    ctx.assume(And(k <= n * t, n * t < k + 1))
    return k, z3.simplify(n - k)


def part(s, lo, n):
    f = s.f
    return SSeq(n, lambda i: f(z3.simplify(z(i) + lo)))


def check_split(it, out, xs, ys, n, k, m, tag=""):
    ctx = it.ctx
    ok = isinstance(out, tuple) and len(out) == 2 and all(isinstance(p, tuple) and len(p) == 2 for p in out)
    ctx.prove(tag + "post: ((train, train), (test, test))", ok)
    if not ok:
        return
    (a, b), (c, d) = out
    prove_eq(it, tag + "post: training inputs are the first samples", a, part(xs, 0, m))
    prove_eq(it, tag + "post: training targets at the same positions", b, part(ys, 0, m))
    prove_eq(it, tag + "post: test inputs are the remaining samples", c, part(xs, m, k))
    prove_eq(it, tag + "post: test targets at the same positions", d, part(ys, m, k))


def t_split(arrays):
    def unit(it):
        ctx = it.ctx
        n = ctx.int("n")
        t = ctx.real("test_size")
        ctx.assume(And(n >= 0, t >= 0, t <= 1))
        k, m = counts(it, n, t)
        if arrays:
            d = ctx.int("d")
            ctx.assume(d >= 1)
            xs, ys = carr(it, "x", n, d), rarr(it, "y", n, d)
            out = unwritten(it, "frame: data not modified", [xs, ys], lambda: it.call(it.fn(D + "train_test_split"), [xs, ys], {"test_size": t}))
            ok = isinstance(out, tuple) and len(out) == 2 and all(isinstance(p, tuple) and len(p) == 2 for p in out)
            ctx.prove("post: ((train, train), (test, test))", ok)
            (a, b), (c, e) = out
            fx, fy = xs.snap(), ys.snap()
            prove_eq(it, "post: training inputs", a, SArr((m, d), fx, "c"))
            prove_eq(it, "post: training targets", b, SArr((m, d), fy, "f"))
            prove_eq(it, "post: test inputs", c, SArr((k, d), lambda i, j: fx(z(i) + m, j), "c"))
            prove_eq(it, "post: test targets", e, SArr((k, d), lambda i, j: fy(z(i) + m, j), "f"))
            return
        xs, ys = data(it, "x", n), data(it, "y", n)
        out = unwritten(it, "frame: data not modified", [xs, ys], lambda: it.call(it.fn(D + "train_test_split"), [xs, ys], {"test_size": t}))
        check_split(it, out, xs, ys, n, k, m)

    return unit


def t_shuffled(it):
    """with shuffling: the parts hold a permutation of the samples, targets moved with them"""
    ctx = it.ctx
    n = ctx.int("n")
    t = ctx.real("test_size")
    ctx.assume(And(n >= 0, t >= 0, t <= 1))
    k, m = counts(it, n, t)
    P, Q = ctx.func("perm", I, I), ctx.func("perm_inverse", I, I)
    i = z3.Int("i")
    ctx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(P(i) >= 0, P(i) < n, Q(P(i)) == i)), patterns=[P(i)]))

    def perm(it_, a, kw):
        prove_eq(it, "permutation of all samples", a[0], n)
        return SArr((n,), lambda j: P(z(j)), "i")

    LIB["numpy.random.permutation"] = Builtin("numpy.random.permutation", perm)
    xs, ys = data(it, "x", n), data(it, "y", n)
    out = unwritten(it, "frame: data not modified", [xs, ys], lambda: it.call(it.fn(D + "train_test_split"), [xs, ys], {"test_size": t, "randomize": True}))
    fx, fy = xs.f, ys.f
    check_split(it, out, SSeq(n, lambda j: fx(P(z(j)))), SSeq(n, lambda j: fy(P(z(j)))), n, k, m)


class Gen:
    """register, unitary, and the contract of the random state generator"""

    def __init__(self, it):
        ctx = self.ctx = it.ctx
        self.it = it
        self.q = ctx.int("n_qubits")
        ctx.assume(self.q >= 1)
        self.dim = ops.pow2(ctx, self.q)
        self.U = carr(it, "U", self.dim, self.dim)
        self.n = ctx.int("n_samples")
        ctx.assume(self.n >= 0)
        self.t = ctx.real("test_size")
        ctx.assume(And(self.t >= 0, self.t <= 1))
        self.k, self.m = counts(it, self.n, self.t)
        it.contracts[D + "_generate_haar_random_state"] = self.state

    def state(self, it, a, kw):
        ctx = self.ctx
        prove_eq(it, "random state: on the unitary's register", (list(a) + list(kw.values()))[0], self.q)
        gs = [I] * len(ctx.generics)
        re, im = z3.Function(ctx.uid("st_re"), *gs, I, R), z3.Function(ctx.uid("st_im"), *gs, I, R)
        g = list(ctx.generics)
        return SArr((self.dim,), lambda j: Cx(re(*g, z(j)), im(*g, z(j))), "c")

    def action(self, x):
        f, u = x.snap(), self.U.snap()
        return SArr((self.dim,), lambda i: self.ctx.sum(self.dim, lambda k: ops.mul(self.ctx, u(i, k), f(k))), "c")

    def pairs(self, tag, xs, ys, n):
        ctx, it = self.ctx, self.it
        prove_eq(it, tag + ": inputs", ops.seq_len(xs), n)
        prove_eq(it, tag + ": one target per input", ops.seq_len(ys), n)
        i = ctx.int("i")
        ctx.assume(rng(i, n))
        if not ctx.feasible(z3.BoolVal(True)):
            return
        prove_eq(it, tag + ": target is the unitary applied to the input at the same position", ops.seq_get(ys, i), self.action(ops.seq_get(xs, i)))


def t_dataset(it):
    ctx = it.ctx
    g = Gen(it)
    seen = []

    def split(it_, a, kw):
        names = dict(zip(["inputs", "targets", "test_size", "randomize"], a), **kw)
        seen.append(names)
        return "parts"

    it.contracts[D + "train_test_split"] = split
    out = it.call(it.fn(D + "generate_random_dataset"), [g.U, g.n], {"test_size": g.t})
    ctx.prove("post: the split of one dataset", out == "parts" and len(seen) == 1)
    s = seen[0]
    prove_eq(it, "post: requested fraction", s.get("test_size", Fraction(3, 10)), g.t)
    ctx.prove("post: not shuffled apart", not s.get("randomize", False))
    g.pairs("post", s["inputs"], s["targets"], g.n)


def t_noisy(kind):
    def unit(it):
        ctx = it.ctx
        g = Gen(it)
        p = ctx.real("noise_level")
        ctx.assume(And(p >= 0, p <= 1))

        def noise(it_, a, kw):
            names = dict(zip(["dim", "t", "n"], a), **kw)
            prove_eq(it, "noise: on the unitary's space", names["dim"], g.dim)
            prove_eq(it, "noise: of the requested level", names["t"], p)
            return carr(it, ctx.uid("noise"), g.dim, g.dim)

        it.contracts[D + "randomUnitary_closetoid"] = noise
        W = [z3.Function("noisy_re", I, I, R), z3.Function("noisy_im", I, I, R)]
        tgt = lambda i: SArr((g.dim,), lambda j: Cx(W[0](z(i), z(j)), W[1](z(i), z(j))), "c")
        n_loop = D + "generate_random_dataset_noisy"
        it.loop_specs[(n_loop, 0)] = Inv(fresh={"random_targets_train": lambda L, k: SSeq(z(k), tgt)}, lemma=grown(it))

        def flips(L, k):
            if not is_z3(k) and k == 0 or is_z3(k) and ctx.branch(k == 0):
                return 1
            d = ops.pow2(ctx, z3.simplify(z(k)))
            return rarr(it, ctx.uid("flips"), d, d)

        it.loop_specs[(n_loop, 1)] = Inv(fresh={"noise_u": flips}, loose=("noise_u",))
        out = it.call(it.fn(n_loop), [g.U, g.n], {"noise_level": p, "noise_type": kind, "test_size": g.t})
        ok = isinstance(out, tuple) and len(out) == 2 and all(isinstance(q, tuple) and len(q) == 2 for q in out)
        ctx.prove("post: ((train, train), (test, test))", ok)
        (a, b), (c, d) = out
        prove_eq(it, "post: training inputs", ops.seq_len(a), g.m)
        prove_eq(it, "post: one training target per training input", ops.seq_len(b), g.m)
        g.pairs("post: test part is noiseless", c, d, g.k)

    return unit


def grown(it):
    def lemma(L, k, phase):
        prove_eq(it, "one target per training input", ops.seq_len(L.v("random_targets_train")), k)

    return lemma


def t_levels(it):
    ctx = it.ctx
    g = Gen(it)
    p = ctx.real("noise_level")
    ctx.assume(Or(p < 0, p > 1))
    for kind in ("brownian", "bitflip"):
        must_raise(it, kind + ": noise level outside [0,1] rejected", lambda: it.call(it.fn(D + "generate_random_dataset_noisy"), [g.U, g.n], {"noise_level": p, "noise_type": kind}), "ValueError")


UNITS = [
    Unit("C22.train_test_split", t_split(False), [D + "train_test_split"]),
    Unit("C22.train_test_split.arrays", t_split(True), [D + "train_test_split"]),
    Unit("C22.train_test_split.shuffled", t_shuffled, [D + "train_test_split"]),
    Unit("C22.generate_random_dataset", t_dataset, [D + "generate_random_dataset"]),
    Unit("C22.generate_random_dataset_noisy.brownian", t_noisy("brownian"), [D + "generate_random_dataset_noisy"]),
    Unit("C22.generate_random_dataset_noisy.bitflip", t_noisy("bitflip"), [D + "generate_random_dataset_noisy"]),
    Unit("C22.noise_level", t_levels, [D + "generate_random_dataset_noisy"]),
]
TRUSTED = ["_generate_haar_random_state returns some vector of the register's dimension (its distribution is not a claim)", "randomUnitary_closetoid returns some matrix of the given dimension"]
