"""C18: parameter-shift and finite-difference derivatives (mentpy/gradients)"""
import itertools

from .common import *

P = "mentpy.gradients._parameter_shift."
D = "mentpy.gradients._finite_difference."
W = "mentpy.gradients.grad."


class Cost:
    """an arbitrary cost function of a certain class, as a function of the displacement
    from x; checks that every evaluation point differs from x in at most two coordinates,
    both loop indices of the caller"""

    def __init__(self, it, x, kind):
        self.it, self.ctx, self.x, self.kind = it, it.ctx, x, kind
        self.cands = {}
        F = lambda n, *s: self.ctx.func(n, *s)
        self.F0 = self.ctx.real("F0")
        if kind == "trig":
            self.P, self.Q, self.R = F("P", I, R), F("Q", I, R), F("R", I, R)
            self.T = {(p, q): F("T_%s%s" % (p, q), I, I, R) for p in "1cs" for q in "1cs"}
        else:
            self.g = F("g", I, R)
            self.H = F("H", I, I, R) if kind == "quadratic" else lambda i, j: z3.RealVal(0)
        self.fn = HostFn(self.call)
        self.x0 = x.snap()

    def call(self, it, args, kw):
        ctx = self.ctx
        if len(args) != 1 or kw:
            pyraise("TypeError", "cost")
        arg = args[0]
        ctx.prove("cost: called with a vector", isinstance(arg, SArr) and arg.ndim == 1)
        prove_eq(it, "cost: argument length", arg.shape[0], self.x.shape[0])
        cs = []
        for c in list(self.cands.values()) + list(ctx.generics):
            if not any(c.eq(o) for o in cs):
                cs.append(c)
        m = ctx.int("m")
        ctx.assume(rng(m, self.x.shape[0]))
        same = ops.compare(ctx, "==", arg.get(m), self.x0(m))
        for size in range(0, 3):
            for sub in itertools.combinations(cs, size):
                if ctx.valid(Implies(And(*[m != c for c in sub]), same)):
                    return self.value(sub, [ops.sub(ctx, arg.get(c), self.x0(c)) for c in sub])
        ctx.prove("cost: evaluated at a displacement along the current parameters", False)

    def value(self, idx, a):
        ctx = self.ctx
        if len(idx) == 2 and ctx.branch(idx[0] == idx[1]):
            idx, a = idx[:1], a[:1]
        a = [zreal(z3.simplify(z(v))) for v in a]
        if self.kind != "trig":
            v = self.F0
            for i, d in zip(idx, a):
                v = v + self.g(i) * d + self.H(i, i) * d * d / 2
            if len(idx) == 2:
                i, j = idx
                ctx.assume(self.H(i, j) == self.H(j, i))
                v = v + self.H(i, j) * a[0] * a[1]
            return v
        if not idx:
            return self.F0
        tr = [ops.trig(ctx, d) for d in a]
        if len(idx) == 1:
            i = idx[0]
            ctx.assume(self.P(i) + self.Q(i) == self.F0)
            return self.P(i) + self.Q(i) * tr[0][0] + self.R(i) * tr[0][1]
        basis = [{"1": z3.RealVal(1), "c": c, "s": s} for c, s in tr]
        return z3.Sum([self.T[p, q](*idx) * basis[0][p] * basis[1][q] for p in "1cs" for q in "1cs"])

    def d1(self, i):
        return self.R(i) if self.kind == "trig" else self.g(i)

    def d2(self, i, j):
        if self.kind != "trig":
            return self.H(i, j)
        if self.ctx.generics:
            return z3.If(z(i) == z(j), -self.Q(i), self.T["s", "s"](i, j))
        return z3.If(z(i) == z(j), -self.Q(i), self.T["s", "s"](i, j))

    # invariants of the two loop shapes
    def grad_inv(self):
        def maker(L, k):
            return SArr((L.it.seq_len_x,), lambda i: ite(z(i) < z(k), self.d1(i), z3.RealVal(0)), "f")

        return Inv(exact={"grad": maker}, enter=lambda L, k: self.cands.__setitem__("g", z(k)), on_exit=lambda L, n: self.cands.clear())

    def hess_outer(self):
        def maker(L, k):
            n = L.it.seq_len_x
            return SArr((n, n), lambda i, j: ite(z(i) < z(k), self.d2(i, j), z3.RealVal(0)), "f")

        return Inv(exact={"hess": maker}, enter=lambda L, k: self.cands.__setitem__("o", z(k)))

    def hess_inner(self):
        def maker(L, k):
            n, r = L.it.seq_len_x, self.cands["o"]
            return SArr((n, n), lambda i, j: ite(Or(z(i) < r, And(z(i) == r, z(j) < z(k))), self.d2(i, j), z3.RealVal(0)), "f")

        return Inv(exact={"hess": maker}, enter=lambda L, k: self.cands.__setitem__("i", z(k)))


def point(it, name="x", low=1):
    n = it.ctx.int("n")
    it.ctx.assume(n >= low)
    it.seq_len_x = n
    return rarr(it, name, n), n


def addition(it, s):
    """addition theorem at the shifts the Hessian uses"""
    ctx = it.ctx
    c, sn = ops.trig(ctx, s)
    for f, (cc, ss) in ((2, (1 - 2 * sn * sn, 2 * sn * c)), (-2, (1 - 2 * sn * sn, -2 * sn * c)), (-1, (c, -sn)), (0, (1, 0))):
        a, b = ops.trig(ctx, z3.simplify(f * s))
        ctx.assume(And(z(a) == cc, z(b) == ss))
    ctx.trust("sine and cosine are uninterpreted up to c^2+s^2=1, parity, value at 0 and the double-angle theorem")


def t_psr(hessian, entry):
    def unit(it):
        ctx = it.ctx
        x, n = point(it)
        s = ctx.real("shift")
        c, sn = ops.trig(ctx, s)
        ctx.assume(sn != 0)
        addition(it, s)
        cost = Cost(it, x, "trig")
        run(it, cost, P + ("psr_hessian" if hessian else "psr_gradient"), hessian, entry, [cost.fn, x], {"shift": s}, "psr")

    return unit


def run(it, cost, fn, hessian, entry, args, kw, alias):
    ctx = it.ctx
    if hessian:
        it.loop_specs[(fn, 0)] = cost.hess_outer()
        it.loop_specs[(fn, 1)] = cost.hess_inner()
    else:
        it.loop_specs[(fn, 0)] = cost.grad_inv()
    n = it.seq_len_x
    if entry:
        out = unwritten(it, "frame: x is not modified", [cost.x], lambda: it.call(it.fn(W + ("get_hessian" if hessian else "get_gradient")), args + [alias], kw))
    else:
        out = unwritten(it, "frame: x is not modified", [cost.x], lambda: it.call(it.fn(fn), args, kw))
    if hessian:
        prove_eq(it, "post: entry (i,j) is the second derivative", out, SArr((n, n), cost.d2, "f"))
    else:
        prove_eq(it, "post: entry i is the partial derivative", out, SArr((n,), cost.d1, "f"))


def t_fd(kind, cls, hessian):
    def unit(it):
        ctx = it.ctx
        x, n = point(it)
        h = ctx.real("h")
        ctx.assume(h != 0)
        cost = Cost(it, x, cls)
        run(it, cost, D + ("fd_hessian" if hessian else "fd_gradient"), hessian, False, [cost.fn, x], {"h": h, "type": kind}, "fd")

    return unit


def t_type_rejected(it):
    ctx = it.ctx
    x, n = point(it)
    kind = AnyStr(it, "type")
    for ok in ("central", "forward", "backward"):
        ctx.assume(kind.code != intern_str(ok))
    for f in ("fd_gradient", "fd_hessian"):
        must_raise(it, f + ": unknown variant rejected", lambda: it.call(it.fn(D + f), [HostFn(lambda *_: 0.0), x, ctx.real("h"), kind]), "UserWarning")
        must_raise(it, f + ": non-string variant rejected", lambda: it.call(it.fn(D + f), [HostFn(lambda *_: 0.0), x, ctx.real("h"), None]), "UserWarning")


ALIASES = {"psr": ["parameter-shift", "psr", "parametershift"], "fd": ["finite-differences", "fd", "finitedifferences"]}


def t_dispatch(it):
    """the method name selects the rule, further arguments are handed through"""
    ctx = it.ctx
    x, n = point(it)
    cost = HostFn(lambda *_: 0.0)
    calls = []
    for what in ("gradient", "hessian"):
        for rule, mod in (("psr", P), ("fd", D)):
            def contract(it_, args, kw, tag=(rule, what)):
                calls.append((tag, args, kw))
                return tag

            it.contracts[mod + "%s_%s" % (rule, what)] = contract
    for what in ("gradient", "hessian"):
        f = it.fn(W + "get_" + what)
        step, kind = ctx.real("step"), "forward"

        def expect(tag, rule, args, kw, eargs, ekw):
            del calls[:]
            r = it.call(f, args, kw)
            ok = len(calls) == 1 and calls[0][0] == (rule, what) and r == (rule, what)
            if ok:
                a, k = calls[0][1], calls[0][2]
                names = ["cost", "x", "shift"] if rule == "psr" else ["f", "x", "h", "type"]
                got = dict(zip(names, a))
                got.update(k)
                exp = dict(zip(names, eargs))
                exp.update(ekw)
                ok = set(got) == set(exp) and all(got[q] is exp[q] or it.truth(it.eq(got[q], exp[q])) for q in exp)
            ctx.prove("%s: %s" % (what, tag), ok)

        expect("default is the parameter-shift rule", "psr", [cost, x], {}, [cost, x], {})
        for rule in ALIASES:
            for name in ALIASES[rule]:
                expect(name, rule, [cost, x, name], {}, [cost, x], {})
                expect(name + " by keyword", rule, [cost, x], {"method": name}, [cost, x], {})
                expect(name + ", step given", rule, [cost, x, name, step], {}, [cost, x, step], {})
                kw = {"shift": step} if rule == "psr" else {"h": step, "type": kind}
                expect(name + ", keywords given", rule, [cost, x], dict(kw, method=name), [cost, x], kw)
        bad = AnyStr(it, "method")
        for names in ALIASES.values():
            for name in names:
                ctx.assume(bad.code != intern_str(name))
        del calls[:]
        must_raise(it, what + ": unknown method rejected", lambda: it.call(f, [cost, x, bad]), "UserWarning")
        must_raise(it, what + ": missing method rejected", lambda: it.call(f, [cost, x, None]), "UserWarning")
        ctx.prove(what + ": nothing evaluated for an unknown method", not calls)


UNITS = [
    Unit("C18.psr_gradient", t_psr(False, False), [P + "psr_gradient"]),
    Unit("C18.psr_hessian", t_psr(True, False), [P + "psr_hessian"]),
    Unit("C18.fd_gradient.central", t_fd("central", "quadratic", False), [D + "fd_gradient"]),
    Unit("C18.fd_gradient.forward", t_fd("forward", "affine", False), [D + "fd_gradient"]),
    Unit("C18.fd_gradient.backward", t_fd("backward", "affine", False), [D + "fd_gradient"]),
] + [
    Unit("C18.fd_hessian." + k, t_fd(k, "quadratic", True), [D + "fd_hessian"]) for k in ("central", "forward", "backward")
] + [
    Unit("C18.type_rejected", t_type_rejected, [D + "fd_gradient", D + "fd_hessian"]),
    Unit("C18.dispatch", t_dispatch, [W + "get_gradient", W + "get_hessian"]),
]
TRUSTED = ["sine and cosine: c^2+s^2=1, parity, value at 0, double-angle theorem"]
