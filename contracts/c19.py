"""C19: optimisers (mentpy/optimizers)"""
from .common import *
from .c18 import Cost

O = "mentpy.optimizers."
GG = "mentpy.gradients.grad.get_gradient"


class Ref:
    """reference recursion: iterates X(k), moments M(k), V(k), gradients G(k), defined by the
    documented update rule and unfolded where an obligation needs it"""

    def __init__(self, it, kind):
        ctx = self.ctx = it.ctx
        self.it, self.kind = it, kind
        self.n = ctx.int("n")
        ctx.assume(self.n >= 1)
        self.x0 = rarr(it, "x0", self.n)
        self.T = ctx.int("num_iters")
        ctx.assume(self.T >= 0)
        F = lambda s: z3.Function(s, I, I, R)
        self.Xf, self.Mf, self.Vf, self.Gf = F("X"), F("M"), F("V"), F("G")
        self.lr, self.b1, self.b2, self.eps = (ctx.real(s) for s in ("step_size", "b1", "b2", "eps"))
        if kind == "adam":
            ctx.assume(And(self.b1 >= 0, self.b1 < 1, self.b2 >= 0, self.b2 < 1, self.eps > 0))
        self.calls = []
        self.grads = 0
        self.k = None
        self.kwargs = {"method": "psr", "shift": ctx.real("shift")}
        self.f = HostFn(lambda *a: ctx.real("fval"))
        self.pow = ops.power

    def arrf(self, F, k):
        return SArr((self.n,), lambda j: F(z(k), z(j)), "f")

    def X(self, k):
        return self.x0 if not is_z3(k) and k == 0 else self.arrf(self.Xf, k)

    def G(self, k):
        return self.arrf(self.Gf, k)

    def norm(self, k):
        return LIB["numpy.linalg.norm"].fn(self.it, [self.G(k)], {})

    def zero(self):
        return SArr((self.n,), lambda j: z3.RealVal(0), "f")

    def start(self):
        """the recursion starts at the caller's point with zero moments"""
        ctx = self.ctx
        j = z3.Int("j")
        x0 = self.x0.snap()
        ctx.assume(z3.ForAll([j], And(self.Xf(0, j) == z(x0(j)), self.Mf(0, j) == 0, self.Vf(0, j) == 0), patterns=[self.Xf(0, j), self.Mf(0, j), self.Vf(0, j)]))

    def unfold(self, k):
        """the documented update at step k"""
        ctx = self.ctx
        j = z3.Int("j")
        k = z(k)
        k1 = z3.simplify(k + 1)
        X, M, V, G = (lambda F: (lambda a: F(a, j)))(self.Xf), (lambda a: self.Mf(a, j)), (lambda a: self.Vf(a, j)), (lambda a: self.Gf(a, j))
        if self.kind == "adam":
            m = self.b1 * M(k) + (1 - self.b1) * G(k)
            v = self.b2 * V(k) + (1 - self.b2) * G(k) * G(k)
            p1, p2 = ops.power(ctx, self.b1, k1), ops.power(ctx, self.b2, k1)
            ctx.generics.append(j)
            try:
                root = ops.sqrt(ctx, V(k1) / (1 - p2))
            finally:
                ctx.generics.pop()
            x = X(k) - self.lr * (M(k1) / (1 - p1)) / (root + self.eps)
            fs = [M(k1) == m, V(k1) == v, X(k1) == x, Implies(V(k) >= 0, V(k1) >= 0)]
        else:
            mu = self.b1
            v = mu * V(k) - self.lr * G(k)
            x = X(k) + (mu * V(k1) - self.lr * G(k) if self.kind == "nesterov" else V(k1))
            fs = [V(k1) == v, X(k1) == x]
        for f in fs:
            ctx.assume(z3.ForAll([j], f, patterns=[X(k1), M(k1), V(k1), X(k), M(k), V(k), G(k)]))

    def gradient(self, it, args, kw):
        """contract of get_gradient: gradient of the cost at the point it is given"""
        ctx = self.ctx
        self.grads += 1
        names = dict(zip(["cost", "x", "method"], args))
        rest = dict(kw)
        for q in ("cost", "x", "method"):
            if q in rest:
                names[q] = rest.pop(q)
        ctx.prove("gradient: of the cost", names.get("cost") is self.f)
        prove_eq(it, "gradient: at the current iterate", names["x"], self.X(self.k))
        exp = dict(self.kwargs)
        got = dict(rest)
        if "method" in names:
            got["method"] = names["method"]
        ctx.prove("gradient: options handed through", set(got) == set(exp) and all(it.truth(it.eq(got[q], exp[q])) for q in exp))
        g = self.G(self.k)
        return SArr((self.n,), g.snap(), "f")

    def callback(self, it, args, kw):
        self.calls.append((list(args), dict(kw)))
        return None

    def hyper(self):
        if self.kind == "adam":
            return [self.lr, self.b1, self.b2, self.eps], "adam.AdamOptimizer"
        return [self.lr, self.b1, self.kind == "nesterov"], "sgd.SGDOptimizer"

    def make(self):
        a, c = self.hyper()
        return self.it.call(self.it.fn(O + c), a), O + c

    def check_moments(self, opt, k):
        it = self.it
        if self.kind == "adam":
            prove_eq(it, "post: first moment", it.getattr(opt, "m"), self.arrf(self.Mf, k))
        prove_eq(it, "post: second moment" if self.kind == "adam" else "post: velocity", it.getattr(opt, "v"), self.arrf(self.Vf, k))

    def set_moments(self, opt, k):
        it = self.it
        if self.kind == "adam":
            it.setattr(opt, "m", self.arrf(self.Mf, k))
        it.setattr(opt, "v", self.arrf(self.Vf, k))

    def nonneg(self, k):
        if self.kind == "adam":
            j = z3.Int("j")
            self.ctx.assume(z3.ForAll([j], self.Vf(z(k), j) >= 0, patterns=[self.Vf(z(k), j)]))


def t_nonneg(it):
    """lemma: the second moment of Adam is never negative"""
    r = Ref(it, "adam")
    ctx = it.ctx
    r.start()
    j, k = ctx.int("j"), ctx.int("k")
    ctx.prove("base", r.Vf(0, j) >= 0)
    ctx.assume(And(k >= 0, r.Vf(k, j) >= 0))
    r.unfold(k)
    b2, g, v = r.b2, r.Gf(k, j), r.Vf(k, j)
    ctx.prove("step/a", b2 * v >= 0)
    ctx.prove("step/b", (1 - b2) * (g * g) >= 0)
    ctx.prove("step", r.Vf(k + 1, j) >= 0)


def t_step(kind, first):
    def unit(it):
        ctx = it.ctx
        r = Ref(it, kind)
        r.start()
        opt, cls = r.make()
        it.contracts[GG] = r.gradient
        k = 0 if first else ctx.int("k")
        if not first:
            ctx.assume(k >= 1)
            r.set_moments(opt, k)
            r.nonneg(k)
        r.k = k
        r.nonneg(z3.simplify(z(k) + 1))
        r.unfold(k)
        x = r.X(k)
        out = unwritten(it, "frame: the point is not modified", [x, r.x0], lambda: it.call(it.getattr(opt, "step"), [r.f, x, k], dict(r.kwargs)))
        ctx.prove("post: a new array", out is not x)
        ctx.prove("post: one gradient evaluation", r.grads == 1)
        k1 = z3.simplify(z(k) + 1)
        r.check_moments(opt, k1)
        prove_eq(it, "post: next iterate is the documented update", out, r.X(k1))

    return unit


def step_contract(r, opt):
    def contract(it, args, kw):
        ctx = it.ctx
        names = dict(zip(["self", "f", "x", "i"], args))
        rest = dict(kw)
        for q in list(rest):
            if q in ("f", "x", "i"):
                names[q] = rest.pop(q)
        ctx.prove("step/pre: cost", names["f"] is r.f)
        ctx.prove("step/pre: optimiser", names["self"] is opt)
        prove_eq(it, "step/pre: point", names["x"], r.X(r.k))
        prove_eq(it, "step/pre: counter", names["i"], r.k)
        ctx.prove("step/pre: options", set(rest) == set(r.kwargs) and all(it.truth(it.eq(rest[q], r.kwargs[q])) for q in rest))
        if ctx.valid(z(r.k) == 0):
            for f in ("m", "v") if r.kind == "adam" else ("v",):
                v = it.getattr(opt, f)
                if v is not None:
                    prove_eq(it, "step/pre: zero moments at the start", v, r.zero())
        else:
            r.check_moments(opt, r.k)
        k1 = z3.simplify(z(r.k) + 1)
        r.set_moments(opt, k1)
        return SArr((r.n,), r.X(k1).snap(), "f")

    return contract


def callback_lemma(r, has_cb, x="x"):
    def lemma(L, k, phase):
        if phase != "preserve":
            return
        ctx = L.ctx
        if not has_cb:
            return
        ctx.prove("callback: called once per step", len(r.calls) == 1)
        if len(r.calls) == 1:
            a, kw = r.calls[0]
            ctx.prove("callback: arguments", len(a) == 2 and not kw)
            prove_eq(L.it, "callback: sees the new iterate", a[0], r.X(k))
            prove_eq(L.it, "callback: sees the step number", a[1], z3.simplify(z(k) - 1))

    return lemma


def enter(r):
    def f(L, k):
        r.k = k
        del r.calls[:]
        r.grads = 0

    return f


def t_optimize(kind):
    def unit(it):
        ctx = it.ctx
        r = Ref(it, kind)
        r.start()
        opt, cls = r.make()
        if ctx.choose(2):
            # an optimiser that has been used and reset behaves like a fresh one
            r.set_moments(opt, ctx.int("used"))
            it.call(it.getattr(opt, "reset"), [])
        has_cb, verbose = ctx.choose(2) == 1, ctx.choose(2) == 1
        it.contracts[cls + ".step"] = step_contract(r, opt)
        box = {}

        def field(F):
            return lambda L, k: None if (not is_z3(k) or ctx.branch(z(k) == 0)) else r.arrf(F, k)

        ex = {"x": lambda L, k: SArr((r.n,), r.X(k).snap(), "f"), "self.v": field(r.Vf)}
        if kind == "adam":
            ex["self.m"] = field(r.Mf)
        it.loop_specs[(cls + ".optimize", 0)] = Inv(rebind=("x",), exact=ex, enter=enter(r), lemma=callback_lemma(r, has_cb))
        kw = dict(r.kwargs, num_iters=r.T, verbose=verbose)
        if has_cb:
            kw["callback"] = HostFn(r.callback)
        out = unwritten(it, "frame: the starting point is not modified", [r.x0], lambda: it.call(it.getattr(opt, "optimize"), [r.f, r.x0], kw))
        prove_eq(it, "post: the last iterate", out, r.X(r.T))

    return unit


def t_optimize_norm(kind):
    def unit(it):
        ctx = it.ctx
        r = Ref(it, kind)
        r.start()
        opt, cls = r.make()
        has_cb, verbose = ctx.choose(2) == 1, ctx.choose(2) == 1
        it.contracts[GG] = r.gradient
        q = cls + ".optimize_and_gradient_norm"
        ex = {"x": lambda L, k: SArr((r.n,), r.X(k).snap(), "f"), "v": lambda L, k: SArr((r.n,), r.arrf(r.Vf, k).snap(), "f") if is_z3(k) else r.zero()}
        if kind == "adam":
            ex["m"] = lambda L, k: SArr((r.n,), r.arrf(r.Mf, k).snap(), "f") if is_z3(k) else r.zero()
            ex["norm"] = lambda L, k: SArr((r.T,), lambda i: ite(z(i) < z(k), r.norm(i), z3.RealVal(0)), "f")
        else:
            ex["norm"] = lambda L, k: SSeq(z(k), lambda i: r.norm(i))

        def ent(L, k):
            enter(r)(L, k)
            r.nonneg(k)
            r.nonneg(z3.simplify(k + 1))
            r.unfold(k)

        it.loop_specs[(q, 0)] = Inv(rebind=("x",), exact=ex, enter=ent, lemma=callback_lemma(r, has_cb))
        kw = dict(r.kwargs, num_iters=r.T, verbose=verbose)
        if has_cb:
            kw["callback"] = HostFn(r.callback)
        out = unwritten(it, "frame: the starting point is not modified", [r.x0], lambda: it.call(it.getattr(opt, "optimize_and_gradient_norm"), [r.f, r.x0], kw))
        ctx.prove("post: point and norms", isinstance(out, tuple) and len(out) == 2)
        prove_eq(it, "post: the last iterate", out[0], r.X(r.T))
        if kind == "adam":
            prove_eq(it, "post: recorded norms", out[1], SArr((r.T,), lambda i: r.norm(i), "f"))
        else:
            prove_eq(it, "post: recorded norms", out[1], SSeq(r.T, lambda i: r.norm(i)))

    return unit


def t_defaults(it):
    """constructors store the hyper-parameters; a new optimiser has no moments"""
    ctx = it.ctx
    a, b, c, d = (ctx.real(s) for s in "abcd")
    o = it.call(it.fn(O + "adam.AdamOptimizer"), [a, b, c, d])
    for f, v in zip(("step_size", "b1", "b2", "eps"), (a, b, c, d)):
        prove_eq(it, "Adam." + f, it.getattr(o, f), v)
    ctx.prove("Adam: no moments", it.getattr(o, "m") is None and it.getattr(o, "v") is None)
    it.call(it.getattr(o, "reset"), [])
    for f, v in zip(("step_size", "b1", "b2", "eps"), (a, b, c, d)):
        prove_eq(it, "Adam.reset keeps " + f, it.getattr(o, f), v)
    o = it.call(it.fn(O + "sgd.SGDOptimizer"), [a, b, True])
    prove_eq(it, "SGD.step_size", it.getattr(o, "step_size"), a)
    prove_eq(it, "SGD.momentum", it.getattr(o, "momentum"), b)
    ctx.prove("SGD.nesterov", it.truth(it.getattr(o, "nesterov")))
    ctx.prove("SGD: no velocity", it.getattr(o, "v") is None)
    it.call(it.getattr(o, "reset"), [])
    prove_eq(it, "SGD.reset keeps step_size", it.getattr(o, "step_size"), a)


# ---------------------------------------------------------------- random coordinate descent


def t_rcd_step(it):
    ctx = it.ctx
    n, k = ctx.int("n"), ctx.int("k")
    ctx.assume(And(n >= 1, k >= 0))
    x = rarr(it, "x", n)
    lr = ctx.real("step_size")
    adaptive = ctx.choose(2) == 1
    opt = it.call(it.fn(O + "rcd.RCDOptimizer"), [lr, adaptive])
    cost = Cost(it, x, "quadratic")
    watch_random(it, cost)
    out = unwritten(it, "frame: the point is not modified", [x], lambda: it.call(it.getattr(opt, "step"), [cost.fn, x, k], {}))
    one_coordinate(it, cost, out, x, ops.truediv(ctx, lr, ops.sqrt(ctx, k + 1)) if adaptive else lr)


def one_coordinate(it, cost, out, x, rate):
    ctx = it.ctx
    ctx.prove("post: one coordinate drawn", len(cost.cands) == 1)
    c = list(cost.cands.values())[0]
    n = x.shape[0]
    prove_eq(it, "post: length", out.shape[0], n)
    ctx.prove("post: a coordinate of the point", rng(c, n))
    j = ctx.int("j")
    ctx.assume(And(rng(j, n), j != c))
    prove_eq(it, "post: other coordinates unchanged", out.get(j), x.get(j))
    prove_eq(it, "post: minus rate times the partial derivative", out.get(c), ops.sub(ctx, x.get(c), ops.mul(ctx, rate, cost.g(c))))


def watch_random(it, cost):
    ctx = it.ctx

    def randint(it_, a, k):
        c = ctx.int("coord")
        ctx.assume(And(c >= z(a[0]), c <= z(a[1])))
        cost.cands["c%d" % len(cost.cands)] = c
        return c

    LIB["random.randint"] = Builtin("random.randint", randint)


def t_rcd_optimize(it):
    ctx = it.ctx
    n, T = ctx.int("n"), ctx.int("num_iters")
    ctx.assume(And(n >= 1, T >= 0))
    x0 = rarr(it, "x0", n)
    has_cb, verbose = ctx.choose(2) == 1, ctx.choose(2) == 1
    opt = it.call(it.fn(O + "rcd.RCDOptimizer"), [ctx.real("step_size"), ctx.choose(2) == 1])
    f = HostFn(lambda *a: ctx.real("fval"))
    cls = O + "rcd.RCDOptimizer"
    calls, steps = [], []
    st = {}

    def step(it_, args, kw):
        names = dict(zip(["self", "f", "x", "i"], args), **kw)
        ctx.prove("step/pre: cost", names["f"] is f)
        prove_eq(it, "step/pre: point", names["x"], st["x"])
        prove_eq(it, "step/pre: counter", names["i"], st["k"])
        out = rarr(it, ctx.uid("next"), n)
        steps.append(out)
        return out

    it.contracts[cls + ".step"] = step

    def ent(L, k):
        st["k"], st["x"] = k, L.v("x").copy()
        del calls[:], steps[:]

    def lemma(L, k, phase):
        if phase != "preserve":
            return
        ctx.prove("one step per iteration", len(steps) == 1)
        prove_eq(it, "the step is kept", L.v("x"), steps[0])
        if has_cb:
            ctx.prove("callback: called once per step", len(calls) == 1 and len(calls[0]) == 2)
            prove_eq(it, "callback: sees the new iterate", calls[0][0], steps[0])
            prove_eq(it, "callback: sees the step number", calls[0][1], z3.simplify(z(k) - 1))

    it.loop_specs[(cls + ".optimize", 0)] = Inv(rebind=("x",), fresh={"x": lambda L, k: rarr(it, ctx.uid("x"), n) if is_z3(k) else x0}, enter=ent, lemma=lemma)
    kw = dict(num_iters=T, verbose=verbose)
    if has_cb:
        kw["callback"] = HostFn(lambda it_, a, k: calls.append(a))
    unwritten(it, "frame: the starting point is not modified", [x0], lambda: it.call(it.getattr(opt, "optimize"), [f, x0], kw))


def t_rcd_norm(it):
    ctx = it.ctx
    n, T = ctx.int("n"), ctx.int("num_iters")
    ctx.assume(And(n >= 1, T >= 0))
    x0 = rarr(it, "x0", n)
    has_cb = ctx.choose(2) == 1
    lr = ctx.real("step_size")
    opt = it.call(it.fn(O + "rcd.RCDOptimizer"), [lr, False])
    cls = O + "rcd.RCDOptimizer"
    calls, st = [], {}
    f = HostFn(lambda it_, a, k: st["cost"].call(it_, a, k))

    def ent(L, k):
        x = L.v("x").copy()
        st["k"], st["x"], st["cost"] = k, x, Cost(it, x, "quadratic")
        watch_random(it, st["cost"])
        del calls[:]

    def lemma(L, k, phase):
        if phase != "preserve":
            return
        one_coordinate(it, st["cost"], L.v("x"), st["x"], lr)
        if has_cb:
            ctx.prove("callback: called once per step", len(calls) == 1 and len(calls[0]) == 2)
            prove_eq(it, "callback: sees the new iterate", calls[0][0], L.v("x"))
            prove_eq(it, "callback: sees the step number", calls[0][1], z3.simplify(z(k) - 1))

    fr = {
        "x": lambda L, k: rarr(it, ctx.uid("x"), n) if is_z3(k) else x0,
        "norm": lambda L, k: SSeq(z(k), lambda i: z3.Function("nrm", I, R)(z(i))),
        "coord_iters": lambda L, k: rarr(it, ctx.uid("visits"), n),
    }
    it.loop_specs[(cls + ".optimize_and_gradient_norm", 0)] = Inv(fresh=fr, enter=ent, lemma=lemma, rebind=("x",))
    kw = dict(num_iters=T)
    if has_cb:
        kw["callback"] = HostFn(lambda it_, a, k: calls.append(a))
    unwritten(it, "frame: the starting point is not modified", [x0], lambda: it.call(it.getattr(opt, "optimize_and_gradient_norm"), [f, x0], kw))


A, S, C = O + "adam.AdamOptimizer.", O + "sgd.SGDOptimizer.", O + "rcd.RCDOptimizer."
UNITS = [Unit("C19.adam.second_moment_nonnegative", t_nonneg, [])]
for _k, _q in (("adam", A), ("sgd", S), ("nesterov", S)):
    UNITS += [
        Unit("C19.%s.first_step" % _k, t_step(_k, True), [_q + "step"]),
        Unit("C19.%s.step" % _k, t_step(_k, False), [_q + "step"]),
        Unit("C19.%s.optimize" % _k, t_optimize(_k), [_q + "optimize", _q + "reset"]),
        Unit("C19.%s.optimize_and_gradient_norm" % _k, t_optimize_norm(_k), [_q + "optimize_and_gradient_norm"]),
    ]
UNITS += [
    Unit("C19.constructors", t_defaults, [A + "__init__", S + "__init__", A + "reset", S + "reset"]),
    Unit("C19.rcd.step", t_rcd_step, [C + "step", C + "__init__"]),
    Unit("C19.rcd.optimize", t_rcd_optimize, [C + "optimize"]),
    Unit("C19.rcd.optimize_and_gradient_norm", t_rcd_norm, [C + "optimize_and_gradient_norm"]),
]
TRUSTED = ["x ** k for symbolic k: 0 <= b < 1 and k >= 1 imply 0 <= b ** k < 1"]
