from util import *
from mentpy.optimizers import AdamOptimizer, SGDOptimizer, RCDOptimizer
from c18 import Trig, Quad


def cost(rng, n):
    return Trig(rng, n) if rng.random() < 0.5 else Quad(rng, n)


def gradient(f, x):
    """independent central difference with the package's own rule left out of the loop"""
    if isinstance(f, Quad):
        return f.grad(x)
    return np.array([f.d(x, i) for i in range(len(x))])


def method(f, rng):
    return dict(method="fd", h=0.5) if isinstance(f, Quad) else rng.choice([{}, dict(method="psr"), dict(shift=0.9)])


def adam_ref(f, x, n, lr, b1, b2, eps):
    m, v, out = np.zeros(len(x)), np.zeros(len(x)), []
    gs = []
    for t in range(1, n + 1):
        g = gradient(f, x)
        gs.append(np.linalg.norm(g))
        m = b1 * m + (1 - b1) * g
        v = b2 * v + (1 - b2) * g * g
        x = x - lr * (m / (1 - b1**t)) / (np.sqrt(v / (1 - b2**t)) + eps)
        out.append(x)
    return out, gs


def sgd_ref(f, x, n, lr, mu, nesterov):
    v, out, gs = np.zeros(len(x)), [], []
    for t in range(n):
        g = gradient(f, x)
        gs.append(np.linalg.norm(g))
        v = mu * v - lr * g
        x = x + mu * v - lr * g if nesterov else x + v
        out.append(x)
    return out, gs


def start(rng, n):
    k = rng.random()
    if k < 0.25:
        return np.array([rng.randint(-2, 2) for _ in range(n)])
    return np.array([rng.uniform(-1, 1) for _ in range(n)])


class Trace:
    def __init__(self):
        self.refs, self.copies, self.idx = [], [], []

    def __call__(self, x, i):
        self.refs.append(x)
        self.copies.append(np.array(x, dtype=float))
        self.idx.append(i)

    def check(self, exp, msg):
        need(self.idx == list(range(len(exp))), "%s: callback steps %s", msg, self.idx)
        for k, e in enumerate(exp):
            close(self.copies[k], e, "%s: iterate %d seen by the callback" % (msg, k), tol=1e-5)
            close(self.refs[k], e, "%s: iterate %d was changed after the callback" % (msg, k), tol=1e-5)


def run_all(rng, opt, f, x0, ref, n, msg, kw):
    save = x0.copy()
    for rep in range(rng.randint(1, 3)):
        if rep:
            opt.reset()
        tr = Trace()
        mode = rng.randrange(4)
        if mode == 0:
            x = opt.optimize(f, x0, num_iters=n, callback=tr, **kw)
            tr.check(ref[0], msg + " optimize")
        elif mode == 1:
            x = opt.optimize(f, x0, num_iters=n, verbose=rng.random() < 0.5, **kw)
        elif mode == 2:
            x, norm = opt.optimize_and_gradient_norm(f, x0, num_iters=n, callback=tr, verbose=rng.random() < 0.3, **kw)
            tr.check(ref[0], msg + " optimize_and_gradient_norm")
            close(np.array(list(norm), dtype=float), np.array(ref[1], dtype=float), msg + " recorded norms", tol=1e-5)
        else:
            x = x0
            for i in range(n):
                y = x.copy()
                xn = opt.step(f, x, i, **kw)
                close(x, y, msg + " step modified its point")
                x = xn
                close(x, ref[0][i], msg + " step %d" % i, tol=1e-5)
        if n:
            close(x, ref[0][-1], msg + " final point (run %d, mode %d)" % (rep, mode), tol=1e-5)
        need(x0.dtype == save.dtype and (x0 == save).all(), "%s: starting point modified", msg)


def adam(rng, idx):
    n, k = rng.randint(1, 4), rng.randint(0, 8)
    f, x0 = cost(rng, n), start(rng, n)
    hp = dict(step_size=rng.choice([0.1, 0.01, 0.3, 1.0]), b1=rng.choice([0.9, 0.5, 0.0, 0.99]), b2=rng.choice([0.999, 0.9, 0.5, 0.0]), eps=rng.choice([1e-8, 1e-2, 1.0]))
    if rng.random() < 0.3:
        hp = dict(step_size=0.1, b1=0.9, b2=0.999, eps=1e-8)
        opt = AdamOptimizer()
    else:
        opt = AdamOptimizer(**hp)
    ref = adam_ref(f, np.array(x0, float), k, hp["step_size"], hp["b1"], hp["b2"], hp["eps"])
    run_all(rng, opt, f, x0, ref, k, "Adam %s" % hp, method(f, rng))


def sgd(rng, idx):
    n, k = rng.randint(1, 4), rng.randint(0, 8)
    f, x0 = cost(rng, n), start(rng, n)
    hp = dict(step_size=rng.choice([0.1, 0.01, 0.05]), momentum=rng.choice([0.0, 0.5, 0.9]), nesterov=rng.random() < 0.5)
    if rng.random() < 0.2:
        hp = dict(step_size=0.1, momentum=0.0, nesterov=False)
        opt = SGDOptimizer()
    else:
        opt = SGDOptimizer(**hp)
    ref = sgd_ref(f, np.array(x0, float), k, hp["step_size"], hp["momentum"], hp["nesterov"])
    run_all(rng, opt, f, x0, ref, k, "SGD %s" % hp, method(f, rng))


def rcd(rng, idx):
    n, k = rng.randint(1, 5), rng.randint(1, 10)
    f, x0 = cost(rng, n), start(rng, n)
    save = x0.copy()
    lr = rng.choice([0.1, 0.05, 0.2])
    adaptive = rng.random() < 0.4
    opt = RCDOptimizer(step_size=lr, adaptive=adaptive)
    tr = Trace()
    mode = rng.randrange(3)
    norm = None
    if mode == 0:
        x = opt.optimize(f, x0, num_iters=k, callback=tr)
    elif mode == 1:
        x, norm = opt.optimize_and_gradient_norm(f, x0, num_iters=k, callback=tr)
        need(len(norm) == k, "one norm per step")
    else:
        x = x0
        for i in range(k):
            y = x.copy()
            xn = opt.step(f, x, i)
            close(x, y, "RCD step modified its point")
            x = xn
            tr(x, i)
    need(x0.dtype == save.dtype and (x0 == save).all(), "RCD: starting point modified")
    need(tr.idx == list(range(k)), "RCD: callback steps %s", tr.idx)
    prev = np.array(x0, float)
    count = [0] * n
    for i, cur in enumerate(tr.copies):
        close(tr.refs[i], cur, "RCD iterate %d changed after the callback" % i)
        g = gradient(f, prev)
        diff = cur - prev
        ch = np.flatnonzero(np.abs(diff) > 1e-12)
        need(len(ch) <= 1, "RCD changed coordinates %s in one step", ch)
        ok = False
        for c in list(ch) or range(n):
            eta = lr
            if adaptive:
                eta = lr / math.sqrt(i + 1) if mode != 1 else lr / math.sqrt(count[c] + 1)
            exp = np.zeros(n)
            exp[c] = -eta * g[c]
            if np.allclose(diff, exp, atol=1e-6):
                ok = True
                if norm is not None:
                    need(abs(norm[i] - abs(g[c])) < 1e-4, "RCD norm %d", i)
                count[c] += 1
                break
        need(ok, "RCD step %d: changed by %s, gradient %s, step size %s, adaptive %s, mode %s", i, diff, g, lr, adaptive, mode)
        prev = cur
    close(x, prev, "RCD final point")


@case(count=60)
def update_size(rng, idx):
    for cls in (AdamOptimizer, SGDOptimizer, RCDOptimizer):
        o = cls(step_size=0.4)
        o.update_step_size(np.zeros(2), 1, factor=0.5)
        need(abs(o.step_size - 0.2) < 1e-12, "update_step_size")


CASES = cases(adam, sgd, rcd, update_size)
