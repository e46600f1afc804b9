from util import *
from mentpy.gradients import get_gradient, get_hessian
from mentpy.gradients import grad as G
from mentpy.gradients._parameter_shift import psr_gradient, psr_hessian
from mentpy.gradients._finite_difference import fd_gradient, fd_hessian

PSR = ["parameter-shift", "psr", "parametershift"]
FD = ["finite-differences", "fd", "finitedifferences"]


class Trig:
    """sum of products of first-order trigonometric factors, one per parameter"""

    def __init__(self, rng, n):
        self.n = n
        self.terms = []
        for _ in range(rng.randint(1, 4)):
            self.terms.append([(rng.uniform(-2, 2) if rng.random() < 0.7 else 0, rng.uniform(-2, 2), rng.uniform(-2, 2)) for _ in range(n)])

    def __call__(self, x):
        assert len(x) == self.n
        return sum(math.prod(a + b * math.cos(t) + c * math.sin(t) for (a, b, c), t in zip(term, x)) for term in self.terms)

    def d(self, x, *idx):
        tot = 0
        for term in self.terms:
            p = 1
            for k, ((a, b, c), t) in enumerate(zip(term, x)):
                o = idx.count(k)
                p *= [a + b * math.cos(t) + c * math.sin(t), -b * math.sin(t) + c * math.cos(t), -b * math.cos(t) - c * math.sin(t)][o]
            tot += p
        return tot


class Quad:
    def __init__(self, rng, n, affine=False):
        self.n = n
        self.c = rng.uniform(-2, 2)
        self.b = np.array([rng.uniform(-2, 2) for _ in range(n)])
        self.A = np.array([[0 if affine else rng.uniform(-2, 2) for _ in range(n)] for _ in range(n)])

    def __call__(self, x):
        x = np.array([float(t) for t in x])
        return self.c + self.b @ x + x @ self.A @ x

    def grad(self, x):
        return self.b + (self.A + self.A.T) @ np.array([float(t) for t in x])

    def hess(self):
        return self.A + self.A.T


def point(rng, n):
    k = rng.random()
    if k < 0.2:
        x = np.array([rng.randint(-3, 3) for _ in range(n)])
    elif k < 0.4:
        x = np.array([rng.choice([0.0, math.pi / 2, math.pi, -math.pi, 2 * math.pi, 10.0]) for _ in range(n)])
    else:
        x = np.array([rng.uniform(-7, 7) for _ in range(n)])
    return x


def untouched(f, x):
    x0 = x.copy()
    r = f()
    need(x.dtype == x0.dtype and (x == x0).all(), "the evaluation point was modified: %s -> %s", x0, x)
    return np.array(r)


def shift_of(rng):
    s = rng.choice([1.5, math.pi / 2, 0.3, 1.0, 2.0, 3.0, 4.5, -1.0, -0.7, 7.0, 100.0, rng.uniform(0.2, 2.9)])
    return s


def psr_grad(rng, idx):
    n = rng.randint(1, 6)
    f, x = Trig(rng, n), point(rng, n)
    exp = np.array([f.d(x, i) for i in range(n)])
    s = shift_of(rng)
    m = rng.choice(PSR)
    calls = [lambda: get_gradient(f, x), lambda: get_gradient(f, x, m), lambda: get_gradient(f, x, method=m, shift=s), lambda: get_gradient(f, x, m, s), lambda: psr_gradient(f, x, s), lambda: psr_gradient(f, x, shift=s), lambda: psr_gradient(f, x)]
    close(untouched(rng.choice(calls), x), exp, "parameter-shift gradient, shift %s" % s)
    close(untouched(lambda: get_gradient(f, x, method=m, shift=s), x), exp, "parameter-shift gradient, shift %s, method %s" % (s, m))


def psr_hess(rng, idx):
    n = rng.randint(1, 4)
    f, x = Trig(rng, n), point(rng, n)
    exp = np.array([[f.d(x, i, j) for j in range(n)] for i in range(n)])
    s = shift_of(rng)
    m = rng.choice(PSR)
    calls = [lambda: get_hessian(f, x), lambda: get_hessian(f, x, m), lambda: get_hessian(f, x, m, s), lambda: psr_hessian(f, x, s), lambda: psr_hessian(f, x)]
    close(untouched(rng.choice(calls), x), exp, "parameter-shift Hessian, shift %s" % s, tol=1e-6)
    close(untouched(lambda: get_hessian(f, x, method=m, shift=s), x), exp, "parameter-shift Hessian, shift %s, method %s" % (s, m), tol=1e-6)


def step_of(rng):
    return rng.choice([0.5, 1.0, 0.1, 2.0, 0.25, -0.5, 1e-2, rng.uniform(0.05, 3)])


def fd_grad(rng, idx):
    n = rng.randint(1, 6)
    x = point(rng, n)
    h = step_of(rng)
    for kind in ("central", "forward", "backward"):
        f = Quad(rng, n, affine=kind != "central" or rng.random() < 0.3)
        m = rng.choice(FD)
        calls = [lambda: get_gradient(f, x, m, h, kind), lambda: get_gradient(f, x, method=m, h=h, type=kind), lambda: fd_gradient(f, x, h, kind), lambda: fd_gradient(f, x, type=kind, h=h)]
        if kind == "central":
            calls += [lambda: get_gradient(f, x, method=m, h=h), lambda: fd_gradient(f, x, h)]
        for c in rng.sample(calls, 2):
            close(untouched(c, x), f.grad(x), "finite-difference gradient (%s, h=%s) of %s" % (kind, h, "a quadratic" if f.A.any() else "an affine"), tol=1e-6)
        close(untouched(lambda: get_gradient(f, x, method=m, type=kind), x), f.grad(x), "finite-difference gradient (%s) with the default step" % kind, tol=1e-3)


def fd_hess(rng, idx):
    n = rng.randint(1, 4)
    x = point(rng, n)
    h = step_of(rng)
    f = Quad(rng, n, affine=rng.random() < 0.2)
    for kind in ("central", "forward", "backward"):
        m = rng.choice(FD)
        calls = [lambda: get_hessian(f, x, m, h, kind), lambda: get_hessian(f, x, method=m, h=h, type=kind), lambda: fd_hessian(f, x, h, kind)]
        if kind == "central":
            calls += [lambda: get_hessian(f, x, method=m, h=h)]
        close(untouched(rng.choice(calls), x), f.hess(), "finite-difference Hessian (%s, h=%s)" % (kind, h), tol=1e-5 if abs(h) >= 0.1 else 1e-3)


@case(count=60)
def names(rng, idx):
    f, x = Trig(rng, 2), point(rng, 2)
    bad = rng.choice(["", "newton", "shift", "fdd", "xpsr", "central", "forward", None, 3])
    need(raises(lambda: get_gradient(f, x, bad)), "unknown gradient method %r accepted", bad)
    need(raises(lambda: get_hessian(f, x, bad)), "unknown Hessian method %r accepted", bad)
    kind = rng.choice(["", "cent", "middle", "psr", None])
    need(raises(lambda: fd_gradient(f, x, 0.1, kind)), "unknown variant %r accepted", kind)
    need(raises(lambda: fd_hessian(f, x, 0.1, kind)), "unknown variant %r accepted", kind)
    need(raises(lambda: get_gradient(f, x, "fd", type=kind)), "unknown variant %r accepted", kind)


def dispatch(rng, idx):
    """the name selects the rule: the two rules differ on a cubic"""
    n = 2
    x = np.array([rng.uniform(0.5, 1), rng.uniform(0.5, 1)])
    f = lambda y: float(y[0]) ** 3 + float(y[1]) ** 3
    s, h = 1.3, 0.4
    e = lambda i, d: x + d * np.eye(n)[i]
    for m in PSR:
        close(get_gradient(f, x, m, shift=s), [(f(e(i, s)) - f(e(i, -s))) / (2 * math.sin(s)) for i in range(n)], "method %s" % m)
    for m in FD:
        close(get_gradient(f, x, m, h=h), [(f(e(i, h)) - f(e(i, -h))) / (2 * h) for i in range(n)], "method %s" % m)
        close(get_gradient(f, x, m, h=h, type="forward"), [(f(e(i, h)) - f(x)) / h for i in range(n)], "method %s forward" % m)
        close(get_gradient(f, x, m, h=h, type="backward"), [(f(x) - f(e(i, -h))) / h for i in range(n)], "method %s backward" % m)
    for m in PSR:
        close(get_hessian(f, x, m, shift=s)[0][0], (f(e(0, 2 * s)) - 2 * f(x) + f(e(0, -2 * s))) / (4 * math.sin(s) ** 2), "Hessian method %s" % m)
    for m in FD:
        close(get_hessian(f, x, m, h=h)[0][0], (f(e(0, 2 * h)) - 2 * f(x) + f(e(0, -2 * h))) / (4 * h * h), "Hessian method %s" % m)


CASES = cases(psr_grad, psr_hess, fd_grad, fd_hess, names, dispatch)
