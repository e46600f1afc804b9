from util import *
import mentpy as mp
from mentpy.calculator import state_ops as so


def ptrace_ref(rho, n, traced):
    """sum over basis states of the traced qubits, remaining qubits in order"""
    t = rho.reshape([2] * (2 * n))
    keep = [q for q in range(n) if q not in traced]
    out = np.zeros((2 ** len(keep),) * 2, complex)
    for bits in itertools.product((0, 1), repeat=len(traced)):
        ix = [slice(None)] * (2 * n)
        for q, b in zip(traced, bits):
            ix[q] = b
            ix[n + q] = b
        out += t[tuple(ix)].reshape(out.shape)
    return out


def density(rng, idx):
    n = rng.randint(0, 5)
    psi = np.array([rng.gauss(0, 1) + 1j * rng.gauss(0, 1) for _ in range(2**n)])
    p0 = psi.copy()
    exp = np.array([[a * np.conj(b) for b in psi] for a in psi])
    close(so.pure2density(psi), exp, "pure2density")
    close(psi, p0, "argument modified")


def mixed(rng, idx):
    n = rng.randint(1, 4)
    rho = rmat(rng, 2**n)
    if rng.random() < 0.3:
        rho = np.real(rho)
    if rng.random() < 0.3:
        rho = np.array([[rng.randint(-3, 3) for _ in range(2**n)] for _ in range(2**n)])
    r = rng.randint(0, n)
    traced = rng.sample(range(n), r)
    r0, t0 = rho.copy(), list(traced)
    for f in (so.partial_trace, so.partial_trace_mixed_state):
        got = f(rho, traced)
        close(got, ptrace_ref(r0, n, t0), "partial trace of a density matrix, n=%d, traced=%s" % (n, t0))
        close(rho, r0, "density matrix modified")
        need(traced == t0, "list of qubits modified")


def up_to_phase(got, exp, msg):
    got = np.asarray(got)
    need(got.shape == exp.shape, "%s: shape %s, expected %s", msg, got.shape, exp.shape)
    need(abs(np.linalg.norm(got) - 1) < 1e-7, "%s: not normalised: %s", msg, got)
    need(abs(abs(np.vdot(got, exp)) - 1) < 1e-7, "%s: got %s expected %s up to phase", msg, got, exp)


SPECIAL = [[1, 0], [0, 1], [1, 1], [1, -1], [1, 1j], [1, -1j], [3, 4], [1, 1e-3], [1e-3, -1]]


def pure(rng, idx):
    n = rng.randint(1, 6)
    r = rng.randint(0, n - 1)
    traced = rng.sample(range(n), r)
    keep = [q for q in range(n) if q not in traced]
    a = rstate(rng, len(keep))
    if rng.random() < 0.5:
        b = rstate(rng, r)
    else:
        b = kron(*[np.array(rng.choice(SPECIAL), complex).reshape(-1, 1) for _ in range(r)]).reshape(-1)
        if rng.random() < 0.3 and r:
            b = np.zeros(2**r, complex)
            b[rng.randrange(2**r)] = 1j
        b = b / np.linalg.norm(b)
    if rng.random() < 0.3:
        a = np.zeros_like(a)
        a[rng.randrange(len(a))] = 1
    t = np.multiply.outer(a.reshape([2] * len(keep)), b.reshape([2] * r))
    order = keep + traced
    psi = np.transpose(t, [order.index(q) for q in range(n)]).reshape(-1).copy()
    p0, t0 = psi.copy(), list(traced)
    for f in (so.partial_trace, so.partial_trace_pure_state):
        up_to_phase(f(psi, traced), a, "pure partial trace, n=%d, traced=%s" % (n, t0))
        close(psi, p0, "state modified")
        need(traced == t0, "list of qubits modified")


def public(rng, idx):
    """the names re-exported by the package are the same operations"""
    n = rng.randint(1, 3)
    rho = rmat(rng, 2**n)
    k = rng.randrange(n)
    close(mp.calculator.partial_trace(rho, [k]), ptrace_ref(rho, n, [k]), "mp.calculator.partial_trace")


@case(count=40)
def shapes(rng, idx):
    shp = rng.choice([(), (2, 2, 2), (1, 2, 2, 1), (4, 4, 1)])
    need(raises(lambda: so.partial_trace(np.ones(shp), [0]), ValueError), "shape %s accepted", shp)


CASES = cases(density, mixed, pure, public, shapes)
