"""dense reference simulation of a measurement pattern, shared by C01 and C02"""
from gen import *


def bra0(m, angle, out=None):
    """+1 eigenvector of the documented operator of the measurement"""
    p = m.plane
    a = {"X": 0.0, "Y": math.pi / 2}.get(p, angle)
    return np.array([1, np.exp(1j * a)]) / math.sqrt(2)


def ref(g, ins, qouts, bras, psi):
    """normalised branch state and the smallest conditional probability of an outcome 0

    bras: list of (node, eigenvector) in the order of measurement."""
    nodes = list(g.nodes)
    n, k = len(nodes), len(ins)
    t = np.asarray(psi, complex).reshape([2] * k)
    rest = [v for v in nodes if v not in ins]
    for _ in rest:
        t = np.multiply.outer(t, np.ones(2) / math.sqrt(2))
    live = list(ins) + rest
    for u, v in g.edges():
        ix = [slice(None)] * n
        ix[live.index(u)] = 1
        ix[live.index(v)] = 1
        t[tuple(ix)] *= -1
    pmin = 1.0
    for v, b in bras:
        t = np.tensordot(b.conj(), t, axes=([0], [live.index(v)]))
        live.remove(v)
        p = np.linalg.norm(t) ** 2
        pmin = min(pmin, p)
        if p < 1e-12:
            return None, 0.0
        t = t / math.sqrt(p)
    return np.transpose(t, [live.index(q) for q in qouts]).reshape(-1), pmin


def resolve(ms, supplied):
    """outcome-0 eigenvectors of a dict of measurements, all outcomes being 0"""
    out = {}
    for v, m in ms.items():
        if m is None:
            continue
        if isinstance(m, tuple):  # controlled: (value of the condition, true, false)
            m = m[1] if m[0] else m[2]
        ang = m.angle if m.plane in VARP and m.angle is not None else supplied.get(v)
        out[v] = bra0(m, ang)
    return out


def pick_state(rng, k):
    r = rng.random()
    if r < 0.6:
        return rstate(rng, k)
    if r < 0.8:
        v = np.zeros(2**k, complex)
        v[rng.randrange(2**k)] = 1
        return v
    return kron(*[rstate(rng, 1).reshape(-1, 1) for _ in range(k)]).reshape(-1)
