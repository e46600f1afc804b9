from util import *
from mentpy.operators import gates


def bits(x, n):
    return [(x >> (n - 1 - q)) & 1 for q in range(n)]


def num(b):
    return int("".join(map(str, b)), 2)


def dense(n, f):
    """matrix of the map basis vector -> [(amplitude, basis vector)]"""
    m = np.zeros((2**n, 2**n), complex)
    for c in range(2**n):
        for amp, b in f(bits(c, n)):
            m[num(b), c] += amp
    return m


def one_qubit(rng, idx):
    n = rng.randint(1, 6)
    i = rng.randrange(n)
    u = rmat(rng, 2)

    def f(b):
        out = []
        for v in (0, 1):
            d = list(b)
            d[i] = v
            out.append((u[v, b[i]], d))
        return out

    u0 = u.copy()
    close(gates.arbitrary_qubit_gate(u, i, n), dense(n, f), "arbitrary_qubit_gate(u,%d,%d)" % (i, n))
    close(u, u0, "gate modified")


def pairs(rng, lo=2, hi=6):
    n = rng.randint(lo, hi)
    i, j = rng.sample(range(n), 2)
    return n, i, j


def cz(rng, idx):
    n, i, j = pairs(rng)
    close(gates.controlled_z(i, j, n), dense(n, lambda b: [((-1) ** (b[i] * b[j]), b)]), "controlled_z(%d,%d,%d)" % (i, j, n))


def swapped(b, i, j):
    d = list(b)
    d[i], d[j] = d[j], d[i]
    return d


def swap(rng, idx):
    n, i, j = pairs(rng)
    close(gates.swap_ij(i, j, n), dense(n, lambda b: [(1, swapped(b, i, j))]), "swap_ij(%d,%d,%d)" % (i, j, n))


def cnot(rng, idx):
    n, i, j = pairs(rng)

    def f(b):
        d = list(b)
        d[j] ^= d[i]
        return [(1, d)]

    close(gates.cnot_ij(i + 1, j + 1, n), dense(n, f), "cnot_ij(%d,%d,%d)" % (i + 1, j + 1, n))


def swap_state(rng, idx):
    n = rng.randint(1, 7)
    i, j = rng.randrange(n), rng.randrange(n)
    psi = rstate(rng, n)
    p0 = psi.copy()
    out = gates.swap_qubits(psi, i, j)
    exp = np.array([psi[num(swapped(bits(r, n), i, j))] for r in range(2**n)])
    close(out, exp, "swap_qubits(psi,%d,%d), n=%d" % (i, j, n))
    close(psi, p0, "argument modified")
    out[...] = 0
    close(psi, p0, "result aliases the argument")


CASES = cases(one_qubit, cz, swap, cnot, swap_state)
