"""oracles shared by the batteries; nothing here calls the code under test"""
import itertools
import math

import numpy as np

I2 = np.eye(2)
X = np.array([[0, 1], [1, 0]], complex)
Y = np.array([[0, -1j], [1j, 0]], complex)
Z = np.array([[1, 0], [0, -1]], complex)
PAULI = {"I": I2.astype(complex), "X": X, "Y": Y, "Z": Z}


class Bad(AssertionError):
    pass


def need(c, msg="", *a):
    if not c:
        raise Bad(msg % a if a else msg)


def close(a, b, msg="", tol=1e-7):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        raise Bad("%s: shapes %s and %s" % (msg, a.shape, b.shape))
    if a.size and not np.allclose(a, b, atol=tol, rtol=1e-6):
        raise Bad("%s:\n got %s\n expected %s" % (msg, a, b))


def cases(*fs, **kw):
    return list(fs)


def case(count=None, weight=1, enumerated=False):
    def deco(f):
        if count:
            f.count = count
        f.weight = weight
        f.enumerated = enumerated
        return f

    return deco


def kron(*ms):
    out = np.eye(1)
    for m in ms:
        out = np.kron(out, m)
    return out


def raises(f, *excs):
    try:
        f()
    except excs or Exception:
        return True
    except Exception as e:
        raise Bad("raised %s: %s instead of %s" % (type(e).__name__, e, excs))
    return False


def rstate(rng, n):
    v = np.array([rng.gauss(0, 1) + 1j * rng.gauss(0, 1) for _ in range(2**n)])
    return v / np.linalg.norm(v)


def rmat(rng, n, m=None):
    m = m or n
    return np.array([[rng.gauss(0, 1) + 1j * rng.gauss(0, 1) for _ in range(m)] for _ in range(n)])
