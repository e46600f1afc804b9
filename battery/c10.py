from util import *
import galois
from mentpy.calculator import solve
from mentpy.mbqc.flow import binary_gaussian_elimination

GF = galois.GF(2)
SOLVERS = [("solve", solve), ("binary_gaussian_elimination", binary_gaussian_elimination)]


def solvable(A, b):
    """independent elimination on Python integers"""
    rows = [int("".join(map(str, r)) or "0", 2) << 1 | int(v) for r, v in zip(A.tolist(), b.tolist())]
    piv = []
    for r in rows:
        for p in piv:
            if r ^ p < r:
                r ^= p
        if r:
            piv.append(r)
            piv.sort(reverse=True)
    return 1 not in piv


def check(A, b, rng, must=None):
    ok = solvable(A, b) if must is None else must
    if not ok:
        return
    name, f = rng.choice(SOLVERS)
    typ = rng.choice(["gf", "int", "gf", "uint8"])
    shape = rng.choice([(-1,), (-1, 1)])
    conv = GF if typ == "gf" else (lambda v: v.astype(np.uint8 if typ == "uint8" else int))
    AA, bb = conv(A.copy()), conv(b.copy().reshape(shape))
    A0, b0 = AA.copy(), bb.copy()
    x = f(AA, bb)
    need((np.array(AA) == np.array(A0)).all() and (np.array(bb) == np.array(b0)).all(), "%s modified its arguments", name)
    xa = np.array(x).reshape(-1).astype(int)
    need(xa.shape == (A.shape[1],), "%s: solution of shape %s for %s unknowns", name, np.array(x).shape, A.shape[1])
    need(set(xa.tolist()) <= {0, 1}, "%s: entries %s", name, xa)
    need(((A @ xa - b) % 2 == 0).all(), "%s (%s): x=%s does not solve\nA=%s\nb=%s", name, typ, xa, A, b)


def rnd(rng, idx):
    m, n = rng.randint(1, 7), rng.randint(1, 7)
    p = rng.choice([0.1, 0.3, 0.5, 0.7, 0.9])
    A = np.array([[int(rng.random() < p) for _ in range(n)] for _ in range(m)])
    if rng.random() < 0.3:
        A[rng.randrange(m)] = 0
    if rng.random() < 0.3:
        A[:, rng.randrange(n)] = 0
    if rng.random() < 0.4 and m > 1:
        i, j = rng.sample(range(m), 2)
        A[i] = (A[i] + A[j]) % 2 if rng.random() < 0.5 else A[j]
    x = np.array([rng.randint(0, 1) for _ in range(n)])
    check(A, A @ x % 2, rng, True)
    check(A, np.array([rng.randint(0, 1) for _ in range(m)]), rng)


SIZES = [(m, n) for m in range(1, 4) for n in range(1, 4)]
SMALL = [(m, n, k) for m, n in SIZES for k in range(2 ** (m * n))]


@case(count=len(SMALL), weight=0.5, enumerated=True)
def small(rng, idx):
    """every system with at most 3 equations and 3 unknowns"""
    m, n, k = SMALL[idx]
    A = np.array([(k >> i) & 1 for i in range(m * n)]).reshape(m, n)
    for v in range(2**m):
        check(A, np.array([(v >> i) & 1 for i in range(m)]), rng)


@case(weight=0.5)
def large(rng, idx):
    m, n = rng.choice([(10, 10), (20, 12), (12, 20), (30, 30), (40, 25)])
    r = rng.randint(1, min(m, n))
    A = (np.array([[rng.randint(0, 1) for _ in range(r)] for _ in range(m)]) @ np.array([[rng.randint(0, 1) for _ in range(n)] for _ in range(r)])) % 2
    x = np.array([rng.randint(0, 1) for _ in range(n)])
    check(A, A @ x % 2, rng, True)


CASES = cases(rnd, small, large)
