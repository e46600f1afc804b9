from util import *
import mentpy as mp
from mentpy.operators import PauliOp

BITS = {"I": (0, 0), "X": (1, 0), "Z": (0, 1), "Y": (1, 1)}


def rrows(rng, m=None, n=None):
    n = n or rng.choice([1, 1, 2, 3, 4, 5, 8, 12])
    m = m or rng.choice([1, 1, 2, 3, 4, 7])
    return ["".join(rng.choice("IXYZ") for _ in range(n)) for _ in range(m)]


def tab(rows):
    n = len(rows[0])
    t = np.zeros((len(rows), 2 * n), dtype=int)
    for i, r in enumerate(rows):
        for j, c in enumerate(r):
            t[i, j], t[i, n + j] = BITS[c]
    return t


def arr(m):
    return np.array(m).astype(int)


def shows(op, rows, msg):
    need(arr(op.matrix).shape == (len(rows), 2 * len(rows[0])), "%s: tableau shape %s for %s", msg, op.matrix.shape, rows)
    need((arr(op.matrix) == tab(rows)).all(), "%s: tableau\n%s\nshows not %s", msg, arr(op.matrix), rows)
    need(op.txt.split("\n") == rows, "%s: text %r, expected %s", msg, op.txt, rows)
    need(repr(op) == op.txt and str(op) == op.txt, "%s: repr %r", msg, repr(op))
    need(len(op) == len(rows), "%s: len %d", msg, len(op))
    need(op.number_of_qubits == len(rows[0]), "%s: number_of_qubits", msg)
    for i, r in enumerate(rows):
        need(op[i].txt == r and (arr(op[i].matrix) == tab([r])).all() and len(op[i]) == 1, "%s: row %d is %r / %s, expected %r", msg, i, op[i].txt, arr(op[i].matrix), r)


def make(rng, rows):
    k = rng.randrange(6)
    t = tab(rows)
    if k == 0:
        return PauliOp(";".join(rows))
    if k == 1:
        return PauliOp(rng.choice([" ; ", "; ", ";"]).join(rows) + rng.choice(["", ";", " ", " ;"]))
    if k == 2:
        return PauliOp(list(rows))
    if k == 3:
        return PauliOp(t)
    if k == 4:
        return PauliOp(t.astype(rng.choice([np.uint8, np.int64, np.int8])))
    return mp.PauliOp(PauliOp(list(rows)).matrix)


def forms(rng, idx):
    rows = rrows(rng)
    for k in range(3):
        shows(make(rng, rows), rows, "operator %s" % rows)
    t = tab(rows)
    t0 = t.copy()
    op = PauliOp(t)
    l = list(rows)
    PauliOp(l)
    need((t == t0).all() and l == rows, "arguments modified")


def indexing(rng, idx):
    rows = rrows(rng, m=rng.randint(1, 7))
    op = make(rng, rows)
    n = len(rows)
    for i in (rng.randrange(n), -1, -n):
        shows(op[i], [rows[i]], "index %d of %s" % (i, rows))
    need(raises(lambda: op[n], IndexError), "index out of range accepted")
    a, b = sorted((rng.randint(0, n), rng.randint(0, n)))
    for s in (slice(a, b), slice(None, b), slice(a, None), slice(None, None, rng.choice([1, 2, -1]))):
        if rows[s]:
            shows(op[s], rows[s], "slice %s of %s" % (s, rows))
    need([o.txt for o in op] == rows, "iteration over %s", rows)
    shows(op, rows, "after indexing")


def dense(r):
    return kron(*[PAULI[c] for c in r])


def mulrow(a, b):
    inv = {v: k for k, v in BITS.items()}
    return "".join(inv[tuple((p + q) % 2 for p, q in zip(BITS[x], BITS[y]))] for x, y in zip(a, b))


def anti(a, b):
    return sum(x != y and x != "I" and y != "I" for x, y in zip(a, b)) % 2


def group(rng, idx):
    n = rng.choice([1, 2, 3, 4, 6])
    a, b = rrows(rng, m=rng.randint(1, 4), n=n), rrows(rng, m=rng.randint(1, 4), n=n)
    A, B = make(rng, a), make(rng, b)
    sp = arr(A.symplectic_prod(B))
    need(sp.shape == (len(a), len(b)), "symplectic product shape %s", sp.shape)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            need(sp[i, j] == anti(x, y), "symplectic product of %s and %s is %s", x, y, sp[i, j])
            if n <= 3:
                P, Q = dense(x), dense(y)
                need(bool(sp[i, j]) == bool(np.allclose(P @ Q, -Q @ P)), "anticommutation of %s, %s", x, y)
    x, y = a[0], b[0]
    X1, Y1 = make(rng, [x]), make(rng, [y])
    shows(X1 * Y1, [mulrow(x, y)], "%s * %s" % (x, y))
    if n <= 3:
        m = dense(x) @ dense(y)
        e = dense((X1 * Y1).txt)
        ph = np.vdot(e, m) / 2**n
        need(abs(abs(ph) - 1) < 1e-9 and np.allclose(ph * e, m), "product of %s and %s is not %s", x, y, (X1 * Y1).txt)
    c = X1.commutator(Y1)
    if anti(x, y):
        shows(c, [mulrow(x, y)], "commutator of %s and %s" % (x, y))
    else:
        need(not isinstance(c, PauliOp) and c == 0, "commutator of commuting %s and %s is %s", x, y, c)
    shows(X1, [x], "left operand")
    shows(Y1, [y], "right operand")
    if len(a) == len(b):
        shows(A * B, [mulrow(p, q) for p, q in zip(a, b)], "product row by row")
    shows(A, a, "after operations")


def collections_(rng, idx):
    n = rng.choice([1, 2, 3, 5])
    a, b = rrows(rng, m=rng.randint(1, 4), n=n), rrows(rng, m=rng.randint(1, 3), n=n)
    A, B = make(rng, a), make(rng, b)
    need((B in A) == all(r in a for r in b), "membership of %s in %s", b, a)
    r = rng.choice(a)
    need(make(rng, [r]) in A, "%s in %s", r, a)
    q = rng.sample(range(n), rng.randint(1, n))
    q0 = list(q)
    shows(A.get_subset(q), ["".join(r[i] for i in q) for r in a], "subset %s of %s" % (q, a))
    need(q == q0, "index list modified")
    need(raises(lambda: A.get_subset([n])), "qubit %d of %d accepted", n, n)
    if n > 1:
        need(raises(lambda: A.get_subset([0, n + 1])), "qubit %d of %d accepted", n + 1, n)
    shows(A, a, "after get_subset")
    hb, ha = hash(B), hash(A)
    need(hash(make(rng, a)) == ha, "equal operators with different hashes: %s", a)
    A.append(B)
    shows(A, a + b, "append %s to %s" % (b, a))
    shows(B, b, "appended operator")
    need(make(rng, a + b) == A and hash(make(rng, a + b)) == hash(A), "appended operator equals a fresh one")
    C = make(rng, [a[0]])
    A.append(C)
    C.append(make(rng, [b[0]]))
    shows(A, a + b + [a[0]], "second append")
    shows(C, [a[0], b[0]], "append to the appended operator")


def equality(rng, idx):
    a = rrows(rng)
    A = make(rng, a)
    E = make(rng, a)
    need(A == E and not (A != E), "%s equal", a)
    need(hash(A) == hash(E), "hash of %s", a)
    i, j = rng.randrange(len(a)), rng.randrange(len(a[0]))
    b = list(a)
    b[i] = b[i][:j] + rng.choice([c for c in "IXYZ" if c != b[i][j]]) + b[i][j + 1 :]
    D = make(rng, b)
    need(not (A == D) and A != D, "%s == %s", a, b)
    for c in (a + [a[0]], a[1:], [r + "I" for r in a], [r[1:] for r in a]):
        if c and c[0]:
            need(not (A == make(rng, c)), "%s == %s", a, c)
    if len(a) > 1 and a != a[::-1]:
        need(not (A == make(rng, a[::-1])), "row order of %s", a)


@case(weight=0.6)
def wide(rng, idx):
    """many qubits or rows: text and tableau still agree, hashes of equal operators too"""
    n, m = rng.choice([(30, 3), (60, 2), (4, 300), (520, 2), (3, 1100)])
    a = rrows(rng, m=m, n=n)
    A, B = make(rng, a), make(rng, a)
    need((arr(A.matrix) == tab(a)).all() and A.txt.split("\n") == a, "wide operator")
    need(A == B and hash(A) == hash(B), "wide operators equal")
    k = rng.randrange(m)
    need(A[k].txt == a[k], "row of a wide operator")
    q = rng.sample(range(n), min(n, 3))
    need(A.get_subset(q).txt.split("\n") == ["".join(r[i] for i in q) for r in a], "subset of a wide operator")


@case(count=80)
def rejected(rng, idx):
    rows = rrows(rng, m=rng.randint(2, 4))
    k = rng.randrange(1, len(rows))
    bad = list(rows)
    bad[k] = bad[k] + "X" if rng.random() < 0.5 or len(bad[k]) == 1 else bad[k][:-1]
    need(raises(lambda: PauliOp(bad)), "unequal rows %s accepted", bad)
    need(raises(lambda: PauliOp(";".join(bad))), "unequal rows %s accepted", bad)
    need(raises(lambda: PauliOp(np.zeros((2, 2 * rng.randint(0, 3) + 1), dtype=int))), "odd number of columns accepted")
    c = rng.choice("ABxyzi1?")
    need(raises(lambda: PauliOp(rows[0][:-1] + c)), "letter %r accepted", c)
    need(raises(lambda: PauliOp(rng.choice([3, None, 2.5, {}]))), "non-operator accepted")


CASES = cases(forms, indexing, group, collections_, equality, wide, rejected)
