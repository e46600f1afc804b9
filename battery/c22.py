from util import *
import mentpy as mp
from mentpy.utils import generate_data as gd


def floor_count(n, t):
    return int(n * t)


def rows_equal(a, b):
    return len(a) == len(b) and all(np.allclose(x, y) for x, y in zip(a, b))


def split(rng, idx):
    n = rng.choice([0, 1, 2, 3, 5, 7, 10, 13, 40, 100])
    t = rng.choice([0.3, 0.0, 1.0, 0.5, 0.1, 0.25, 0.9, 0.99, rng.random()])
    k = rng.randrange(3)
    if k == 0:
        a, b = [("i", i) for i in range(n)], [("t", i) for i in range(n)]
    elif k == 1:
        a, b = np.array([[i, i + 0.5] for i in range(n)]), np.array([10.0 * i for i in range(n)])
    else:
        a, b = [np.array([i, 1]) for i in range(n)], tuple(range(n))
    la, lb = list(a), list(b)
    if rng.random() < 0.2:
        t = 0.3
        (xa, ya), (xb, yb) = gd.train_test_split(a, b)
    else:
        (xa, ya), (xb, yb) = gd.train_test_split(a, b, test_size=t)
    m = floor_count(n, t)
    same = lambda p, q: len(p) == len(q) and all(np.array_equal(np.array(x, dtype=object), np.array(y, dtype=object)) for x, y in zip(p, q))
    need(len(xb) == m and len(yb) == m, "test part of %d samples at %s has %d / %d", n, t, len(xb), len(yb))
    need(same(list(xa) + list(xb), la) and same(list(ya) + list(yb), lb), "split of %d samples at %s loses or reorders samples: %s %s | %s %s", n, t, xa, ya, xb, yb)
    need(same(list(a), la) and same(list(b), lb), "arguments modified")


def shuffled(rng, idx):
    n = rng.choice([1, 2, 5, 9, 20])
    t = rng.choice([0.3, 0.5, 0.0, 1.0, 0.17])
    mk = rng.choice([list, np.array])
    a, b = mk([i for i in range(n)]), mk([100 + i for i in range(n)])
    (xa, ya), (xb, yb) = gd.train_test_split(a, b, test_size=t, randomize=True)
    m = floor_count(n, t)
    need(len(xb) == m == len(yb), "shuffled test part size")
    xs, ys = list(map(int, list(xa) + list(xb))), list(map(int, list(ya) + list(yb)))
    need(sorted(xs) == list(range(n)), "shuffled split loses samples: %s", xs)
    need([x + 100 for x in xs] == ys, "shuffled split separates a sample from its target: %s %s", xs, ys)
    need(list(map(int, a)) == list(range(n)), "arguments modified")


def unitary(rng, q):
    u = np.linalg.qr(rmat(rng, 2**q))[0]
    return u


def pairs_ok(x, y, u, msg):
    need(len(x) == len(y), "%s: %d inputs, %d targets", msg, len(x), len(y))
    for i, (s, t) in enumerate(zip(x, y)):
        s, t = np.asarray(s), np.asarray(t)
        need(s.shape == (u.shape[0],) and t.shape == s.shape, "%s: shapes %s, %s", msg, s.shape, t.shape)
        need(abs(np.linalg.norm(s) - 1) < 1e-7, "%s: input %d not normalised", msg, i)
        close(t, u @ s, "%s: target %d" % (msg, i))


def dataset(rng, idx):
    q = rng.randint(1, 3)
    u = unitary(rng, q)
    n = rng.choice([1, 1, 2, 3, 5, 10, 17])
    t = rng.choice([0.3, 0.0, 1.0, 0.5, 0.21])
    u0 = u.copy()
    (a, b), (c, d) = gd.generate_random_dataset(u, n, test_size=t)
    need(len(a) + len(c) == n and len(c) == floor_count(n, t), "dataset of %d samples split into %d and %d at %s", n, len(a), len(c), t)
    pairs_ok(a, b, u0, "training part")
    pairs_ok(c, d, u0, "test part")
    close(u, u0, "unitary modified")
    allx = [np.asarray(v) for v in list(a) + list(c)]
    for i, j in itertools.combinations(range(min(len(allx), 4)), 2):
        need(not np.allclose(allx[i], allx[j]), "the same input twice")


def noisy(rng, idx):
    q = rng.randint(1, 2)
    u = unitary(rng, q)
    n = rng.choice([1, 2, 3, 6])
    t = rng.choice([0.3, 0.0, 1.0, 0.5])
    kind = rng.choice(["brownian", "bitflip"])
    lvl = rng.choice([0.0, 0, 0.0, 0.2, 0.5, 1.0, 1])
    if rng.random() < 0.2:
        lvl, kind = 0.0, "brownian"
        (a, b), (c, d) = gd.generate_random_dataset_noisy(u, n, test_size=t)
    else:
        (a, b), (c, d) = gd.generate_random_dataset_noisy(u, n, lvl, kind, t)
    need(len(a) == len(b) and len(c) == len(d) and len(a) + len(c) == n and len(c) == floor_count(n, t), "noisy dataset sizes %s", [len(v) for v in (a, b, c, d)])
    pairs_ok(c, d, u, "noisy (%s, %s): test part" % (kind, lvl))
    for s, y in zip(a, b):
        s, y = np.asarray(s), np.asarray(y)
        need(s.shape == (2**q,) and y.shape == s.shape, "shapes")
        need(abs(np.linalg.norm(s) - 1) < 1e-7 and abs(np.linalg.norm(y) - 1) < 1e-7, "noisy training pair not normalised")
        if lvl == 0:
            close(y, u @ s, "noise level 0 (%s): training target" % kind)
        elif kind == "bitflip":
            flips = [kron(*[X if m >> k & 1 else I2 for k in range(q)]) for m in range(2**q)]
            if lvl == 1:
                flips = [kron(*[X] * q)]
            need(any(np.allclose(y, f @ u @ s) for f in flips), "bit-flip training target is not a flipped image of its input")


@case(count=60)
def rejected(rng, idx):
    u = unitary(rng, 1)
    lvl = rng.choice([-0.1, 1.0001, 2, -1, -1e-9, 100])
    need(raises(lambda: gd.generate_random_dataset_noisy(u, 3, lvl, rng.choice(["brownian", "bitflip"])), ValueError), "noise level %s accepted", lvl)
    need(raises(lambda: gd.generate_random_dataset_noisy(u, 3, noise_level=lvl), ValueError), "noise level %s accepted", lvl)


def states(rng, idx):
    q, n = rng.randint(1, 4), rng.choice([1, 2, 4])
    r = gd.generate_haar_random_states(q, n_samples=n)
    for s in [r] if n == 1 else r:
        need(np.shape(s) == (2**q,) and abs(np.linalg.norm(s) - 1) < 1e-8, "random state %s", np.shape(s))
    need(n == 1 or len(r) == n, "number of states")


CASES = cases(split, shuffled, dataset, noisy, rejected, states)
