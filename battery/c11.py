from util import *
from c09 import tab, arr, anti, mulrow, make
from mentpy.operators import PauliOp
from mentpy.utils.lie_algebra import lie_algebra_completion


def closure(gens):
    out = list(dict.fromkeys(gens))
    seen = set(out)
    work = list(out)
    while work:
        x = work.pop()
        for y in list(out):
            if anti(x, y):
                z = mulrow(x, y)
                if z not in seen:
                    seen.add(z)
                    out.append(z)
                    work.append(z)
    return seen


def check(gens, rng, **kw):
    n = len(gens[0])
    op = make(rng, gens)
    t0, m0 = op.txt, arr(op.matrix)
    exp = closure(gens) | {"I" * n}
    try:
        res = lie_algebra_completion(op, **kw)
    except ValueError:
        if "max_iter" not in kw and len(exp) < 40:
            raise
        need(op.txt == t0 and (arr(op.matrix) == m0).all(), "generators modified")
        return
    need(op.txt == t0 and (arr(op.matrix) == m0).all() and [o.txt for o in op] == gens, "generators %s modified to %s", gens, op.txt)
    rows = [r.txt for r in res]
    need(rows == res.txt.split("\n") and (arr(res.matrix) == tab(rows)).all(), "rows of the result")
    need(set(rows) == exp, "closure of %s: missing %s, extra %s", gens, sorted(exp - set(rows))[:6], sorted(set(rows) - exp)[:6])
    if len(set(gens)) == len(gens):
        need(len(rows) == len(set(rows)), "closure of %s has repeated operators %s", gens, rows)


def rnd(rng, idx):
    n = rng.choice([1, 1, 2, 2, 2, 3])
    m = rng.randint(1, 4 if n < 3 else 5)
    gens = []
    while len(gens) < m:
        w = rng.choice([0.5, 0.75, 0.9])
        g = "".join(rng.choice("XYZ") if rng.random() < w else "I" for _ in range(n))
        if g not in gens or rng.random() < 0.1:
            gens.append(g)
        elif len(set(gens)) >= 4**n - 1:
            break
    check(gens, rng)


def limit(rng, idx):
    n = rng.choice([2, 2, 3])
    gens = list(dict.fromkeys("".join(rng.choice("IXYZ") for _ in range(n)) for _ in range(rng.randint(2, 5))))
    check(gens, rng, max_iter=rng.choice([0, 1, 2, 3, 5, 8, 12, 20, 40, 100, rng.randint(0, 60)]))


@case(weight=0.4)
def chain(rng, idx):
    n = rng.choice([3, 4])
    gens = ["I" * i + rng.choice(["XX", "ZZ", "XY"]) + "I" * (n - i - 2) for i in range(n - 1)] + ["I" * i + "Z" + "I" * (n - i - 1) for i in range(rng.randint(0, 2))]
    gens = list(dict.fromkeys(gens))
    rng.shuffle(gens)
    if len(closure(gens)) > 60:
        return
    check(gens, rng)


CASES = cases(rnd, limit, chain)
