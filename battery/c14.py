from util import *
import operator
from mentpy.operators.ment import Ment, MentOutcome

OPS = {
    "*": operator.mul, "+": operator.add, "-": operator.sub, "/": operator.truediv, "//": operator.floordiv, "%": operator.mod, "**": operator.pow,
    "==": operator.eq, "!=": operator.ne, "<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge,
    "&": operator.and_, "|": operator.or_, "^": operator.xor,
}
VAL = dict(OPS)
VAL["&"] = lambda x, y: x and y
VAL["|"] = lambda x, y: x or y


def leaf(rng, n):
    node = rng.randrange(n)
    m = Ment(0.3, "XY")
    m.node_id = node
    return m.outcome, (lambda x: x[node]), {node}, "s%d" % node


def build(rng, n, depth):
    """(expression, oracle evaluation, dependency set, text)"""
    if depth == 0:
        return leaf(rng, n)
    if rng.random() < 0.15:
        e, f, d, t = build(rng, n, depth - 1)
        return ~e, (lambda x: not f(x)), d, "~" + t
    e, f, d, t = build(rng, n, depth - 1)
    op = rng.choice(list(OPS))
    r = rng.random()
    if r < 0.25:
        c = rng.choice([0, 1, 2, 3, -1, 7, True, False])
        if op == "**" and not isinstance(c, bool) and c < 0:
            c = 2
        o, g, d2, t2 = c, (lambda x: c), set(), repr(c)
    elif r < 0.35:
        k = rng.randrange(n)
        o, g, d2, t2 = (lambda x: x[k]), (lambda x: x[k]), set(), "call%d" % k
    else:
        o, g, d2, t2 = build(rng, n, rng.randint(0, depth - 1))
    fn = VAL[op]
    before = (set(e.cond_nodes), e._outcome, set(o.cond_nodes) if isinstance(o, MentOutcome) else None)
    res = OPS[op](e, o)
    need(set(e.cond_nodes) == before[0] and e._outcome is before[1], "operand changed by %s", op)
    if isinstance(o, MentOutcome):
        need(set(o.cond_nodes) == before[2], "right operand changed by %s", op)
    return res, (lambda x: bool(fn(f(x), g(x)) % 2)), d | d2, "(%s %s %s)" % (t, op, t2)


def ev(f, x):
    try:
        return "v", f(x)
    except ZeroDivisionError:
        return "e", None


def expressions(rng, idx):
    n = rng.randint(1, 4)
    e, f, d, t = build(rng, n, 1 + idx % 4)
    need(isinstance(e, MentOutcome), "result of %s", t)
    need(set(e.cond_nodes) == d, "dependencies of %s: %s, expected %s", t, e.cond_nodes, d)
    typ = rng.choice([int, bool])
    for bits in itertools.product([0, 1], repeat=n):
        x = {k: typ(b) for k, b in enumerate(bits)}
        k, v = ev(f, x)
        try:
            got = e(x)
        except UserWarning:
            need(k == "e", "%s at %s does not evaluate", t, x)
            continue
        need(k == "v", "%s at %s evaluates to %s", t, x, got)
        need(bool(got) == bool(v), "%s at %s is %s, expected %s", t, x, got, v)
        need(isinstance(got, (bool, np.bool_)) or t[0] == "s", "%s at %s: %r is not a boolean", t, x, got)


def constants(rng, idx):
    for c in (0, 1, 2, 5, -1, True, False):
        m = MentOutcome(c)
        need(bool(m({})) == bool(c % 2), "constant %s", c)
        need(set(m.cond_nodes) == set(), "constant depends on nodes")
    e, f, d, t = build(rng, 3, 1)
    w = MentOutcome(e)
    need(set(w.cond_nodes) == d, "wrapped outcome")
    need(raises(lambda: e + "x"), "string operand accepted")
    need(raises(lambda: e * 1.5), "float operand accepted")


CASES = cases(expressions, constants)
