"""C14: MentOutcome expressions (mentpy/operators/ment.py).

One contract per operator.  The operands are arbitrary outcomes: an unknown value in {0, 1}
(as int or bool) per assignment and an unknown dependency set.  Expressions of any depth follow
by induction: each operator's result again satisfies the operand contract."""
from .common import *

M = "mentpy.operators.ment."
OPS = {
    "__mul__": "*", "__add__": "+", "__sub__": "-", "__truediv__": "/", "__floordiv__": "//", "__mod__": "%", "__pow__": "**",
    "__eq__": "==", "__ne__": "!=", "__lt__": "<", "__le__": "<=", "__gt__": ">", "__ge__": ">=", "__and__": "and", "__or__": "or", "__xor__": "^",
}


class Assignment:
    """an assignment of outcomes: node -> bit"""

    def __init__(self, it, name):
        self.f = it.ctx.func(name, I, I)
        self.name = name

    def __pyvc_getitem__(self, it, k):
        return self.f(z(k))

    def agree(self, other, mem):
        q = z3.Int("node")
        return z3.ForAll([q], z(Implies(mem(q), self.f(q) == other.f(q))))


class Operand:
    """the contract of an outcome: value function + dependency set"""

    def __init__(self, it, name, xs, boolean):
        self.ctx = it.ctx
        self.mem = it.ctx.func(name + "_nodes", I, B)
        self.vals = {}
        for x in xs:
            v = it.ctx.bool("%s_at_%s" % (name, x.name))
            # every outcome is one of two values: both are explored
            c = it.ctx.branch(v)
            self.vals[x] = c if boolean else int(c)
        # induction hypothesis: the value depends only on the own nodes
        for a in xs:
            for b in xs:
                if a is not b and zint(self.vals[a]) != zint(self.vals[b]):
                    it.ctx.assume(z3.Not(a.agree(b, self.mem)))
        self.set = SSet(self.mem)
        self.fn = HostFn(lambda it_, a, k: self.vals[a[0]])
        self.obj = it.call(it.fn(M + "MentOutcome"), [self.fn], {"cond_nodes": self.set})


def expected(it, op, x, y):
    """the operator applied to the values, reduced mod 2 to a boolean"""
    ctx = it.ctx
    if op in ("==", "!=", "<", "<=", ">", ">="):
        r = ops.compare(ctx, op, zint(x), zint(y))
    elif op == "and":
        r = y if ctx.branch(it.truth(x)) else x
    elif op == "or":
        r = x if ctx.branch(it.truth(x)) else y
    else:
        r = ops.scalar_op(ctx, op, x, y)
    return it.truth(ops.floordivmod(ctx, r, 2)[1])


def members(it, name, s, mem):
    q = it.ctx.int("node")
    it.ctx.prove(name, Iff(lib_py.mem_of(s)(q), mem(q)))


def apply(it, meth, left, right):
    objs = [left.obj, left.set] + ([right.obj, right.set] if isinstance(right, Operand) else [])
    return unwritten(it, "operands unchanged", objs, lambda: it.call(it.getattr(left.obj, meth), [right.obj if isinstance(right, Operand) else right]))


def result_check(it, op, res, xs, left, yval, mem):
    ctx = it.ctx
    cls = it.fn(M + "MentOutcome")
    ctx.prove("result is an outcome", isinstance(res, Obj) and res.cls is cls)
    members(it, "dependencies are the union", it.getattr(res, "cond_nodes"), mem)
    got = {}
    for x in xs:
        k, e = attempt(it, lambda: expected(it, op, left.vals[x], yval(x)))
        k2, v = attempt(it, lambda: it.call(res, [x]))
        if k == "exc":
            ctx.prove("undefined value is an error", k2 == "exc")
            continue
        ctx.prove("value evaluates", k2 == "val")
        if k2 == "val":
            ctx.prove("value is a boolean", isinstance(v, (bool, z3.BoolRef)))
            ctx.prove("value = operator on the operand values, mod 2", Iff(it.truth(v), e))
            got[x] = it.truth(v)
    if len(got) == 2:
        a, b = xs
        ctx.prove("value depends only on the dependency set", Implies(a.agree(b, mem), Iff(got[a], got[b])))


def unit_op(meth, op):
    def unit(it):
        ctx = it.ctx
        xs = [Assignment(it, "x"), Assignment(it, "y")]
        kind = ctx.choose(4)
        lb = ctx.choose(2) == 1
        left = Operand(it, "left", xs, lb)
        if kind == 0:
            right = Operand(it, "right", xs, ctx.choose(2) == 1)
            res = apply(it, meth, left, right)
            result_check(it, op, res, xs, left, lambda x: right.vals[x], lambda q: Or(left.mem(q), right.mem(q)))
        elif kind == 1:
            c = ctx.int("const")
            res = apply(it, meth, left, c)
            result_check(it, op, res, xs, left, lambda x: c, left.mem)
        elif kind == 2:
            c = ctx.choose(2) == 1
            res = apply(it, meth, left, c)
            result_check(it, op, res, xs, left, lambda x: c, left.mem)
        else:
            # a callable: its value is read from the assignment by the user's own code
            vals = {x: int(ctx.branch(ctx.bool("callable"))) for x in xs}
            f = HostFn(lambda it_, a, k: vals[a[0]])
            res = apply(it, meth, left, f)
            if zint(vals[xs[0]]) != zint(vals[xs[1]]):
                result_check(it, op, res, xs[:1], left, lambda x: vals[x], left.mem)
            else:
                result_check(it, op, res, xs, left, lambda x: vals[x], left.mem)

    return unit


def t_invert(it):
    ctx = it.ctx
    xs = [Assignment(it, "x"), Assignment(it, "y")]
    left = Operand(it, "left", xs, ctx.choose(2) == 1)
    res = unwritten(it, "operand unchanged", [left.obj, left.set], lambda: it.call(it.getattr(left.obj, "__invert__"), []))
    members(it, "dependencies", it.getattr(res, "cond_nodes"), left.mem)
    got = []
    for x in xs:
        v = it.call(res, [x])
        ctx.prove("value is a boolean", isinstance(v, (bool, z3.BoolRef)))
        ctx.prove("negation", Iff(it.truth(v), Not(it.truth(left.vals[x]))))
        got.append(it.truth(v))
    ctx.prove("value depends only on the dependency set", Implies(xs[0].agree(xs[1], left.mem), Iff(*got)))


def t_leaf(it):
    ctx = it.ctx
    xs = [Assignment(it, "x"), Assignment(it, "y")]
    node = ctx.int("node_id")
    m = it.call(it.fn(M + "Ment"), [ctx.real("t"), "XY"])
    it.setattr(m, "node_id", node)
    o = it.getattr(m, "outcome")
    ctx.prove("node id", it.eq(it.getattr(m, "node_id"), node))
    members(it, "depends exactly on its node", it.getattr(o, "cond_nodes"), lambda q: q == node)
    for x in xs:
        ctx.prove("value is the outcome of its node", it.eq(it.call(o, [x]), x.f(node)))
    # constants
    c = ctx.int("const")
    k = it.call(it.fn(M + "MentOutcome"), [c])
    v = it.call(k, [xs[0]])
    ctx.prove("constant mod 2", Iff(it.truth(v), c % 2 == 1))
    members(it, "a constant depends on nothing", it.getattr(k, "cond_nodes"), lambda q: False)
    for bval in (True, False):
        k = it.call(it.fn(M + "MentOutcome"), [bval])
        ctx.prove("boolean constant", Iff(it.truth(it.call(k, [xs[0]])), bval))
    # wrapping keeps value and dependencies
    left = Operand(it, "left", xs, True)
    w = it.call(it.fn(M + "MentOutcome"), [left.obj])
    members(it, "wrapping keeps the dependencies", it.getattr(w, "cond_nodes"), left.mem)
    ctx.prove("wrapping keeps the value", Iff(it.truth(it.call(w, [xs[0]])), it.truth(left.vals[xs[0]])))


def t_types(it):
    xs = [Assignment(it, "x")]
    left = Operand(it, "left", xs, True)
    for meth in OPS:
        for bad in ("a", Fraction(1, 2), None, VList([1])):
            must_raise(it, "%s rejects %r" % (meth, bad), lambda: it.call(it.getattr(left.obj, meth), [bad]), "TypeError")


UNITS = [Unit("C14.%s" % m, unit_op(m, o), [M + "MentOutcome." + m, M + "MentOutcome._binary_operation", M + "MentOutcome.__call__"]) for m, o in OPS.items()] + [
    Unit("C14.__invert__", t_invert, [M + "MentOutcome.__invert__"]),
    Unit("C14.leaves", t_leaf, [M + "MentOutcome.__init__", M + "MentOutcome.__call__", M + "MentOutcome.cond_nodes", M + "Ment.outcome", M + "Ment.node_id"]),
    Unit("C14.operand-types", t_types, [M + "MentOutcome._binary_operation"]),
]
ASSUMES = ["induction over expression depth: the result contract proved per operator is the operand contract assumed per operator"]
