"""C15: ControlMent (mentpy/operators/controlled_ment.py)"""
from . import c13
from .common import *

C = "mentpy.operators.controlled_ment."
M = "mentpy.operators.ment."
BR = [(p, f) for p in c13.PLANES for f in ((True, False) if p in c13.VAR else (True,))]


class Branch:
    def __init__(self, it, name, plane, fixed):
        self.plane = plane
        self.trainable = plane in c13.VAR and not fixed
        self.given = c13.an_angle(it, plane, name) if plane in c13.VAR and fixed else None
        self.angle = self.given if plane in c13.VAR else 0

    def op(self, it, supplied):
        return c13.operator(it, self.plane, supplied if self.trainable else self.angle)


def conditions(it):
    """(condition object, truth value) for every kind of condition"""
    ctx = it.ctx
    out = [(True, True), (False, False)]
    for raw in (True, False, 1, 0):
        fn = HostFn(lambda it_, a, k, raw=raw: raw)
        out.append((it.call(it.fn(M + "MentOutcome"), [fn], {"cond_nodes": VSet()}), bool(raw)))
    return out


X = "assignment"


def same_angle(it, name, got, exp):
    if exp is None or got is None:
        it.ctx.prove(name, got is None and exp is None)
    else:
        it.ctx.prove(name, it.eq(got, exp))


def t_branches(tp, tf):
    def unit(it):
        ctx = it.ctx
        for fp, ff in BR:
            t, f = Branch(it, "true_angle", tp, tf), Branch(it, "false_angle", fp, ff)
            xyz = {b.plane == "XYZ" for b in (t, f) if b.trainable}
            any_tr = t.trainable or f.trainable
            for cond, truth in conditions(it):
                c0 = it.call(it.fn(C + "ControlMent"), [cond, t.given, t.plane, f.given, f.plane])
                sel = t if truth else f
                sup = c13.an_angle(it, sel.plane, "supplied") if sel.trainable else (ctx.real("supplied") if any_tr else None)
                for tag, c in (("", c0), ("copy/", it.call(it.getattr(c0, "copy"), []))):
                    w = "%s%s,%s if %s: " % (tag, t.plane, f.plane, truth)
                    ctx.prove(w + "is a controlled measurement", isinstance(c, Obj) and c.cls is c0.cls)
                    ctx.prove(w + "trainable", Iff(it.truth(it.call(it.getattr(c, "is_trainable"), [])), any_tr))
                    ctx.prove(w + "plane", it.eq(it.call(it.getattr(c, "plane"), [X]), sel.plane))
                    same_angle(it, w + "angle", it.call(it.getattr(c, "angle"), [X]), sel.angle)
                    op = sel.op(it, sup)
                    prove_eq(it, w + "matrix", it.call(it.getattr(c, "matrix"), [sup, X]), op)
                    povm = it.call(it.getattr(c, "get_povm"), [sup, X])
                    half = lambda s: ops.arr_binop(ctx, "/", ops.arr_binop(ctx, s, LIB["numpy.eye"].fn(it, [2], {}), op), 2)
                    prove_eq(it, w + "effect 0", povm[0], half("+"))
                    prove_eq(it, w + "effect 1", povm[1], half("-"))
                    if sel.trainable:
                        must_raise(it, w + "missing angle rejected", lambda: it.call(it.getattr(c, "matrix"), [None, X]), ("ValueError", "TypeError"))
                    if not any_tr:
                        a = ctx.real("extra")
                        must_raise(it, w + "angle for an untrainable measurement rejected", lambda: it.call(it.getattr(c, "matrix"), [a, X]), "ValueError")
                    if isinstance(cond, bool):
                        same_angle(it, w + "angle without assignment", it.call(it.getattr(c, "angle"), []), sel.angle)

    return unit


def t_condition(it):
    ctx = it.ctx
    c = it.call(it.fn(C + "ControlMent"), [True, None, "XY", 0, "X"])
    for bad in (ctx.int("k"), ctx.real("r"), "yes", None, VList([True]), HostFn(lambda it_, a, k: True)):
        must_raise(it, "condition of another type rejected", lambda: it.setattr(c, "condition", bad), "TypeError")
    for v in (True, False):
        it.setattr(c, "condition", v)
        ctx.prove("boolean condition", Iff(it.truth(it.call(it.getattr(c, "condition"), [X])), v))
    for raw in (True, False, 1, 0):
        o = it.call(it.fn(M + "MentOutcome"), [HostFn(lambda it_, a, k: raw)], {"cond_nodes": VSet()})
        it.setattr(c, "condition", o)
        ctx.prove("outcome condition", Iff(it.truth(it.call(it.getattr(c, "condition"), [X])), bool(raw)))




F = [C + "ControlMent." + x for x in ("__init__", "condition", "angle", "plane", "is_trainable", "copy", "matrix", "get_povm")]
UNITS = [Unit("C15.true branch %s%s" % (p, "" if f else " trainable"), t_branches(p, f), F) for p, f in BR] + [Unit("C15.condition", t_condition, [C + "ControlMent.condition"])]
