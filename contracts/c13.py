"""C13: Ment (mentpy/operators/ment.py)"""
from .common import *

M = "mentpy.operators.ment."
PLANES = ["XY", "XZ", "YZ", "XYZ", "X", "Y", "Z"]
VAR = PLANES[:4]


def combo(it, plane, angle):
    """documented operator: coefficients (x, y, z) of the Pauli matrices"""
    t = lambda a: ops.trig(it.ctx, a)
    m = lambda a, b: ops.mul(it.ctx, a, b)
    if plane in ("X", "Y", "Z"):
        return tuple(1 if p == plane else 0 for p in "XYZ")
    if plane == "XYZ":
        (c1, s1), (c2, s2) = t(angle[0]), t(angle[1])
        return m(c1, c2), m(s1, c2), s2
    c, s = t(angle)
    return {"XY": (c, s, 0), "XZ": (c, 0, s), "YZ": (0, c, s)}[plane]


def operator(it, plane, angle):
    x, y, w = combo(it, plane, angle)
    mn = lambda v: ops.neg(it.ctx, v)
    rows = [[Cx(w, 0), Cx(x, mn(y))], [Cx(x, y), Cx(mn(w), 0)]]
    return SArr((2, 2), lambda i, j: rows[i][j] if not is_z3(i) and not is_z3(j) else ops.seq_get(VList([ops.seq_get(VList(r), j) for r in rows]), i), "c")


def an_angle(it, plane, name="angle"):
    if plane == "XYZ":
        return (it.ctx.real(name + "1"), it.ctx.real(name + "2"))
    return it.ctx.real(name)


def make(it, *a, **k):
    return it.call(it.fn(M + "Ment"), list(a), k)


def t_matrix(plane, fixed):
    def unit(it):
        ctx = it.ctx
        if plane in VAR:
            ang = an_angle(it, plane)
        else:
            ang = None
        if fixed or plane not in VAR:
            m = make(it, ang, plane)
            args = [[], [ang]] if plane in VAR else [[], [0]]
        else:
            m = make(it, None, plane)
            args = [[ang]]
        op = operator(it, plane, ang)
        for a in args:
            mat = it.call(it.getattr(m, "matrix"), a)
            prove_eq(it, "matrix/documented combination", mat, op)
            p = it.call(it.getattr(m, "get_povm"), a)
            ctx.prove("povm/two effects", isinstance(p, tuple) and len(p) == 2)
            half = lambda s: ops.arr_binop(ctx, "/", ops.arr_binop(ctx, s, LIB["numpy.eye"].fn(it, [2], {}), op), 2)
            prove_eq(it, "povm/effect 0 is (1+M)/2", p[0], half("+"))
            prove_eq(it, "povm/effect 1 is (1-M)/2", p[1], half("-"))
        # algebra of the documented operator
        eye = LIB["numpy.eye"].fn(it, [2], {})
        for i in range(2):
            for j in range(2):
                a, b = to_cx(op.get(i, j)), to_cx(op.get(j, i))
                ctx.prove("hermitian[%d%d]" % (i, j), And(compare(ctx, a.re, b.re), compare(ctx, a.im, ops.neg(ctx, b.im))))
        tr = ops.add(ctx, op.get(0, 0), op.get(1, 1))
        prove_eq(it, "traceless", tr, Cx(0, 0))
        prove_eq(it, "squares to identity", ops.matmul(ctx, op, op), eye)
        m0, m1 = p
        zero = SArr((2, 2), lambda i, j: Cx(0, 0), "c")
        prove_eq(it, "effect 0 idempotent", ops.matmul(ctx, m0, m0), m0)
        prove_eq(it, "effect 1 idempotent", ops.matmul(ctx, m1, m1), m1)
        prove_eq(it, "effects orthogonal", ops.matmul(ctx, m0, m1), zero)
        prove_eq(it, "effects complementary", ops.arr_binop(ctx, "+", m0, m1), eye)
        prove_eq(it, "effect 0 is the +1 eigenspace", ops.matmul(ctx, op, m0), m0)

    return unit


def compare(ctx, a, b):
    return ops.compare(ctx, "==", a, b)


def t_angles(it):
    """fixed angles cannot be overridden, missing ones must be supplied"""
    ctx = it.ctx
    for plane in PLANES:
        if plane in VAR:
            must_raise(it, plane + ": missing angle rejected", lambda: it.call(it.getattr(make(it, None, plane), "matrix"), []), ("ValueError", "TypeError"))
            must_raise(it, plane + ": missing angle rejected (povm)", lambda: it.call(it.getattr(make(it, None, plane), "get_povm"), []), ("ValueError", "TypeError"))
        if plane == "XYZ":
            a, b = an_angle(it, plane, "a"), an_angle(it, plane, "b")
            ctx_assume = Or(a[0] != b[0], a[1] != b[1])
        else:
            a, b = ctx.real("a"), ctx.real("b")
            ctx_assume = a != b
        ctx.assume(ctx_assume)
        if plane in VAR:
            m = make(it, a, plane)
            must_raise(it, plane + ": override rejected", lambda: it.call(it.getattr(m, "matrix"), [b]), ("ValueError", "TypeError"))
        else:
            m = make(it, None, plane)
            ctx.assume(b != 0)
            must_raise(it, plane + ": override rejected", lambda: it.call(it.getattr(m, "matrix"), [b]), ("ValueError", "TypeError"))


def t_init(it):
    """constructor: accepted argument forms, normalisation, trainability"""
    ctx = it.ctx
    cls = it.fn(M + "Ment")

    def expect(tag, m, plane, angle):
        ctx.prove(tag + ": plane", it.eq(it.getattr(m, "plane"), plane))
        got = it.getattr(m, "angle")
        if angle is None:
            ctx.prove(tag + ": no angle", got is None)
        else:
            ctx.prove(tag + ": angle", got is not None and it.eq(got, angle))
        tr = it.truth(it.call(it.getattr(m, "is_trainable"), []))
        ctx.prove(tag + ": trainable exactly if variable plane without angle", Iff(tr, plane in VAR and angle is None))

    expect("default", make(it), "XY", None)
    for plane in PLANES:
        for spell in (plane, plane.lower()):
            for kind in ("none", "real", "int"):
                if plane == "XYZ" and kind != "none":
                    ang = an_angle(it, plane)
                else:
                    ang = {"none": None, "real": ctx.real("t"), "int": ctx.int("k")}[kind]
                for form in ("angle,plane", "plane,angle", "kw"):
                    tag = "%s %s %s" % (spell, kind, form)
                    if form == "angle,plane":
                        build = lambda: make(it, ang, spell)
                    elif form == "plane,angle":
                        build = (lambda: make(it, spell, ang)) if ang is not None else (lambda: make(it, spell))
                    else:
                        build = lambda: make(it, plane=spell, angle=ang)
                    if plane in VAR:
                        expect(tag, build(), plane, ang)
                    elif ang is None:
                        expect(tag, build(), plane, 0)
                    elif form == "angle,plane":
                        expect(tag + " zero", make(it, 0 if kind == "int" else Fraction(0), spell), plane, 0)
                        ctx.assume(z(ang) != 0)
                        must_raise(it, tag + ": angle on a fixed Pauli rejected", build, "ValueError")


def t_reject(it):
    ctx = it.ctx
    s = AnyStr(it, "plane")
    for p in PLANES:
        ctx.assume(s.up.code != intern_str(p))
    must_raise(it, "unsupported plane rejected", lambda: make(it, None, s), "ValueError")
    must_raise(it, "unsupported plane rejected (with angle)", lambda: make(it, ctx.real("t"), s), "ValueError")
    must_raise(it, "unsupported plane rejected (first argument)", lambda: make(it, s), "ValueError")
    must_raise(it, "angle of another type rejected", lambda: make(it, VList([1]), "XY"), "TypeError")
    for p in "XYZ":
        t = ctx.real("t")
        ctx.assume(t != 0)
        must_raise(it, "angle on %s rejected" % p, lambda: make(it, t, p), "ValueError")


def t_copy(it):
    ctx = it.ctx
    for plane in PLANES:
        for ang in (None, an_angle(it, plane)) if plane in VAR else (None,):
            m = make(it, ang, plane)
            c = it.call(it.getattr(m, "copy"), [])
            ctx.prove("copy is a new measurement", isinstance(c, Obj) and c is not m and c.cls is m.cls)
            ctx.prove("copy/plane", it.eq(it.getattr(c, "plane"), plane))
            a0, a1 = it.getattr(m, "angle"), it.getattr(c, "angle")
            ctx.prove("copy/angle", it.eq(a0, a1) if a0 is not None else a1 is None)
            ctx.prove("copy/trainable", Iff(it.truth(it.call(it.getattr(m, "is_trainable"), [])), it.truth(it.call(it.getattr(c, "is_trainable"), []))))


F = [M + "Ment." + x for x in ("__init__", "matrix", "get_povm")]
UNITS = [Unit("C13.matrix[%s,%s]" % (p, "fixed" if f else "supplied"), t_matrix(p, f), F) for p in PLANES for f in ((True, False) if p in VAR else (True,))] + [
    Unit("C13.angle-rules", t_angles, [M + "Ment.matrix", M + "Ment.get_povm"]),
    Unit("C13.constructor", t_init, [M + "Ment.__init__", M + "Ment.is_trainable", M + "Ment.plane", M + "Ment.angle"]),
    Unit("C13.rejections", t_reject, [M + "Ment.__init__"]),
    Unit("C13.copy", t_copy, [M + "Ment.copy"]),
]
