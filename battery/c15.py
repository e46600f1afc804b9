from util import *
from mentpy.operators import Ment, ControlMent
from mentpy.operators.ment import MentOutcome

PL = ["XY", "XZ", "YZ", "X", "Y", "Z"]


def branch(rng):
    p = rng.choice(PL)
    a = None if rng.random() < 0.5 else rng.choice([0.0, 0.7, -1.3, math.pi, 2])
    if len(p) == 1:
        a = None if rng.random() < 0.5 else 0
    return a, p


def mk(node):
    m = Ment(0.1, "XY")
    m.node_id = node
    return m.outcome


def doc(p, a):
    if len(p) == 1:
        return PAULI[p]
    return np.cos(a) * PAULI[p[0]] + np.sin(a) * PAULI[p[1]]


def selected(rng, idx):
    (ta, tp), (fa, fp) = branch(rng), branch(rng)
    kind = idx % 3
    if kind == 0:
        v = bool(rng.getrandbits(1))
        cond, truth = v, lambda x: v
    elif kind == 1:
        cond, truth = mk(0), lambda x: bool(x[0])
    else:
        cond, truth = (mk(0) ^ mk(1)), lambda x: bool(x[0]) != bool(x[1])
    c = ControlMent(cond, ta, tp, fa, fp)
    ttr = len(tp) > 1 and ta is None
    ftr = len(fp) > 1 and fa is None
    txt = "ControlMent(cond%d, %s, %s, %s, %s)" % (kind, ta, tp, fa, fp)
    ang = rng.choice([0.0, 0.4, -2.1, 1])
    for cc in (c, c.copy(), c.copy().copy()):
        need(cc is not c or True)
        need(bool(cc.is_trainable()) == (ttr or ftr), "trainability of %s", txt)
        need(isinstance(cc, ControlMent), "copy of %s", txt)
        for x in ({0: 0, 1: 0}, {0: 1, 1: 0}, {0: 0, 1: 1}, {0: 1, 1: 1}, {0: True, 1: False}):
            t = truth(x)
            a, p, tr = (ta, tp, ttr) if t else (fa, fp, ftr)
            eff = ang if tr else (a if len(p) > 1 else 0)
            need(cc.plane(x) == p, "plane of %s at %s", txt, x)
            got = cc.angle(x)
            expa = None if tr else (a if len(p) > 1 else 0)
            need((got is None) == (expa is None) and (got is None or got == expa), "angle of %s at %s: %s expected %s", txt, x, got, expa)
            if ttr or ftr:
                close(cc.matrix(ang, x), doc(p, eff), "matrix of %s at %s with %s" % (txt, x, ang))
                m0, m1 = cc.get_povm(ang, x)
            else:
                need(raises(lambda: cc.matrix(ang + 5, x)), "angle for untrainable %s accepted", txt)
                close(cc.matrix(None, x), doc(p, eff), "matrix of %s at %s" % (txt, x))
                m0, m1 = cc.get_povm(None, x)
            close(m0, (np.eye(2) + doc(p, eff)) / 2, "effect 0 of %s" % txt)
            close(m1, (np.eye(2) - doc(p, eff)) / 2, "effect 1 of %s" % txt)
            if tr:
                need(raises(lambda: cc.matrix(None, x)), "missing angle of %s accepted at %s", txt, x)


def assignment(rng, idx):
    c = ControlMent(True, *branch(rng), *branch(rng))
    for bad in (1, 0, "a", None, lambda x: True, 1.5, [True]):
        need(raises(lambda: setattr(c, "condition", bad), TypeError), "condition %r accepted", bad)
    for v in (True, False):
        c.condition = v
        need(bool(c.condition({})) == v, "condition value")
    c.condition = mk(2)
    need(bool(c.condition({2: 1})) and not bool(c.condition({2: 0})), "condition outcome")


CASES = cases(selected, assignment)
