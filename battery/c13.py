from util import *
import warnings
from mentpy.operators import Ment

PL = ["XY", "XZ", "YZ", "XYZ", "X", "Y", "Z"]


def doc(plane, a):
    if plane in "XYZ" and len(plane) == 1:
        return PAULI[plane]
    if plane == "XYZ":
        return np.cos(a[0]) * np.cos(a[1]) * X + np.sin(a[0]) * np.cos(a[1]) * Y + np.sin(a[1]) * Z
    p, q = PAULI[plane[0]], PAULI[plane[1]]
    return np.cos(a) * p + np.sin(a) * q


def rang(rng, plane):
    one = lambda: rng.choice([0.0, 0, 1, -2, math.pi, -math.pi / 2, 2 * math.pi, rng.uniform(-10, 10), rng.uniform(-10, 10), 1e-3])
    return (one(), one()) if plane == "XYZ" else one()


def operators(rng, idx):
    plane = PL[idx % 7]
    spell = plane if rng.random() < 0.7 else plane.lower()
    a = rang(rng, plane)
    pauli = len(plane) == 1
    if pauli:
        a = 0
    fixed = pauli or rng.random() < 0.5
    if fixed:
        m = rng.choice([lambda: Ment(a, spell), lambda: Ment(spell, a), lambda: Ment(angle=a, plane=spell)])()
        if pauli and rng.random() < 0.5:
            m = Ment(spell)
        args = rng.choice([(), (a,)])
    else:
        m = rng.choice([lambda: Ment(plane=spell), lambda: Ment(spell), lambda: Ment(None, spell)])()
        args = (a,)
    need(m.plane == plane, "plane %s of %s", m.plane, plane)
    need(m.is_trainable() == (not fixed), "trainable %s", plane)
    need((m.angle is None) == (not fixed), "angle")
    for mm in (m, m.copy()):
        need(mm.is_trainable() == (not fixed) and mm.plane == plane, "copy")
        mat = mm.matrix(*args)
        close(mat, doc(plane, a), "matrix of %s at %s" % (plane, a))
        m0, m1 = mm.get_povm(*args)
        close(m0, (np.eye(2) + doc(plane, a)) / 2, "effect 0 of %s at %s" % (plane, a))
        close(m1, (np.eye(2) - doc(plane, a)) / 2, "effect 1 of %s at %s" % (plane, a))


def rules(rng, idx):
    plane = PL[idx % 7]
    a = rang(rng, plane)
    if len(plane) > 1:
        b = rang(rng, plane)
        if a != b:
            need(raises(lambda: Ment(a, plane).matrix(b)), "fixed angle %s of %s overridden by %s", a, plane, b)
            need(raises(lambda: Ment(a, plane).get_povm(b)), "fixed angle %s of %s overridden by %s", a, plane, b)
        need(raises(lambda: Ment(plane=plane).matrix()), "missing angle accepted")
        need(raises(lambda: Ment(plane=plane).get_povm()), "missing angle accepted")
        need(not Ment(a, plane).is_trainable() and Ment(plane=plane).is_trainable(), "trainable")
    else:
        b = rng.choice([1, 0.5, math.pi, -1e-9])
        need(raises(lambda: Ment(b, plane), ValueError), "angle on %s accepted", plane)
        need(raises(lambda: Ment(plane).matrix(b)), "override of %s accepted", plane)
    bad = rng.choice(["", "W", "YX", "ZX", "XX", "XYZX", "X Y", "ZY", "XYZZ", "ZYX", "I"])
    need(raises(lambda: Ment(plane=bad), ValueError), "plane %r accepted", bad)
    need(raises(lambda: Ment(0.3, bad), ValueError), "plane %r accepted", bad)
    need(raises(lambda: Ment(bad), ValueError), "plane %r accepted", bad)
    need(raises(lambda: Ment([0.1], "XY")), "list angle accepted")


CASES = cases(operators, rules)
