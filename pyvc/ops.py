"""arithmetic, comparison and broadcasting on values"""
from fractions import Fraction

import z3

from .core import *
from .core import _DT


class Exc:  # builtin exception classes
    def __init__(self, name, base=None):
        self.name = name
        self.base = base

    def __repr__(self):
        return self.name

    def subclass_of(self, other):
        c = self
        while c is not None:
            if c is other:
                return True
            c = c.base
        return False


E = {}
for nm, b in [
    ("BaseException", None), ("Exception", "BaseException"), ("ArithmeticError", "Exception"), ("ZeroDivisionError", "ArithmeticError"),
    ("LookupError", "Exception"), ("KeyError", "LookupError"), ("IndexError", "LookupError"), ("ValueError", "Exception"), ("TypeError", "Exception"),
    ("AttributeError", "Exception"), ("NameError", "Exception"), ("RuntimeError", "Exception"), ("NotImplementedError", "RuntimeError"),
    ("AssertionError", "Exception"), ("StopIteration", "Exception"), ("RecursionError", "RuntimeError"), ("Warning", "Exception"), ("UserWarning", "Warning"),
    ("DeprecationWarning", "Warning"), ("UnboundLocalError", "NameError"), ("AxisError", "ValueError"),
]:
    E[nm] = Exc(nm, E.get(b))


def pyraise(name, *args):
    raise PyExc(E[name], args)


# ------------------------------------------------------------- scalars


def num2(a, b):
    """coerce two real scalars to a common python/z3 kind"""
    a, b = zint(a), zint(b)
    if is_float(a) and not is_float(b):
        b = zreal(b)
    elif is_float(b) and not is_float(a):
        a = zreal(a)
    return a, b


def _z2(a, b):
    a, b = num2(a, b)
    return z(a), z(b)


def add(ctx, a, b):
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = to_cx(a), to_cx(b)
        return Cx(add(ctx, a.re, b.re), add(ctx, a.im, b.im))
    a, b = num2(a, b)
    if not is_z3(a) and not is_z3(b):
        return a + b
    if not is_z3(a) and a == 0:
        return b
    if not is_z3(b) and b == 0:
        return a
    return z(a) + z(b)


def neg(ctx, a):
    if isinstance(a, Cx):
        return Cx(neg(ctx, a.re), neg(ctx, a.im))
    a = zint(a)
    return -a


def sub(ctx, a, b):
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = to_cx(a), to_cx(b)
        return Cx(sub(ctx, a.re, b.re), sub(ctx, a.im, b.im))
    a, b = num2(a, b)
    if not is_z3(a) and not is_z3(b):
        return a - b
    if not is_z3(b) and b == 0:
        return a
    return z(a) - z(b)


def mul(ctx, a, b):
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = to_cx(a), to_cx(b)
        return Cx(sub(ctx, mul(ctx, a.re, b.re), mul(ctx, a.im, b.im)), add(ctx, mul(ctx, a.re, b.im), mul(ctx, a.im, b.re)))
    a, b = num2(a, b)
    if not is_z3(a) and not is_z3(b):
        return a * b
    for x, y in ((a, b), (b, a)):
        if not is_z3(x):
            if x == 0:
                return Fraction(0) if is_float(y) else 0
            if x == 1:
                return y
    return z(a) * z(b)


def truediv(ctx, a, b):
    if isinstance(b, Cx):
        raise Unsupported("division by a complex number")
    if isinstance(a, Cx):
        return Cx(truediv(ctx, a.re, b), truediv(ctx, a.im, b))
    a, b = zreal(a), zreal(b)
    if not is_z3(b):
        if b == 0:
            pyraise("ZeroDivisionError", "division by zero")
        if not is_z3(a):
            return a / b
        if b == 1:
            return a
        return a / z(b)
    if ctx.branch(z(b) == 0):
        pyraise("ZeroDivisionError", "division by zero")
    if not is_z3(a) and a == 0:
        return Fraction(0)
    return z(a) / b


def truediv_total(ctx, a, b):
    """numpy division: division by zero is outside the domain (recorded as obligation)"""
    if isinstance(a, Cx):
        return Cx(truediv_total(ctx, a.re, b), truediv_total(ctx, a.im, b))
    if isinstance(b, Cx):
        raise Unsupported("division by a complex number")
    a, b = zreal(a), zreal(b)
    if not is_z3(b):
        if b == 0:
            raise Unsupported("numpy division by the constant 0")
        return a / b if not is_z3(a) else a / z(b)
    ctx.prove("divisor-nonzero", z(b) != 0)
    if ctx.quickly_valid(z(b) == 1):
        return a
    return z(a) / b


def floordivmod(ctx, a, b):
    a, b = num2(a, b)
    if not is_z3(b):
        if b == 0:
            pyraise("ZeroDivisionError", "modulo by zero")
        if not is_z3(a):
            return a // b, a % b
    else:
        if ctx.branch(z(b) == 0):
            pyraise("ZeroDivisionError", "modulo by zero")
    if is_float(a) or is_float(b):
        q = z3.ToReal(z3.ToInt(z(a) / z(b)))
        return q, z(a) - z(b) * q
    pos = b > 0
    if pos is False or (is_z3(pos) and not ctx.branch(pos)):
        na, nb = neg(ctx, a), neg(ctx, b)
        return z(na) / z(nb), -(z(na) % z(nb))
    return z(a) / z(b), z(a) % z(b)


def pow2(ctx, n):
    """2**n for integer n >= 0"""
    if not is_z3(n):
        if n >= 0:
            return 2**n
        return Fraction(2) ** n
    n = z3.simplify(n)
    if z3.is_int_value(n):
        return pow2(ctx, n.as_long())
    P = z3.Function("pow2", z3.IntSort(), z3.IntSort())
    # normal form: split an integer offset  pow2(m + c) = 2^c pow2(m)
    c = 0
    m = n
    if z3.is_add(n):
        nums = [x for x in n.children() if z3.is_int_value(x)]
        if nums:
            c = nums[0].as_long()
            rest = [x for x in n.children() if not z3.is_int_value(x)]
            m = rest[0] if len(rest) == 1 else z3.Sum(rest)
    t = P(m)
    ctx.once(("pow2", t.get_id()), lambda: [z3.Implies(m >= 0, t >= 1), z3.Implies(m >= 1, t >= 2), z3.Implies(m == 0, t == 1), z3.Implies(m >= 1, t % 2 == 0)])
    ctx.cache.setdefault("pow2terms", {})[t.get_id()] = (t, m)
    if c == 0:
        return t
    if c > 0 and not ctx.feasible(m < 0):
        return t * (2**c)
    t2 = P(n)
    ctx.once(("pow2", t2.get_id()), lambda: [z3.Implies(n >= 0, t2 >= 1), z3.Implies(n == 0, t2 == 1), z3.Implies(n >= 0, t == t2 * 2 ** (-c)) if c < 0 else z3.Implies(m >= 0, t2 == t * 2**c)])
    ctx.cache["pow2terms"][t2.get_id()] = (t2, n)
    return t2


def power(ctx, a, b):
    if isinstance(a, Cx):
        if isinstance(b, int) and 0 <= b <= 4:
            out = 1
            for _ in range(b):
                out = mul(ctx, out, a)
            return out
        raise Unsupported("complex power")
    a, b = zint(a), zint(b)
    if is_z3(b) and z3.is_int_value(z3.simplify(b)):
        b = z3.simplify(b).as_long()
    if not is_z3(b):
        if isinstance(b, Fraction) and b.denominator == 1:
            b = int(b)
            a = zreal(a)
        if not is_z3(a) and isinstance(b, int):
            if a == 0 and b < 0:
                pyraise("ZeroDivisionError")
            if b < 0:
                return Fraction(a) ** b
            return a**b
        if isinstance(b, int) and 0 <= b <= 6:
            out = 1
            for _ in range(b):
                out = mul(ctx, out, a)
            return out
        if b == Fraction(1, 2):
            return sqrt(ctx, a)
    if not is_z3(a) and a == 2 and is_sym_num(b) and b.is_int():
        return pow2(ctx, b)
    if not is_z3(a) and a in (0, 1) and is_sym_num(b) and b.is_int():
        if a == 1:
            return 1 if isinstance(a, int) else Fraction(1)
        if ctx.branch(b < 0):
            pyraise("ZeroDivisionError")
        return z3.If(b == 0, z3.IntVal(1), z3.IntVal(0))
    # general power: uninterpreted, over reals
    P = z3.Function("pow_", z3.RealSort(), z3.RealSort(), z3.RealSort())
    ctx.trust("x ** y for symbolic y: uninterpreted function (0 <= x < 1, y >= 1 imply 0 <= x**y < 1)")
    x, y = z(zreal(a)), z(zreal(b))
    t = P(x, y)
    ctx.once(("pow_", t.get_id()), lambda: [z3.Implies(z3.And(x >= 0, x < 1, y >= 1), z3.And(t >= 0, t < 1))])
    return t


def sqrt(ctx, a):
    if isinstance(a, Cx):
        raise Unsupported("sqrt of complex")
    a = zreal(a)
    if not is_z3(a):
        r = Fraction(a)
        import math

        if r >= 0:
            n, d = math.isqrt(r.numerator), math.isqrt(r.denominator)
            if n * n == r.numerator and d * d == r.denominator:
                return Fraction(n, d)
    S = z3.Function("sqrt_", z3.RealSort(), z3.RealSort())
    x = z(a)
    t = S(x)
    ctx.once(("sqrt", t.get_id()), lambda: [z3.Implies(x >= 0, z3.And(t >= 0, t * t == x)), z3.Implies(x > 0, t > 0)])
    ctx.trust("np.sqrt: non-negative root of a non-negative real")
    return t


_sin = z3.Function("sin_", z3.RealSort(), z3.RealSort())
_cos = z3.Function("cos_", z3.RealSort(), z3.RealSort())


def trig(ctx, a):
    """(cos a, sin a) of a real"""
    a = zreal(a)
    if not is_z3(a):
        if a == 0:
            return Fraction(1), Fraction(0)
    x = z(a)
    c, s = _cos(x), _sin(x)
    ctx.once(("trig", c.get_id()), lambda: [c * c + s * s == 1, c <= 1, c >= -1, s <= 1, s >= -1])
    ctx.trust("np.cos / np.sin: real functions with cos^2+sin^2=1 (and the addition laws where a lemma names them)")
    return c, s


def bxor(ctx, a, b):
    a, b = zint(a), zint(b)
    if not is_z3(a) and not is_z3(b):
        return a ^ b
    X = z3.Function("bxor", z3.IntSort(), z3.IntSort(), z3.IntSort())
    a, b = z(a), z(b)
    t = X(a, b)
    bit = lambda v: z3.Or(v == 0, v == 1)
    ctx.once(
        ("bxor", t.get_id()),
        lambda: [(t - a - b) % 2 == 0, z3.Implies(z3.And(a >= 0, b >= 0), t >= 0), z3.Implies(z3.And(bit(a), bit(b)), z3.And(bit(t), t == z3.If(a == b, z3.IntVal(0), z3.IntVal(1))))],
    )
    ctx.trust("integer xor: parity of a^b is the parity of a+b; exact on bits")
    return t


def compare(ctx, op, a, b):
    """scalar comparison, numbers only"""
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = to_cx(a), to_cx(b)
        r = And(compare(ctx, "==", a.re, b.re), compare(ctx, "==", a.im, b.im))
        if op == "==":
            return r
        if op == "!=":
            return Not(r)
        raise Unsupported("ordering of complex numbers")
    if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)) and op in ("==", "!="):
        r = Iff(a, b)
        return r if op == "==" else Not(r)
    a, b = num2(a, b)
    if not is_z3(a) and not is_z3(b):
        return {"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
    a, b = z(a), z(b)
    return {"==": lambda: a == b, "!=": lambda: a != b, "<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b, ">=": lambda: a >= b}[op]()


def scalar_op(ctx, op, a, b, np=False):
    if op == "+":
        return add(ctx, a, b)
    if op == "-":
        return sub(ctx, a, b)
    if op == "*":
        return mul(ctx, a, b)
    if op == "/":
        return truediv_total(ctx, a, b) if np else truediv(ctx, a, b)
    if op == "//":
        return floordivmod(ctx, a, b)[0]
    if op == "%":
        return floordivmod(ctx, a, b)[1]
    if op == "**":
        return power(ctx, a, b)
    if op == "^":
        if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
            return Not(Iff(a, b))
        return bxor(ctx, a, b)
    if op in ("&", "|"):
        if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
            return And(a, b) if op == "&" else Or(a, b)
        if isinstance(a, int) and isinstance(b, int):
            return a & b if op == "&" else a | b
        raise Unsupported("bit operation on symbolic integers")
    raise Unsupported("operator " + op)


# ------------------------------------------------------------- arrays


def dim_eq(ctx, a, b):
    if not is_z3(a) and not is_z3(b):
        return a == b
    a, b = z3.simplify(z(a)), z3.simplify(z(b))
    if a.eq(b):
        return True
    return ctx.branch(a == b)


def broadcast_shape(ctx, s, t):
    n = max(len(s), len(t))
    s = (None,) * (n - len(s)) + tuple(s)
    t = (None,) * (n - len(t)) + tuple(t)
    out, ms, mt = [], [], []
    for a, b in zip(s, t):
        if a is None:
            out.append(b), ms.append("skip"), mt.append("id")
        elif b is None:
            out.append(a), ms.append("id"), mt.append("skip")
        elif not is_z3(a) and a == 1 and not (not is_z3(b) and b == 1):
            out.append(b), ms.append("zero"), mt.append("id")
        elif not is_z3(b) and b == 1 and not (not is_z3(a) and a == 1):
            out.append(a), ms.append("id"), mt.append("zero")
        elif dim_eq(ctx, a, b):
            out.append(a), ms.append("id"), mt.append("id")
        else:
            # numpy would raise unless one of them is 1
            if ctx.branch(z(a) == 1):
                out.append(b), ms.append("zero"), mt.append("id")
            elif ctx.branch(z(b) == 1):
                out.append(a), ms.append("id"), mt.append("zero")
            else:
                pyraise("ValueError", "operands could not be broadcast together")

    def proj(m):
        def f(*idx):
            return tuple(0 if k == "zero" else i for i, k in zip(idx, m) if k != "skip")

        return f

    return tuple(out), proj(ms), proj(mt)


def dtype_of(v):
    if isinstance(v, SArr):
        return v.dtype
    if isinstance(v, (bool, z3.BoolRef)):
        return "b"
    if isinstance(v, Cx):
        return "c"
    if is_float(v):
        return "f"
    if is_int(v):
        return "i"
    return "O"


def as_entry(v, dtype):
    """value stored into an array of the given dtype"""
    if dtype == "f":
        if isinstance(v, Cx):
            return zreal(v.re)
        return zreal(v)
    if dtype in ("i", "gf2"):
        v = zint(v)
        if is_float(v):
            if not is_z3(v):
                return int(v)
            # numpy truncates towards zero
            return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
        return v
    if dtype == "b":
        if isinstance(v, (bool, z3.BoolRef)):
            return v
        v = zint(v)
        return (v != 0) if not is_z3(v) else v != 0
    return v


def gf_elem(ctx, v):
    if not is_z3(v):
        return v % 2
    return z3.simplify(v) % 2


def arr_binop(ctx, op, a, b):
    gf = dtype_of(a) == "gf2" or dtype_of(b) == "gf2"
    sa = a.shape if isinstance(a, SArr) else ()
    sb = b.shape if isinstance(b, SArr) else ()
    shape, pa, pb = broadcast_shape(ctx, sa, sb)
    fa = a.snap() if isinstance(a, SArr) else (lambda *i: a)
    fb = b.snap() if isinstance(b, SArr) else (lambda *i: b)
    cmpop = op in ("==", "!=", "<", "<=", ">", ">=")
    da, db = dtype_of(a), dtype_of(b)
    if gf and not cmpop:
        for d, f, pf in ((da, fa, pa), (db, fb, pb)):
            if d == "gf2":
                continue
            if d != "i":
                pyraise("TypeError", "GF(2) operand of dtype " + d)
            # galois raises on elements outside the field
            idx = [ctx.int("gfo") for _ in shape]
            v = z(zint(f(*pf(*idx))))
            ctx.prove("GF(2) operand in the field", Implies(And(*[And(i >= 0, i < z(n)) for i, n in zip(idx, shape)]), And(v >= 0, v <= 1)), assume=False)
        if op in ("+", "-", "^"):
            return SArr(shape, lambda *i: (z(zint(fa(*pa(*i)))) + z(zint(fb(*pb(*i))))) % 2, "gf2")
        if op == "*":
            return SArr(shape, lambda *i: mul(ctx, fa(*pa(*i)), fb(*pb(*i))), "gf2")
        raise Unsupported("GF(2) operator " + op)
    dt = "b" if cmpop else join_dtype(da, db)
    if dt == "b" and op in ("+", "*", "&", "|", "^") and not cmpop:
        if op in ("+", "|"):
            return SArr(shape, lambda *i: Or(fa(*pa(*i)), fb(*pb(*i))), "b")
        if op in ("*", "&"):
            return SArr(shape, lambda *i: And(fa(*pa(*i)), fb(*pb(*i))), "b")
    if dt == "b" and not cmpop and op != "^":
        dt = "i"
    if op == "/" and dt in ("i", "b"):
        dt = "f"
    if op == "**" and is_float(b):
        dt = "f"
    if dt == "O":
        raise Unsupported("object array arithmetic")
    if op in ("/", "//", "%"):
        # divisor must be non zero everywhere: checked once for a generic entry
        if isinstance(b, SArr):
            idx = [ctx.int("d") for _ in shape]
            rng = And(*[And(i >= 0, i < z(n)) for i, n in zip(idx, shape)])
            bv = fb(*pb(*idx))
            nz = compare(ctx, "!=", bv, 0)
            ctx.prove("divisor-nonzero", Implies(rng, nz))
            # total version
            if op == "/":
                return SArr(shape, lambda *i: _div(fa(*pa(*i)), fb(*pb(*i))), dt)
            raise Unsupported("elementwise // or % by an array")
        if not is_z3(b) and not isinstance(b, Cx) and b == 0:
            raise Unsupported("division of an array by 0")
        if is_z3(b):
            ctx.prove("divisor-nonzero", z(zint(b)) != 0)
            if op == "/":
                return SArr(shape, lambda *i: _div(fa(*pa(*i)), b), dt)

    def f(*i):
        x, y = fa(*pa(*i)), fb(*pb(*i))
        if cmpop:
            return compare(ctx, op, x, y)
        return scalar_op(ctx, op, x, y, np=True)

    return SArr(shape, f, dt)


def _div(a, b):
    if isinstance(b, Cx):
        raise Unsupported("division by complex")
    if isinstance(a, Cx):
        return Cx(_div(a.re, b), _div(a.im, b))
    a, b = zreal(a), zreal(b)
    if not is_z3(a) and not is_z3(b):
        return a / b
    return z(a) / z(b)


def arr_map(ctx, a, fn, dtype=None):
    f = a.snap()
    return SArr(a.shape, lambda *i: fn(f(*i)), dtype or a.dtype)


def conj(v):
    if isinstance(v, Cx):
        return Cx(v.re, -v.im if not (not is_z3(v.im) and v.im == 0) else v.im)
    return v


def selector(a):
    """('row', g): entry (i,j) is 1 for i == g(j) and 0 otherwise; ('col', g): for j == g(i).
    Set (after proof) by an annotation, void once the array is written"""
    if a.base is not None:
        s = selector(a.base)
        if s is None:
            return None
        ax = getattr(a, "axes", None)
        if ax == [0, 1]:
            return s
        if ax == [1, 0]:
            return ("col" if s[0] == "row" else "row"), s[1]
        return None
    s = getattr(a, "sel", None)
    return s[:2] if s is not None and s[2] is a._f else None


def keep_selector(a, out):
    s = selector(a)
    if s is not None:
        out.sel = s + (out._f,)


def matmul(ctx, a, b):
    if a.ndim == 0 or b.ndim == 0:
        pyraise("ValueError", "matmul: scalar operand")
    inner_a = a.shape[-1]
    inner_b = b.shape[0] if b.ndim == 1 else b.shape[-2]
    if not dim_eq(ctx, inner_a, inner_b):
        pyraise("ValueError", "matmul: dimension mismatch")
    fa, fb = a.snap(), b.snap()
    dt = join_dtype(a.dtype, b.dtype)
    gf = "gf2" in (a.dtype, b.dtype)

    def dot(ga, gb):
        s = ctx.sum(inner_a, lambda k: mul(ctx, ga(k), gb(k)))
        if gf:
            return z(zint(s)) % 2
        return s

    if gf:
        dt = "gf2"
    if a.ndim == 1 and b.ndim == 1:
        return dot(fa, fb)
    if a.ndim == 2 and b.ndim == 1:
        return SArr((a.shape[0],), lambda i: dot(lambda k: fa(i, k), fb), dt)
    if a.ndim == 1 and b.ndim == 2:
        return SArr((b.shape[1],), lambda j: dot(fa, lambda k: fb(k, j)), dt)
    if a.ndim == 2 and b.ndim == 2:
        sa, sb = selector(a), selector(b)
        if sb is not None and sb[0] == "row":
            ctx.trust("sum lemma: a finite sum with at most one non-zero term is that term (induction over the partial sums)")
            return SArr((a.shape[0], b.shape[1]), lambda i, j: fa(i, sb[1](j)), dt)
        if sa is not None and sa[0] == "col":
            ctx.trust("sum lemma: a finite sum with at most one non-zero term is that term (induction over the partial sums)")
            return SArr((a.shape[0], b.shape[1]), lambda i, j: fb(sa[1](i), j), dt)
        return SArr((a.shape[0], b.shape[1]), lambda i, j: dot(lambda k: fa(i, k), lambda k: fb(k, j)), dt)
    raise Unsupported("matmul of higher dimensional arrays")


def dims_div(ctx, i, n):
    """index split for products of dimensions"""
    if not is_z3(i) and not is_z3(n):
        return i // n, i % n
    return z(i) / z(n), z(i) % z(n)


def kron(ctx, a, b):
    if not isinstance(a, SArr):
        return arr_binop(ctx, "*", a, b)
    if not isinstance(b, SArr):
        return arr_binop(ctx, "*", a, b)
    fa, fb = a.snap(), b.snap()
    n = max(a.ndim, b.ndim)
    sa = (1,) * (n - a.ndim) + a.shape
    sb = (1,) * (n - b.ndim) + b.shape
    pa = n - a.ndim
    pb = n - b.ndim
    shape = tuple(mul(ctx, x, y) for x, y in zip(sa, sb))

    def f(*idx):
        qa, qb = [], []
        for i, d in zip(idx, sb):
            if not is_z3(d) and d == 1:
                qa.append(i), qb.append(0)
            else:
                x, y = dims_div(ctx, i, d)
                qa.append(x), qb.append(y)
        return mul(ctx, fa(*qa[pa:]), fb(*qb[pb:]))

    return SArr(shape, f, join_dtype(a.dtype, b.dtype))


def value_eq(ctx, a, b):
    """Python == as a condition (structural)"""
    if a is b and not isinstance(a, SArr):
        return True
    if a is None or b is None:
        return a is b
    if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if isinstance(a, str) and a not in b.domain or isinstance(b, str) and b not in a.domain:
            return False
        return z(a) == z(b)
    if is_num(a) and is_num(b):
        return compare(ctx, "==", a, b)
    if is_z3(a) and is_z3(b):
        if a.sort() == b.sort():
            return a == b
        return False
    if isinstance(a, (str, SStr)) != isinstance(b, (str, SStr)):
        return False
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return And(*[value_eq(ctx, x, y) for x, y in zip(a, b)])
    if isinstance(a, VList) and isinstance(b, VList):
        if len(a) != len(b):
            return False
        return And(*[value_eq(ctx, x, y) for x, y in zip(a, b)])
    if isinstance(a, (SSeq, VList)) and isinstance(b, (SSeq, VList)):
        return seq_eq(ctx, a, b)
    if isinstance(a, (SSeq, VList)) or isinstance(b, (SSeq, VList)):
        return False
    if is_num(a) != is_num(b):
        return False
    if isinstance(a, VSet) and isinstance(b, VSet):
        return set(a) == set(b)
    if isinstance(a, (VSet, SSet)) and isinstance(b, (VSet, SSet)):
        x = z3.Int("el!eq")
        ma = a.mem if isinstance(a, SSet) else (lambda t: Or(*[t == z(e) for e in a]))
        mb = b.mem if isinstance(b, SSet) else (lambda t: Or(*[t == z(e) for e in b]))
        return z3.ForAll([x], z(Iff(ma(x), mb(x))))
    if isinstance(a, VDict) and isinstance(b, VDict):
        if set(a) != set(b):
            return False
        return And(*[value_eq(ctx, a[k], b[k]) for k in a])
    if hasattr(a, "cls") or hasattr(b, "cls"):
        return a is b
    raise Unsupported("== on %r and %r" % (a, b))


def seq_len(v):
    return v.n if isinstance(v, SSeq) else len(v)


def seq_get(v, i):
    """element of a list-like for an arbitrary (in range) index term"""
    if isinstance(v, SSeq):
        return v.f(i)
    if not is_z3(i):
        return v[i]
    if not v:
        raise Unsupported("index into an empty list")
    out = v[-1]
    for k in range(len(v) - 2, -1, -1):
        out = ite(z(i) == k, v[k], out)
    return out


def seq_eq(ctx, a, b):
    n, m = seq_len(a), seq_len(b)
    i = z3.Int(ctx.uid("i_eq"))
    body = value_eq(ctx, seq_get(a, i), seq_get(b, i)) if not (n == 0 if not is_z3(n) else False) and not (m == 0 if not is_z3(m) else False) else True
    return And(z(n) == z(m), z3.ForAll([i], z(Implies(And(i >= 0, i < z(n)), body))))
