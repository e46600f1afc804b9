"""galois: the field GF(2); its arrays are integer arrays with entries 0/1 and arithmetic mod 2"""
import z3

from . import ops
from .core import *
from .interp import *
from .interp import LIB
from .lib_numpy import arr
from .ops import pyraise


class GF2:
    def __pyvc_call__(self, it, a, k):
        v = arr(it, a[0])
        ctx = it.ctx
        f = v.snap()
        if v.dtype == "gf2":
            return SArr(v.shape, f, "gf2")
        if v.dtype not in ("i", "b"):
            pyraise("TypeError", "GF arrays need integer data")
        if v.dtype == "b":
            return SArr(v.shape, lambda *i: zint(f(*i)), "gf2")
        idx = [ctx.int("gf%d" % d) for d in range(v.ndim)]
        r = z3.And(*[z(c) for c in [And(i >= 0, i < z(n)) for i, n in zip(idx, v.shape)]]) if idx else z3.BoolVal(True)
        e = z(zint(f(*idx)))
        ok = z3.Or(e == 0, e == 1)
        if not ctx.valid(z3.Implies(r, ok)):
            qs = [z3.Int(ctx.uid("gfq")) for _ in idx]
            if not ctx.branch(z3.ForAll(qs, z3.substitute(z3.Implies(r, ok), *zip(idx, qs))) if qs else ok):
                pyraise("ValueError", "GF(2) elements must be 0 or 1")
        return SArr(v.shape, f, "gf2")

    def __pyvc_getattr__(self, it, name):
        if name in ("Zeros", "Ones"):
            val = 0 if name == "Zeros" else 1

            def mk(it_, a, k):
                sh = a[0] if isinstance(a[0], tuple) else (a[0],)
                return SArr(tuple(sh), lambda *i: val, "gf2")

            return Builtin("GF." + name, mk)
        if name == "Identity":
            return Builtin("GF.Identity", lambda it_, a, k: SArr((a[0], a[0]), lambda i, j: ite(z(i) == z(j), 1, 0), "gf2"))
        raise Unsupported("GF." + name)


GF = GF2()


def _gf(it, a, k):
    if a != [2] and tuple(a) != (2,):
        raise Unsupported("field other than GF(2)")
    return GF


LIB["galois.GF"] = Builtin("galois.GF", _gf)
