"""contracts of numpy used by /repo (arrays are entry closures; see SArr)"""
import z3

from . import ops
from .core import *
from .core import _DT
from .interp import *
from .interp import LIB
from . import lib_py
from .lib_py import intval, norm_index, slice_bounds, mkseq
from .ops import pyraise

PI = z3.Real("pi_")


def pi(it):
    it.ctx.once("pi", lambda: [PI > z3.RealVal("3.14159"), PI < z3.RealVal("3.1416")])
    return PI


class PiConst:
    pass


# ---------------------------------------------------------------- shapes


def shape_of(it, v):
    """tuple from an int / tuple / list argument"""
    if is_num(v):
        return (intval(v),)
    vals = it.iterate(v)
    if vals is None:
        raise Unsupported("array of symbolic rank")
    return tuple(intval(zint(x)) for x in vals)


def dtype_arg(it, v, default="f"):
    if v is None:
        return default
    if isinstance(v, LibType):
        return {"int": "i", "float": "f", "bool": "b", "complex": "c", "object": "O"}.get(v.name.split(".")[-1], None) or _unsup("dtype %s" % v.name)
    if isinstance(v, str):
        return {"int": "i", "float": "f", "bool": "b", "complex": "c", "object": "O", "int8": "i", "int64": "i", "uint8": "i", "float64": "f", "complex128": "c"}.get(v) or _unsup("dtype %s" % v)
    if isinstance(v, LibMod):
        n = v.name.split(".")[-1]
        return dtype_arg(it, n)
    raise Unsupported("dtype %r" % (v,))


def _unsup(m):
    raise Unsupported(m)


def is_arrlike(v):
    return isinstance(v, (SArr, VList, SSeq, tuple))


def to_arr(it, v, dtype=None):
    """np.array(v)"""
    ctx = it.ctx
    if isinstance(v, SArr):
        f = v.snap()
        dt = dtype or v.dtype
        if dt == v.dtype:
            return SArr(v.shape, f, dt)
        return SArr(v.shape, lambda *i: ops.as_entry(f(*i), dt), dt)
    if is_num(v):
        dt = dtype or ops.dtype_of(v)
        return SArr((), lambda: ops.as_entry(v, dt), dt)
    h = getattr(v, "__pyvc_array__", None)
    if h:
        return to_arr(it, h(it), dtype)
    if isinstance(v, Obj):
        s = it.as_seq(v)
        if s is None:
            return SArr((), lambda: v, "O")
        v = s
    if isinstance(v, (VList, tuple, range)):
        if not len(v):
            return SArr((0,), lambda i: Fraction(0), dtype or "f")
        rows = [to_arr(it, x) if not (isinstance(x, SArr)) else to_arr(it, x) for x in v]
        r0 = rows[0]
        for r in rows[1:]:
            if r.ndim != r0.ndim:
                pyraise("ValueError", "inhomogeneous shape")
            for a, b in zip(r.shape, r0.shape):
                if not ops.dim_eq(ctx, a, b):
                    pyraise("ValueError", "inhomogeneous shape")
        dt = rows[0].dtype
        for r in rows[1:]:
            dt = join_dtype(dt, r.dtype)
        dt = dtype or dt
        rs = [r.snap() for r in rows]

        def f(i, *rest):
            if not is_z3(i):
                return ops.as_entry(rs[i](*rest), dt)
            i2 = z3.simplify(i)
            if z3.is_int_value(i2):
                return ops.as_entry(rs[i2.as_long()](*rest), dt)
            out = ops.as_entry(rs[-1](*rest), dt)
            for k in range(len(rs) - 2, -1, -1):
                out = ite(i2 == k, ops.as_entry(rs[k](*rest), dt), out)
            return out

        return SArr((len(rows),) + r0.shape, f, dt)
    if isinstance(v, SSeq):
        s = v.snap()
        if isinstance(s.n, int) or z3.is_int_value(z3.simplify(z(s.n))):
            n = intval(s.n)
            return to_arr(it, VList([s.f(i) for i in range(n)]), dtype)
        # the element kind is probed at a generic index
        q = z3.Int(ctx.uid("q_arr"))
        probe = s.f(q)
        if is_num(probe):
            dt = dtype or ops.dtype_of(probe)
            return SArr((s.n,), lambda i: ops.as_entry(s.f(i), dt), dt)
        if isinstance(probe, (VList, tuple, SSeq, SArr)):
            pa = to_arr(it, probe)
            dt = dtype or pa.dtype
            for d in pa.shape:
                if is_z3(d) and _occ(d, q):
                    raise Unsupported("ragged array")
            return SArr((s.n,) + pa.shape, lambda i, *r: ops.as_entry(to_arr(it, s.f(i)).get(*r), dt), dt)
        raise Unsupported("array of %r" % (probe,))
    raise Unsupported("array from %r" % (v,))


def _occ(e, c):
    from .core import _occurs

    return _occurs(e, c)


# ---------------------------------------------------------------- indexing


def _index_parts(it, a, k):
    """list of per-axis index specs; pads with full slices"""
    ks = list(k) if isinstance(k, tuple) else [k]
    if any(x is Ellipsis for x in ks):
        raise Unsupported("ellipsis index")
    nreal = sum(1 for x in ks if x is not None)
    if nreal > a.ndim:
        pyraise("IndexError", "too many indices for array")
    ks += [PySlice(None, None, None)] * (a.ndim - nreal)
    return ks


def _classify(it, a, k):
    out = []
    ax = 0
    ctx = it.ctx
    for x in _index_parts(it, a, k):
        if x is None:
            out.append(("new",))
            continue
        n = a.shape[ax]
        if isinstance(x, PySlice):
            if x.lo is None and x.hi is None and x.step in (None, 1):
                out.append(("slice", ax, 0, n))
            elif x.step not in (None, 1):
                st = x.step
                if x.lo is None and x.hi is None and st == -1:
                    out.append(("rev", ax, n))
                elif not is_z3(n):
                    r = range(n)[slice(intval(x.lo), intval(x.hi), intval(st))]
                    out.append(("fancy", ax, SArr((len(r),), (lambda r: lambda i: ops.seq_get(VList(r), i))(r), "i"), len(r)))
                elif x.lo in (None, 0) and x.hi is None and not is_z3(st):
                    out.append(("step", ax, st, z3.simplify((z(n) + st - 1) / st)))
                else:
                    raise Unsupported("stepped slice")
            else:
                lo, m = slice_bounds(it, x, n)
                out.append(("slice", ax, lo, m))
        elif isinstance(x, (bool, z3.BoolRef)):
            raise Unsupported("boolean index")
        elif is_int(x):
            out.append(("int", ax, norm_index(it, intval(x), n)))
        elif isinstance(x, SArr) and x.ndim == 0:
            out.append(("int", ax, norm_index(it, intval(x.get()), n)))
        elif isinstance(x, (VList, SSeq, SArr, tuple)):
            arr = to_arr(it, x)
            if arr.ndim != 1:
                raise Unsupported("fancy index of rank %d" % arr.ndim)
            if arr.dtype == "b":
                raise Unsupported("boolean mask index")
            if not is_z3(arr.shape[0]) and arr.shape[0] == 0:
                arr = SArr((0,), lambda i: 0, "i")
            elif arr.dtype not in ("i", "gf2"):
                pyraise("IndexError", "arrays used as indices must be of integer type")
            # bounds for every element
            m = arr.shape[0]
            if not is_z3(m):
                vals = [norm_index(it, intval(arr.get(j)), n) for j in range(m)]
                arr = SArr((m,), (lambda vals: lambda i: ops.seq_get(VList(vals), i) if vals else 0)(vals), "i")
            else:
                g = arr.snap()
                f = ctx.generic(m, lambda q: norm_index(it, g(q), n))
                arr = SArr((m,), f, "i")
            out.append(("fancy", ax, arr, m))
        elif is_float(x):
            pyraise("IndexError", "only integers, slices ... are valid indices")
        else:
            raise Unsupported("array index %r" % (x,))
        ax += 1
    return out


def arr_getitem(it, a, k):
    if isinstance(k, SArr) and k.dtype == "b":
        raise Unsupported("boolean mask index")
    if isinstance(k, IxGrid):
        if a.ndim != 2:
            raise Unsupported("np.ix_ on rank %d" % a.ndim)
        f = a.snap()
        x, y = [_classify(it, SArr((n,), lambda i: 0, "i"), q)[0][2] for q, n in zip(k, a.shape)]
        return SArr((x.shape[0], y.shape[0]), lambda i, j: f(x.get(i), y.get(j)), a.dtype)
    parts = _classify(it, a, k)
    fancy = [p for p in parts if p[0] == "fancy"]
    if len(fancy) > 1:
        raise Unsupported("several fancy indices")
    if fancy and any(p[0] == "int" for p in parts):
        # an integer next to a fancy index broadcasts to it: same result for our uses
        pass
    shape = []
    for p in parts:
        if p[0] == "new":
            shape.append(1)
        elif p[0] in ("slice", "fancy", "step"):
            shape.append(p[3])
        elif p[0] == "rev":
            shape.append(p[2])

    def imap(*idx):
        out = []
        j = 0
        for p in parts:
            if p[0] == "new":
                j += 1
            elif p[0] == "int":
                out.append(p[2])
            elif p[0] == "slice":
                out.append(ops.add(it.ctx, p[2], idx[j]))
                j += 1
            elif p[0] == "step":
                out.append(ops.mul(it.ctx, idx[j], p[2]))
                j += 1
            elif p[0] == "rev":
                out.append(ops.sub(it.ctx, ops.sub(it.ctx, p[2], 1), idx[j]))
                j += 1
            else:
                out.append(p[2].get(idx[j]))
                j += 1
        return tuple(out)

    if not shape:
        v = a.get(*imap())
        if a.dtype == "gf2" and not is_z3(v):
            return v
        return GF2Scalar(v) if False else v
    if fancy:
        f = a.snap()
        return SArr(tuple(shape), lambda *i: f(*imap(*i)), a.dtype)
    return SArr(tuple(shape), None, a.dtype, base=a, imap=imap)


def root_map(a):
    """(root, index map to root, constraint inverter) of a chain of views"""
    maps = []
    while a.base is not None:
        maps.append(a.imap)
        a = a.base

    def m(*idx):
        for f in maps:
            idx = f(*idx)
        return idx

    return a, m


def arr_setitem(it, a, k, v):
    ctx = it.ctx
    it.write_log(a.root())
    if isinstance(k, SArr) and k.dtype == "b":
        mask = k.snap()
        if k.ndim == a.ndim and a.base is None and is_num(v):
            f, dt = a._f, a.dtype
            a._f = lambda *i: ite(mask(*i), ops.as_entry(v, dt), f(*i))
            return
        raise Unsupported("masked assignment")
    parts = _classify(it, a, k)
    if any(p[0] in ("new", "rev", "step") for p in parts):
        raise Unsupported("assignment through this index")
    shape = [p[3] for p in parts if p[0] in ("slice", "fancy")]
    if isinstance(v, (VList, SSeq, tuple)):
        v = to_arr(it, v)
    if isinstance(v, SArr):
        if v.ndim > len(shape):
            # numpy allows leading ones
            lead = v.shape[: v.ndim - len(shape)]
            if not all(not is_z3(d) and d == 1 for d in lead):
                pyraise("ValueError", "could not broadcast input array")
            g0 = v.snap()
            nl = len(lead)
            v = SArr(v.shape[nl:], lambda *i: g0(*([0] * nl), *i), v.dtype)
        out, pv, ps = ops.broadcast_shape(ctx, v.shape, tuple(shape))
        for d, s in zip(out, shape):
            if not ops.dim_eq(ctx, d, s):
                pyraise("ValueError", "could not broadcast input array")
        g = v.snap()
        val = lambda *i: g(*pv(*i))
    elif is_num(v) or a.dtype == "O":
        val = lambda *i: v
    else:
        raise Unsupported("assignment of %r into an array" % (v,))
    if a.dtype in ("i", "gf2", "b") and (ops.dtype_of(v) == "f" if is_num(v) or isinstance(v, SArr) else False):
        if a.dtype == "gf2":
            raise Unsupported("float into GF(2)")
    if a.dtype in ("i", "f", "b") and (is_num(v) or isinstance(v, SArr)) and ops.dtype_of(v) == "c":
        if is_num(v) or True:
            pyraise("TypeError", "complex into real array")
    fancy = [p for p in parts if p[0] == "fancy"]
    if len(fancy) > 1:
        raise Unsupported("several fancy indices")
    dt = a.dtype
    scat = None
    if fancy and is_z3(fancy[0][3]):
        scat = _scatter(it, fancy[0][2], fancy[0][3])
    # the write must be invertible: express as condition on the index of `a`
    def cond_and_src(idx):
        """(condition that a[idx] is written, index into val)"""
        cs, src = [], []
        alts = None
        for p in parts:
            i = idx[p[1]]
            if p[0] == "int":
                cs.append(_ieq(i, p[2]))
            elif p[0] == "slice":
                lo, m = p[2], p[3]
                full = not is_z3(lo) and lo == 0 and _same(m, a.shape[p[1]])
                if not full:
                    cs.append(And(z3.simplify(z(i) >= z(lo)), z3.simplify(z(i) < z(lo) + z(m))) if is_z3(i) or is_z3(lo) or is_z3(m) else (lo <= i < lo + m))
                src.append(ops.sub(ctx, i, lo))
            else:
                if scat is not None:
                    cs.append(scat[0](z(i)))
                    src.append(scat[1](z(i)))
                    continue
                alts = (len(src), [_ieq(i, p[2].get(j)) for j in range(p[3])])
                src.append(None)
        return And(*cs), src, alts

    old = a.snap() if a.base is not None else a._f
    if a.base is not None:
        return _write_view(it, a, parts, cond_and_src, val, dt)

    def new(*idx):
        c, src, alts = cond_and_src(idx)
        if c is False:
            return old(*idx)
        if alts is None:
            if c is True:
                return ops.as_entry(val(*src), dt)
            return ite(c, ops.as_entry(val(*src), dt), old(*idx))
        out = old(*idx)
        pos, conds = alts
        for j, cj in enumerate(conds):  # later entries win, as in numpy
            s = list(src)
            s[pos] = j
            cc = And(c, cj)
            if cc is False:
                continue
            out = ite(cc, ops.as_entry(val(*s), dt), out) if cc is not True else ops.as_entry(val(*s), dt)
        return out

    a._f = new


def _scatter(it, idx, m):
    """hit(c): position c is written; w(c): the last entry of the index list that names it"""
    ctx = it.ctx
    if ctx.generics:
        raise Unsupported("scatter through a symbolic index list inside a comprehension")
    hit, w = ctx.func("written", z3.IntSort(), z3.BoolSort()), ctx.func("writer", z3.IntSort(), z3.IntSort())
    c, u = z3.Ints("c!sc u!sc")
    g = idx.snap()
    at = z(zint(g(u)))
    pat = _trigger(at, u)
    ctx.define(z3.ForAll([c], z3.Implies(hit(c), z3.And(w(c) >= 0, w(c) < z(m), z(zint(g(w(c)))) == c)), patterns=[hit(c)]))
    ctx.define(z3.ForAll([c, u], z3.Implies(z3.And(u >= 0, u < z(m), at == c), z3.And(hit(c), w(c) >= u)), patterns=[multi(hit(c), pat)] if pat is not None else []))
    return hit, w


def _trigger(e, u):
    """an uninterpreted application in e whose arguments mention u plainly"""
    st = [e]
    while st:
        x = st.pop(0)
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0 and any(y.eq(u) for y in x.children()):
            return x
        st.extend(x.children())
    return None


def _ieq(i, j):
    if not is_z3(i) and not is_z3(j):
        return i == j
    c = z3.simplify(z(i) == z(j))
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    return c


def _same(a, b):
    if not is_z3(a) and not is_z3(b):
        return a == b
    return z3.simplify(z(a)).eq(z3.simplify(z(b)))


def _write_view(it, a, parts, cond_and_src, val, dt):
    """assignment through a view made only of integer / slice indices"""
    ctx = it.ctx
    inv = getattr(a, "inv", None)
    # recover the linear structure: probe the index map
    q = [z3.Int("vq!%d" % i) for i in range(a.ndim)]
    m = a.imap(*q)
    sol = [None] * a.ndim
    fixed = []
    for pos, e in enumerate(m):
        e = z3.simplify(z(e))
        hit = [j for j in range(a.ndim) if _occ(e, q[j])]
        if not hit:
            fixed.append((pos, e))
            continue
        if len(hit) != 1 or sol[hit[0]] is not None:
            raise Unsupported("assignment through this view")
        off = z3.simplify(e - q[hit[0]])
        if _occ(off, q[hit[0]]):
            raise Unsupported("assignment through this view")
        sol[hit[0]] = (pos, off)
    if any(s is None for s in sol):
        raise Unsupported("assignment through this view")
    base = a.base
    if base.base is not None:
        raise Unsupported("assignment through a view of a view")
    old = base._f

    def new(*idx):
        cs = [_ieq(idx[pos], e) for pos, e in fixed]
        loc = []
        for d, (pos, off) in zip(a.shape, sol):
            j = ops.sub(ctx, idx[pos], intval(off))
            loc.append(j)
            if not (z3.is_int_value(off) and off.as_long() == 0 and _same(d, base.shape[pos])):
                cs.append(And(z(j) >= 0, z(j) < z(d)) if is_z3(j) or is_z3(d) else (0 <= j < d))
        c, src, alts = cond_and_src(loc)
        if alts is not None:
            raise Unsupported("assignment through this view")
        c = And(*cs, c)
        if c is False:
            return old(*idx)
        v = ops.as_entry(val(*src), dt)
        return v if c is True else ite(c, v, old(*idx))

    base._f = new


# ---------------------------------------------------------------- constructors


def np(name):
    return lib("numpy." + name)


LIB["numpy.pi"] = PI
LIB["math.pi"] = PI
LIB["numpy.newaxis"] = None
LIB["numpy.ndarray"] = LibType("ndarray", None, lambda it, v: isinstance(v, SArr))
LIB["numpy.integer"] = LibType("integer", None, lambda it, v: False)
LIB["numpy.floating"] = LibType("floating", None, lambda it, v: False)
LIB["numpy.bool_"] = LibType("bool_", None, lambda it, v: False)


def _ctor(val, dt0):
    def f(it, a, k):
        sh = shape_of(it, a[0] if a else k["shape"])
        dt = dtype_arg(it, k.get("dtype", a[1] if len(a) > 1 else None), dt0)
        for d in sh:
            if is_float(d):
                pyraise("TypeError", "float object cannot be interpreted as an integer")
            if is_z3(d) and it.ctx.feasible(d < 0):
                if it.ctx.branch(d < 0):
                    pyraise("ValueError", "negative dimensions are not allowed")
            elif not is_z3(d) and d < 0:
                pyraise("ValueError", "negative dimensions are not allowed")
        v = ops.as_entry(val, dt)
        return SArr(sh, lambda *i: v, dt)

    return f


LIB["numpy.zeros"] = Builtin("numpy.zeros", _ctor(0, "f"))
LIB["numpy.ones"] = Builtin("numpy.ones", _ctor(1, "f"))


@np("zeros_like")
def _zl(it, a, k):
    x = to_arr(it, a[0])
    return SArr(x.shape, lambda *i: ops.as_entry(0, x.dtype), x.dtype)


@np("eye")
def _eye(it, a, k):
    n = intval(zint(a[0]))
    m = intval(zint(a[1])) if len(a) > 1 else n
    dt = dtype_arg(it, k.get("dtype"), "f")
    one, zero = ops.as_entry(1, dt), ops.as_entry(0, dt)

    def f(i, j):
        c = _ieq(i, j)
        return one if c is True else zero if c is False else ite(c, one, zero)

    return SArr((n, m), f, dt)


LIB["numpy.identity"] = LIB["numpy.eye"]


@np("array")
def _array(it, a, k):
    dt = k.get("dtype", a[1] if len(a) > 1 else None)
    return to_arr(it, a[0], dtype_arg(it, dt, None) if dt is not None else None)


LIB["numpy.asarray"] = LIB["numpy.array"]


@np("full")
def _full(it, a, k):
    sh = shape_of(it, a[0])
    v = a[1]
    dt = dtype_arg(it, k.get("dtype"), ops.dtype_of(v))
    return SArr(sh, lambda *i: ops.as_entry(v, dt), dt)


@np("arange")
def _arange(it, a, k):
    s = LIB["builtins.range"].fn(it, a, {})
    return to_arr(it, VList(s) if isinstance(s, tuple) else s)


@np("copy")
def _npcopy(it, a, k):
    return to_arr(it, a[0])


# ---------------------------------------------------------------- algebra


def arr(it, v):
    return v if isinstance(v, SArr) else to_arr(it, v)


@np("kron")
def _kron(it, a, k):
    x, y = a
    x = x if is_num(x) else arr(it, x)
    y = y if is_num(y) else arr(it, y)
    if isinstance(x, SArr) and x.ndim == 0:
        x = x.get()
    if isinstance(y, SArr) and y.ndim == 0:
        y = y.get()
    if is_num(x) and is_num(y):
        return ops.mul(it.ctx, x, y)
    return ops.kron(it.ctx, x, y)


@np("outer")
def _outer(it, a, k):
    x, y = arr(it, a[0]), arr(it, a[1])
    if x.ndim != 1 or y.ndim != 1:
        raise Unsupported("outer of non-vectors")
    f, g = x.snap(), y.snap()
    return SArr((x.shape[0], y.shape[0]), lambda i, j: ops.mul(it.ctx, f(i), g(j)), join_dtype(x.dtype, y.dtype))


@np("multiply.outer")
def _mouter(it, a, k):
    x, y = arr(it, a[0]), arr(it, a[1])
    f, g, n = x.snap(), y.snap(), x.ndim
    return SArr(x.shape + y.shape, lambda *i: ops.mul(it.ctx, f(*i[:n]), g(*i[n:])), join_dtype(x.dtype, y.dtype))


@np("dot")
def _dot(it, a, k):
    x, y = a
    if is_num(x) or is_num(y):
        return it.binop("*", x, y)
    return ops.matmul(it.ctx, arr(it, x), arr(it, y))


LIB["numpy.matmul"] = LIB["numpy.dot"]


@np("conj")
def _conj(it, a, k):
    v = a[0]
    if is_num(v):
        return ops.conj(v)
    v = arr(it, v)
    out = ops.arr_map(it.ctx, v, ops.conj)
    ops.keep_selector(v, out)
    return out


LIB["numpy.conjugate"] = LIB["numpy.conj"]


def transpose(it, v, axes=None):
    if axes is None:
        axes = list(range(v.ndim))[::-1]
    axes = [int(x) for x in axes]

    def imap(*idx):
        out = [None] * v.ndim
        for pos, ax in enumerate(axes):
            out[ax] = idx[pos]
        return tuple(out)

    out = SArr(tuple(v.shape[x] for x in axes), None, v.dtype, base=v, imap=imap)
    out.axes = axes
    return out


@np("transpose")
def _transpose(it, a, k):
    return transpose(it, arr(it, a[0]), it.iterate(a[1]) if len(a) > 1 else None)


def _real(v):
    return v.re if isinstance(v, Cx) else v


def _imag(v):
    return v.im if isinstance(v, Cx) else Fraction(0)


@np("real")
def _npreal(it, a, k):
    if is_num(a[0]):
        return zreal(_real(a[0]))
    v = arr(it, a[0])
    return ops.arr_map(it.ctx, v, lambda x: zreal(_real(x)) if v.dtype == "c" else x, "f" if v.dtype == "c" else v.dtype)


@np("imag")
def _npimag(it, a, k):
    if is_num(a[0]):
        return zreal(_imag(a[0]))
    v = arr(it, a[0])
    return ops.arr_map(it.ctx, v, lambda x: zreal(_imag(x)), "f")


def _elementwise(fn, dt=None):
    def f(it, a, k):
        if is_num(a[0]):
            return fn(it, a[0])
        v = arr(it, a[0])
        return ops.arr_map(it.ctx, v, lambda x: fn(it, x), dt)

    return f


def _cabs(it, v):
    if isinstance(v, Cx):
        return ops.sqrt(it.ctx, ops.add(it.ctx, ops.mul(it.ctx, v.re, v.re), ops.mul(it.ctx, v.im, v.im)))
    v = zint(v)
    if not is_z3(v):
        return abs(v)
    return z3.If(v >= 0, v, -v)


def _exp(it, v):
    """exp(i t) = cos t + i sin t; real exp is uninterpreted and positive"""
    if isinstance(v, Cx):
        if not is_z3(v.re) and v.re == 0:
            c, s = ops.trig(it.ctx, v.im)
            return Cx(c, s)
        raise Unsupported("exp of a general complex number")
    x = z(zreal(v))
    Ex = z3.Function("exp_", z3.RealSort(), z3.RealSort())
    t = Ex(x)
    it.ctx.once(("exp", t.get_id()), lambda: [t > 0])
    it.ctx.trust("np.exp: positive real function; exp(i t) = cos t + i sin t")
    return t


LIB["numpy.cos"] = Builtin("numpy.cos", _elementwise(lambda it, v: ops.trig(it.ctx, v)[0], "f"))
LIB["numpy.sin"] = Builtin("numpy.sin", _elementwise(lambda it, v: ops.trig(it.ctx, v)[1], "f"))
LIB["numpy.sqrt"] = Builtin("numpy.sqrt", _elementwise(lambda it, v: ops.sqrt(it.ctx, v), "f"))
LIB["numpy.abs"] = Builtin("numpy.abs", _elementwise(_cabs))
LIB["numpy.absolute"] = LIB["numpy.abs"]
LIB["numpy.exp"] = Builtin("numpy.exp", _elementwise(_exp))
LIB["numpy.isnan"] = Builtin("numpy.isnan", _elementwise(lambda it, v: False, "b"))
LIB["numpy.square"] = Builtin("numpy.square", _elementwise(lambda it, v: ops.mul(it.ctx, v, v)))
LIB["numpy.power"] = Builtin("numpy.power", lambda it, a, k: it.binop("**", a[0], a[1]))
for _n, _o in (("add", "+"), ("subtract", "-"), ("multiply", "*"), ("divide", "/"), ("mod", "%"), ("bitwise_xor", "^")):
    LIB["numpy." + _n] = Builtin("numpy." + _n, (lambda o: lambda it, a, k: it.binop(o, a[0], a[1]))(_o))
LIB["numpy.cos"].trusted = True


def _bounds(it, idx, shape):
    return And(*[And(z(i) >= 0, z(i) < z(n)) for i, n in zip(idx, shape)])


def np_sum(it, v, axis=None):
    ctx = it.ctx
    f = v.snap()
    if v.dtype == "b":
        g = f
        f = lambda *i: zint(g(*i))
    gf = v.dtype == "gf2"
    fin = (lambda s: z(zint(s)) % 2 if is_z3(s) else s % 2) if gf else (lambda s: s)
    dt = "i" if v.dtype == "b" else v.dtype
    if axis is None:
        if v.ndim == 1:
            return fin(ctx.sum(v.shape[0], f))
        if v.ndim == 2:
            return fin(ctx.sum(v.shape[0], lambda i: ctx.sum(v.shape[1], lambda j: f(i, j))))
        raise Unsupported("sum over rank %d" % v.ndim)
    if axis < 0:
        axis += v.ndim
    if v.ndim == 1:
        return fin(ctx.sum(v.shape[0], f))
    if v.ndim == 2:
        if axis == 0:
            return SArr((v.shape[1],), lambda j: fin(_sum_at(ctx, v.shape[0], lambda j: lambda i: f(i, j), j, dt)), dt)
        return SArr((v.shape[0],), lambda i: fin(_sum_at(ctx, v.shape[1], lambda i: lambda j: f(i, j), i, dt)), dt)
    raise Unsupported("sum over rank %d" % v.ndim)


def _sum_at(ctx, n, f, j, dt):
    """the sum at a compound index is an instance of the sum at a plain one"""
    if dt != "i" or not is_z3(j):
        return ctx.sum(n, f(j))
    j = z3.simplify(j)
    if z3.is_const(j) or isinstance(n, int) and n <= 16:
        return ctx.sum(n, f(j))
    p = z3.Int("at!sum")
    t = ctx.sum(n, f(p))
    e = ctx.sum_terms.get(t.get_id()) if is_z3(t) else None
    if e is None:
        return ctx.sum(n, f(j))
    r = z3.substitute(t, (p, j))
    ctx.sum_terms[r.get_id()] = (r, n, z3.substitute(e[2], (p, j)), e[3])
    return r


@np("sum")
def _npsum(it, a, k):
    return np_sum(it, arr(it, a[0]), k.get("axis", a[1] if len(a) > 1 else None))


@np("trace")
def _trace(it, a, k):
    v = arr(it, a[0])
    f = v.snap()
    if not ops.dim_eq(it.ctx, v.shape[0], v.shape[1]):
        raise Unsupported("trace of a non square matrix")
    return it.ctx.sum(v.shape[0], lambda i: f(i, i))


@np("linalg.norm")
def _norm(it, a, k):
    v = arr(it, a[0])
    f = v.snap()
    if k.get("axis") is not None or len(a) > 1:
        raise Unsupported("norm along an axis")

    def sq(*i):
        x = f(*i)
        if isinstance(x, Cx):
            return ops.add(it.ctx, ops.mul(it.ctx, x.re, x.re), ops.mul(it.ctx, x.im, x.im))
        return ops.mul(it.ctx, x, x)

    if v.dtype in ("i", "gf2", "b") and v.ndim and any(is_z3(d) for d in v.shape):
        # integer entries: 0 iff all entries vanish, at least 1 otherwise
        ctx = it.ctx
        c = ctx.real("norm")
        qs = [z3.Int(ctx.uid("qn")) for _ in v.shape]
        ws = [ctx.int("norm_at") for _ in v.shape]
        ent = lambda *i: z(zint(f(*i))) == 0
        ctx.define(z3.Or(c == 0, c >= 1))
        ctx.define(z3.Implies(c == 0, z3.ForAll(qs, z(Implies(_bounds(it, qs, v.shape), ent(*qs))))))
        ctx.define(z3.Implies(c != 0, z(And(_bounds(it, ws, v.shape), Not(ent(*ws))))))
        ctx.trust("np.linalg.norm of an integer array: 0 iff every entry is 0, at least 1 otherwise")
        return c
    s = np_sum(it, SArr(v.shape, sq, "f")) if v.ndim else sq()
    it.ctx.assume(z(zreal(s)) >= 0)
    it.ctx.trust("np.linalg.norm: square root of the (non-negative) sum of squared moduli")
    return ops.sqrt(it.ctx, s)


def _quant(it, v, conj_):
    ctx = it.ctx
    f = v.snap()
    if all(not is_z3(d) for d in v.shape):
        import itertools

        vals = [it.truth(f(*i)) for i in itertools.product(*[range(d) for d in v.shape])]
        return And(*vals) if conj_ else Or(*vals)
    qs = [z3.Int(ctx.uid("qa")) for _ in v.shape]
    body = it.truth(f(*qs))
    rng = _bounds(it, qs, v.shape)
    if conj_:
        return z3.ForAll(qs, z(Implies(rng, body)))
    return z3.Exists(qs, z(And(rng, body)))


def _quant_axis(it, v, conj_, ax):
    if v.ndim == 1 and ax in (0, -1):
        return _quant(it, v, conj_)
    if v.ndim != 2 or ax not in (0, 1, -1):
        raise Unsupported("all/any along axis %r" % (ax,))
    ax = ax % 2
    f = v.snap()
    n, m = v.shape[1 - ax], v.shape[ax]
    at = (lambda i: SArr((m,), lambda q: f(q, i), v.dtype)) if ax == 0 else (lambda i: SArr((m,), lambda q: f(i, q), v.dtype))
    return SArr((n,), lambda i: _quant(it, at(i), conj_), "b")


@np("all")
def _npall(it, a, k):
    ax = k.get("axis", a[1] if len(a) > 1 else None)
    return _quant_axis(it, arr(it, a[0]), True, ax) if ax is not None else _quant(it, arr(it, a[0]), True)


@np("any")
def _npany(it, a, k):
    ax = k.get("axis", a[1] if len(a) > 1 else None)
    return _quant_axis(it, arr(it, a[0]), False, ax) if ax is not None else _quant(it, arr(it, a[0]), False)


@np("array_equal")
def _npeq(it, a, k):
    x, y = arr(it, a[0]), arr(it, a[1])
    if x.ndim != y.ndim:
        return False
    for p, q in zip(x.shape, y.shape):
        if not ops.dim_eq(it.ctx, p, q):
            return False
    return _quant(it, ops.arr_binop(it.ctx, "==", x, y), True)


@np("argmax")
def _argmax(it, a, k):
    """first index of a maximum"""
    ctx = it.ctx
    v = arr(it, a[0])
    if v.ndim != 1 or k:
        raise Unsupported("argmax of rank %d" % v.ndim)
    f = v.snap()
    if v.dtype == "b":
        g = f
        f = lambda i: zint(g(i))
    n = v.shape[0]
    if not ctx.branch(z(n) > 0):
        pyraise("ValueError", "attempt to get argmax of an empty sequence")
    t = ctx.int("argmax")
    q = z3.Int(ctx.uid("q"))
    ft = f(t)
    ctx.assume(And(t >= 0, t < z(n)))
    ctx.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < z(n)), z3.And(z(f(q)) <= z(ft), z3.Implies(z(f(q)) == z(ft), t <= q)))))
    ctx.trust("np.argmax: least index of a maximal entry")
    return t


@np("max")
def _npmax(it, a, k):
    v = arr(it, a[0])
    if v.ndim != 1:
        raise Unsupported("max of rank %d" % v.ndim)
    t = _argmax(it, [v], {})
    return v.get(t)


@np("argsort")
def _argsort(it, a, k):
    v = arr(it, a[0])
    if v.ndim != 1 or len(a) > 1 or k:
        raise Unsupported("argsort")
    ctx = it.ctx
    p, x = ctx.func("argsort", z3.IntSort(), z3.IntSort()), ctx.func("argsort_pos", z3.IntSort(), z3.IntSort())
    n, f = z(v.shape[0]), v.snap()
    i, j = z3.Ints("i!as j!as")
    ctx.define(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(p(i) >= 0, p(i) < n, x(p(i)) == i)), patterns=[p(i)]))
    ctx.define(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(x(i) >= 0, x(i) < n, p(x(i)) == i)), patterns=[x(i)]))
    ctx.define(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < n), z(f(p(i))) <= z(f(p(j)))), patterns=[multi(p(i), p(j))]))
    ctx.trust("np.argsort: a permutation that sorts the entries (the order of equal entries is arbitrary)")
    return SArr(v.shape, lambda t: p(z(t)), "i")


def stack(it, arrs, axis):
    ctx = it.ctx
    xs = [arr(it, x) for x in arrs]
    if axis == 0:
        xs = [SArr((1,) + x.shape, (lambda g: lambda i, *r: g(*r))(x.snap()), x.dtype) if x.ndim == 1 else x for x in xs]
    nd = xs[0].ndim
    if nd == 1:
        axis = 0
    dt = xs[0].dtype
    for x in xs[1:]:
        dt = join_dtype(dt, x.dtype)
        if x.ndim != nd:
            pyraise("ValueError", "all the input array dimensions must match")
        for d in range(nd):
            if d != axis and not ops.dim_eq(ctx, x.shape[d], xs[0].shape[d]):
                pyraise("ValueError", "all the input array dimensions must match exactly")
    offs = [0]
    for x in xs:
        offs.append(ops.add(ctx, offs[-1], x.shape[axis]))
    fs = [x.snap() for x in xs]

    def f(*idx):
        i = idx[axis]
        cands = []
        for j, g in enumerate(fs):
            loc = list(idx)
            if not is_z3(i) and not is_z3(offs[j]) and not is_z3(offs[j + 1]):
                if offs[j] <= i < offs[j + 1]:
                    loc[axis] = i - offs[j]
                    return ops.as_entry(g(*loc), dt)
                continue
            cands.append(j)
        out = None
        for j in reversed(cands):
            loc = list(idx)
            loc[axis] = intval(ops.sub(ctx, i, offs[j])) if j else i
            c = z3.simplify(z(i) < z(offs[j + 1]))
            if out is not None and z3.is_false(c):
                continue
            v = ops.as_entry(fs[j](*loc), dt)
            out = v if out is None or z3.is_true(c) else ite(c, v, out)
        return out

    shape = list(xs[0].shape)
    shape[axis] = offs[-1]
    return SArr(tuple(shape), f, dt)


@np("hstack")
def _hstack(it, a, k):
    vals = it.iterate(a[0])
    if vals is None:
        raise Unsupported("hstack of a symbolic list")
    xs = [arr(it, x) for x in vals]
    return stack(it, xs, 0 if xs[0].ndim == 1 else 1)


@np("vstack")
def _vstack(it, a, k):
    vals = it.iterate(a[0])
    if vals is None:
        return vstack_seq(it, it.as_seq(a[0]))
    return stack(it, vals, 0)


def vstack_seq(it, s):
    """rows of a symbolic list of vectors (or 1-row matrices)"""
    q = z3.Int(it.ctx.uid("q_vs"))
    p = arr(it, s.f(q))
    if p.ndim == 1:
        return to_arr(it, s)
    if p.ndim == 2 and not is_z3(p.shape[0]) and p.shape[0] == 1:
        return SArr((s.n, p.shape[1]), lambda i, j: arr(it, s.f(i)).get(0, j), p.dtype)
    raise Unsupported("vstack of a symbolic list of matrices")


@np("concatenate")
def _concat(it, a, k):
    vals = it.iterate(a[0])
    if vals is None:
        raise Unsupported("concatenate of a symbolic list")
    xs = [arr(it, x) for x in vals]
    axis = a[1] if len(a) > 1 else k.get("axis", 0)
    nd = xs[0].ndim
    if not isinstance(axis, int) or set(k) - {"axis"} or nd == 0:
        raise Unsupported("np.concatenate with these arguments")
    if not -nd <= axis < nd:
        pyraise("AxisError", "axis %d is out of bounds for array of dimension %d" % (axis, nd))
    if any(x.ndim != nd for x in xs):
        pyraise("ValueError", "all the input array dimensions must match")
    return stack(it, xs, axis % nd) if nd > 1 else _cat1(it, xs)


def _cat1(it, xs):
    col = [SArr((1,) + x.shape, (lambda g: lambda i, j: g(j))(x.snap()), x.dtype) for x in xs]
    m = stack(it, col, 1)
    g = m.snap()
    return SArr((m.shape[1],), lambda j: g(0, j), m.dtype)


def _hstack1(it, a, k):
    vals = it.iterate(a[0])
    if vals is None:
        raise Unsupported("hstack of a symbolic list")
    xs = [arr(it, x) for x in vals]
    if xs[0].ndim == 1:
        return _cat1(it, xs)
    return stack(it, xs, 1)


LIB["numpy.hstack"] = Builtin("numpy.hstack", _hstack1)


@np("block")
def _block(it, a, k):
    rows = it.iterate(a[0])
    if rows is None:
        return _block_seq(it, it.as_seq(a[0]))
    out = []
    for r in rows:
        cells = it.iterate(r)
        if isinstance(r, SArr) or cells is None or is_num(cells[0]):
            raise Unsupported("np.block of this shape")
        out.append(stack(it, [arr(it, c) for c in cells], 1))
    return stack(it, out, 0)


def _block_seq(it, s):
    """a symbolic number of block rows, each a list of equally many matrices of one shape"""
    ctx = it.ctx
    s = s.snap()
    q = z3.Int(ctx.uid("q_bl"))
    cells = s.f(q)
    if not isinstance(cells, (VList, tuple)) or not len(cells):
        raise Unsupported("np.block of this shape")
    sh = None
    for x in cells:
        if not isinstance(x, SArr) or x.ndim != 2 or any(is_z3(d) and _occ(d, q) for d in x.shape):
            raise Unsupported("np.block of this shape")
    h = cells[0].shape[0]
    for x in cells:
        if not ops.dim_eq(ctx, x.shape[0], h):
            pyraise("ValueError", "all the input array dimensions must match exactly")
    dt = cells[0].dtype
    for x in cells[1:]:
        dt = join_dtype(dt, x.dtype)
    width = 0
    offs = [0]
    for x in cells:
        offs.append(ops.add(ctx, offs[-1], x.shape[1]))

    def f(r, c):
        j, k = ops.dims_div(ctx, r, h)
        row = s.f(j)
        out = None
        for b in reversed(range(len(row))):
            v = ops.as_entry(row[b].get(k, intval(ops.sub(ctx, c, offs[b])) if b else c), dt)
            out = v if out is None else ite(z3.simplify(z(c) < z(offs[b + 1])), v, out)
        return out

    return SArr((ops.mul(ctx, s.n, h), offs[-1]), f, dt)


@np("diag")
def _diag(it, a, k):
    v = arr(it, a[0])
    f = v.snap()
    if v.ndim == 1:
        zero = ops.as_entry(0, v.dtype)

        def g(i, j):
            c = _ieq(i, j)
            return f(i) if c is True else zero if c is False else ite(c, f(i), zero)

        return SArr((v.shape[0], v.shape[0]), g, v.dtype)
    if not ops.dim_eq(it.ctx, v.shape[0], v.shape[1]):
        raise Unsupported("diagonal of a rectangular matrix")
    return SArr((v.shape[0],), lambda i: f(i, i), v.dtype)


@np("log2")
def _log2(it, a, k):
    return log2(it, a[0])


def log2(it, v):
    """exact on powers of two (the only use: sizes 2**n)"""
    v = zint(v)
    if not is_z3(v):
        if isinstance(v, int) and v > 0 and v & (v - 1) == 0:
            return Fraction(v.bit_length() - 1)
        raise Unsupported("log2 of a constant that is not a power of two")
    s = z3.simplify(v)
    for t, m in it.ctx.cache.get("pow2terms", {}).values():
        if z3.simplify(t).eq(s):
            it.ctx.trust("np.log2(2**n) == n exactly")
            return z3.ToReal(z(m))
    raise Unsupported("log2 of a symbolic number that is not 2**n")


LIB["math.log2"] = Builtin("math.log2", lambda it, a, k: log2(it, a[0]))


@np("shape")
def _npshape(it, a, k):
    return tuple(arr(it, a[0]).shape)


class IxGrid(tuple):
    """np.ix_(rows, columns): used as an index only"""


@np("ix_")
def _ix(it, a, k):
    xs = [arr(it, x) for x in a]
    if len(xs) != 2 or any(x.ndim != 1 or x.dtype not in ("i", "gf2") for x in xs):
        raise Unsupported("np.ix_ of these arguments")
    return IxGrid(xs)


@np("nonzero")
def _nonzero(it, a, k):
    v = arr(it, a[0])
    if v.ndim != 1:
        raise Unsupported("np.nonzero of rank %d" % v.ndim)
    f = v.snap()
    keep = lambda i: Not(ops.compare(it.ctx, "==", f(i), 0)) if v.dtype != "b" else f(i)
    s = lib_py.seq_filter(it, SSeq(v.shape[0], lambda i: z(i)), keep, None, None)
    out = SArr((s.n,), s.f, "i")
    out.positions = (out._f, s)
    return (out,)


@np("reshape")
def _npreshape(it, a, k):
    return reshape(it, arr(it, a[0]), shape_of(it, a[1]))


def reshape(it, v, sh):
    ctx = it.ctx
    sh = list(sh)
    tot = 1
    for d in v.shape:
        tot = ops.mul(ctx, tot, d)
    if any(not is_z3(d) and d == -1 for d in sh):
        k = [i for i, d in enumerate(sh) if not is_z3(d) and d == -1][0]
        rest = 1
        for i, d in enumerate(sh):
            if i != k:
                rest = ops.mul(ctx, rest, d)
        if not is_z3(rest) and rest == 1:
            sh[k] = tot
        elif not is_z3(rest) and not is_z3(tot):
            sh[k] = tot // rest
        else:
            raise Unsupported("reshape with -1")
    f = v.snap()
    if len(sh) == 1 and v.ndim == 1:
        if not ops.dim_eq(ctx, sh[0], v.shape[0]):
            pyraise("ValueError", "cannot reshape array")
        return SArr(tuple(sh), f, v.dtype)
    if len(sh) == v.ndim and all(_same(a, b) for a, b in zip(sh, v.shape)):
        return SArr(tuple(sh), f, v.dtype)
    newtot = 1
    for d in sh:
        newtot = ops.mul(ctx, newtot, d)
    if not ops.dim_eq(ctx, tot, newtot):
        pyraise("ValueError", "cannot reshape array")

    def flat(idx, dims):
        out = 0
        for i, d in zip(idx, dims):
            out = ops.add(ctx, ops.mul(ctx, out, d), i)
        return out

    def unflat(k, dims):
        out = []
        for d in reversed(dims[1:]):
            q, r = ops.dims_div(ctx, k, d)
            out.append(r)
            k = q
        out.append(k)
        return tuple(reversed(out))

    def drop1(dims):
        return [j for j, d in enumerate(dims) if is_z3(d) or d != 1]

    ka, kb = drop1(v.shape), drop1(sh)
    if len(ka) == len(kb) and all(_same(v.shape[a], sh[b]) for a, b in zip(ka, kb)):
        def g(*idx):
            out = [0] * v.ndim
            for a, b in zip(ka, kb):
                out[a] = idx[b]
            return f(*out)

        return SArr(tuple(sh), g, v.dtype)
    return SArr(tuple(sh), lambda *idx: f(*unflat(flat(idx, sh), v.shape)), v.dtype)


# ---------------------------------------------------------------- attributes

ARRM = {}


def arrm(name):
    def deco(fn):
        ARRM[name] = fn
        return fn

    return deco


@arrm("copy")
def _acopy(it, v, a, k):
    return v.copy()


@arrm("conj")
def _aconj(it, v, a, k):
    return ops.arr_map(it.ctx, v, ops.conj)


ARRM["conjugate"] = _aconj


@arrm("transpose")
def _atr(it, v, a, k):
    if len(a) == 1 and not is_num(a[0]):
        ax = it.iterate(a[0])
    else:
        ax = list(a) or None
    return transpose(it, v, ax)


@arrm("reshape")
def _aresh(it, v, a, k):
    sh = shape_of(it, a[0]) if len(a) == 1 else tuple(intval(x) for x in a)
    return reshape(it, v, sh)


@arrm("flatten")
def _aflat(it, v, a, k):
    return reshape(it, v, (-1,))


ARRM["ravel"] = _aflat


@arrm("sum")
def _asum(it, v, a, k):
    return np_sum(it, v, k.get("axis", a[0] if a else None))


@arrm("astype")
def _astype(it, v, a, k):
    return to_arr(it, v, dtype_arg(it, a[0]))


@arrm("all")
def _aall(it, v, a, k):
    return _npall(it, [v] + list(a), k)


@arrm("any")
def _aany(it, v, a, k):
    return _npany(it, [v] + list(a), k)


@arrm("dot")
def _adot(it, v, a, k):
    return _dot(it, [v] + list(a), k)


@arrm("tolist")
def _tolist(it, v, a, k):
    if v.ndim == 1:
        t = getattr(v, "positions", None)
        if t is not None and v.base is None and v._f is t[0]:
            return t[1].snap()
        f = v.snap()
        if is_z3(v.shape[0]):
            return SSeq(v.shape[0], f)
        return VList(f(i) for i in range(v.shape[0]))
    vals = it.iterate(v)
    if vals is None:
        raise Unsupported("tolist")
    return VList(_tolist(it, x, [], {}) for x in vals)


@arrm("argmax")
def _aargmax(it, v, a, k):
    return _argmax(it, [v] + list(a), k)


@arrm("max")
def _amax(it, v, a, k):
    return _npmax(it, [v], {})


@arrm("trace")
def _atrace(it, v, a, k):
    return _trace(it, [v], {})


@arrm("item")
def _aitem(it, v, a, k):
    if v.ndim == 0:
        return v.get()
    raise Unsupported("item")


@hostattr
def _arrattr(it, v, name):
    if not isinstance(v, SArr):
        return NotImplemented
    if name == "shape":
        return tuple(v.shape)
    if name == "ndim":
        return v.ndim
    if name == "T":
        return transpose(it, v) if v.ndim != 1 else v
    if name == "dtype":
        return LIB["builtins." + {"i": "int", "f": "float", "c": "complex", "b": "bool", "O": "object", "gf2": "int"}[v.dtype]]
    if name == "size":
        t = 1
        for d in v.shape:
            t = ops.mul(it.ctx, t, d)
        return t
    if name == "real":
        return _npreal(it, [v], {})
    if name == "imag":
        return _npimag(it, [v], {})
    if name in ARRM:
        return Builtin("ndarray." + name, lambda it_, a, k: ARRM[name](it_, v, a, k))
    return NotImplemented


# ---------------------------------------------------------------- randomness


def _rand_uniform(it, a, k):
    it.ctx.trust("np.random: arbitrary values (every outcome of the generator is considered)")
    if not a and k.get("size") is None:
        x = it.ctx.real("rand")
        it.ctx.assume(And(x >= 0, x < 1))
        return x
    f = it.ctx.func("rand", *([z3.IntSort()] * len(a)), z3.RealSort())
    return SArr(tuple(intval(x) for x in a), f, "f")


LIB["numpy.random.rand"] = Builtin("numpy.random.rand", _rand_uniform)


@np("random.randint")
def _randint(it, a, k):
    it.ctx.trust("np.random: arbitrary values (every outcome of the generator is considered)")
    if len(a) == 1:
        lo, hi = 0, a[0]
    else:
        lo, hi = a[0], a[1]
    if not it.ctx.branch(z(lo) < z(hi)):
        pyraise("ValueError", "low >= high")
    x = it.ctx.int("randint")
    it.ctx.assume(And(x >= z(lo), x < z(hi)))
    return x


@np("random.choice")
def _choice(it, a, k):
    it.ctx.trust("np.random: arbitrary values (every outcome of the generator is considered)")
    if k or len(a) > 1:
        raise Unsupported("random.choice with options")
    if is_num(a[0]):
        return _randint(it, [a[0]], {})
    s = it.as_seq(a[0])
    i = it.ctx.int("choice")
    if not it.ctx.branch(z(s.n) > 0):
        pyraise("ValueError", "a must be non-empty")
    it.ctx.assume(And(i >= 0, i < z(s.n)))
    return s.f(i)


@np("random.normal")
def _normal(it, a, k):
    it.ctx.trust("np.random: arbitrary values (every outcome of the generator is considered)")
    size = k.get("size", a[2] if len(a) > 2 else None)
    if size is None:
        return it.ctx.real("normal")
    sh = shape_of(it, size)
    f = it.ctx.func("normal", *([z3.IntSort()] * len(sh)), z3.RealSort())
    return SArr(sh, f, "f")
