"""contracts of the Python built-ins and standard library used by /repo"""
import z3

from . import ops
from .core import *
from .interp import *
from .interp import LIB
from .ops import E, Exc, pyraise

# ---------------------------------------------------------------- sequences


def conc(v):
    """concrete hashable python value usable as a key"""
    return isinstance(v, (int, str, Fraction)) or v is None or isinstance(v, tuple) and all(conc(x) for x in v)


def intval(v):
    if is_z3(v):
        s = z3.simplify(v)
        if z3.is_int_value(s):
            return s.as_long()
    return v


def mkseq(v):
    return v if isinstance(v, SSeq) else SSeq(len(v), lambda i: ops.seq_get(v, i))


def frz(v):
    """immutable snapshot of a list like"""
    return v.snap() if isinstance(v, SSeq) else VList(v)


def seq_concat(it, a, b):
    a, b = frz(a), frz(b)
    if isinstance(a, VList) and isinstance(b, VList):
        return VList(list(a) + list(b))
    if isinstance(a, VList) and not a:
        return SSeq(b.n, b.f)
    if isinstance(b, VList) and not b:
        return SSeq(a.n, a.f)
    na, nb = ops.seq_len(a), ops.seq_len(b)

    def f(i):
        if not is_z3(i) and not is_z3(na):
            return ops.seq_get(a, i) if i < na else ops.seq_get(b, i - na)
        if not is_z3(i) and i == 0 and isinstance(a, VList):
            return a[0]
        if isinstance(b, VList) and len(b) == 1:
            y = b[0]
        else:
            y = ops.seq_get(b, z3.simplify(z(i) - z(na)))
        if is_z3(i) and z3.simplify(z(i) - z(na)).eq(z3.IntVal(0)):
            return y
        return ite(z3.simplify(z(i) < z(na)), ops.seq_get(a, i), y) if not z3.is_false(z3.simplify(z(i) < z(na))) else y

    r = SSeq(ops.add(it.ctx, na, nb), f)
    ms = [elems_pred(x) for x in (a, b)]
    if all(ms):
        r.mem = lambda t: Or(ms[0](t), ms[1](t))
    return r


def elems_pred(s):
    """membership predicate of a list of numbers, when it is known"""
    if isinstance(s, SSeq):
        m = getattr(s, "mem", None)
        return None if m is None else lambda t: z(m(t))
    if all(is_num(x) and not isinstance(x, Cx) for x in s):
        es = list(s)
        return lambda t: Or(*[z(t) == z(x) for x in es])
    return None


def list_extend(it, cur, r):
    it.write_log(cur)
    vals = it.iterate(r)
    if isinstance(cur, VList):
        if vals is not None:
            list.extend(cur, vals)
            return cur
        raise Unsupported("extending a concrete list by a symbolic one")
    other = VList(vals) if vals is not None else it.as_seq(r)
    if other is None:
        raise Unsupported("extend by %r" % (r,))
    s = seq_concat(it, cur, other)
    cur.n, cur.f = (s.n, s.f) if isinstance(s, SSeq) else (len(s), lambda i: ops.seq_get(s, i))
    return cur


def seq_flatten(it, n, sub):
    """concatenation of n sequences"""
    s0 = sub(z3.Int("flat!i"))
    if isinstance(s0, (VList, tuple)):
        m = len(s0)
    elif isinstance(s0, SSeq):
        m = s0.n
        if is_z3(m) and any(x.eq(z3.Int("flat!i")) for x in _consts(m)):
            return _flatten_varying(it, n, sub)
    else:
        raise Unsupported("flatten")
    if not is_z3(m) and m == 0:
        return VList()
    if not is_z3(m) and m == 1:
        return SSeq(n, lambda i: ops.seq_get(sub(i), 0))
    return SSeq(ops.mul(it.ctx, n, m), lambda i: ops.seq_get(sub(ops.dims_div(it.ctx, i, m)[0]), ops.dims_div(it.ctx, i, m)[1]))


def _flatten_varying(it, n, sub):
    """concatenation of n sequences of varying lengths: element q of sequence i stands at
    off(i) + q, where off are the partial sums of the lengths"""
    ctx = it.ctx
    I_ = z3.IntSort()
    off, g, q = ctx.func("flat_off", I_, I_), ctx.func("flat_row", I_, I_), ctx.func("flat_col", I_, I_)
    T = ctx.func("flat_at", I_, I_, I_)
    i, j, t = z3.Ints("i!fl j!fl t!fl")
    ln = lambda a: z(ops.seq_len(sub(a)))
    n = z(n)
    tot = ctx.int("flat_n")
    ctx.assume(And(off(0) == 0, tot == off(n), tot >= 0))
    ctx.assume(z3.ForAll([i], Implies(And(i >= 0, i < n), And(off(i + 1) == off(i) + ln(i), off(i) >= 0, ln(i) >= 0, off(i) + ln(i) <= tot)), patterns=[off(i)]))
    ctx.assume(z3.ForAll([i, j], Implies(And(i >= 0, i < j, j < n), off(i) + ln(i) <= off(j)), patterns=[multi(off(i), off(j))]))
    ctx.assume(z3.ForAll([t], Implies(And(t >= 0, t < tot), And(g(t) >= 0, g(t) < n, q(t) >= 0, q(t) < ln(g(t)), t == off(g(t)) + q(t))), patterns=[g(t)]))
    ctx.assume(z3.ForAll([i, j], Implies(And(i >= 0, i < n, j >= 0, j < ln(i)), And(T(i, j) == off(i) + j, g(off(i) + j) == i, q(off(i) + j) == j)), patterns=[T(i, j)]))
    ctx.trust("concatenation of lists of varying lengths: element j of list i stands at the sum of the earlier lengths plus j")
    out = SSeq(tot, lambda k: ops.seq_get(sub(g(z(k))), q(z(k))))
    out.flat = (off, g, q, T, sub)
    return out


def _consts(e):
    out, st, seen = [], [e], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x):
            out.append(x)
        st.extend(x.children())
    return out


def seq_filter(it, s, keep, _unused, val):
    """[val(i) for i in range(n) if keep(i)]: order preserving enumeration of the kept
    indices by a strictly increasing function (its existence is a theorem of arithmetic)"""
    ctx = it.ctx
    q = ctx.int("flt_q")
    if ctx.quickly_valid(Implies(And(q >= 0, q < z(s.n)), z(keep(q)))):
        # nothing is filtered out
        vc = ctx.generic(s.n, val) if val is not None else s.f
        return SSeq(s.n, vc)
    m = ctx.int("flt_n")
    sel = ctx.func("flt", z3.IntSort(), z3.IntSort())
    inv = ctx.func("fltinv", z3.IntSort(), z3.IntSort())
    i, j = z3.Ints("i!f j!f")
    n = z(s.n)
    ctx.assume(And(m >= 0, m <= n))
    ctx.assume(z3.ForAll([i], Implies(And(i >= 0, i < m), And(sel(i) >= 0, sel(i) < n, z(keep(sel(i))), inv(sel(i)) == i)), patterns=[sel(i)]))
    ctx.assume(z3.ForAll([i, j], Implies(And(i >= 0, i < j, j < m), sel(i) < sel(j)), patterns=[multi(sel(i), sel(j))]))
    ctx.assume(z3.ForAll([i], Implies(And(i >= 0, i < n, z(keep(i))), And(inv(i) >= 0, inv(i) < m, sel(inv(i)) == i)), patterns=[inv(i)]))
    ctx.trust("comprehension filters: kept indices enumerated by a strictly increasing function")
    vc = ctx.generic(s.n, val) if val is not None else s.f
    out = SSeq(m, lambda k: vc(sel(k)))
    out.filtered = out.raw_filter = (sel, inv, keep, s, vc)
    it.__dict__.setdefault("filters", []).append(out)
    h = it.__dict__.get("on_filter")
    if h is not None:
        h(out)
    return out


def comp_over_set(it, e, g, src, cf):
    raise Unsupported("comprehension over the set %r" % (src,))


def make_set(it, v):
    h = getattr(v, "__pyvc_set__", None)
    if h:
        return h(it)
    vals = it.iterate(v)
    if vals is not None:
        if all(conc(x) for x in vals):
            return VSet(vals)
        es = list(vals)
        for x in es:
            if not is_num(x):
                raise Unsupported("set of %r" % (x,))
        return SSet(lambda t: Or(*[z(t) == z(x) for x in es]))
    if isinstance(v, SSet):
        return SSet(v.mem, v.card, v.elem)
    s = it.as_seq(v)
    if s is None:
        raise Unsupported("set of %r" % (v,))
    s = s.snap()
    h = getattr(s, "filtered", None)
    i = z3.Int("i!set")
    mem0 = getattr(v, "mem", None)
    if mem0 is not None:
        return SSet(mem0)
    return SSet(lambda t: z3.Exists([i], And(i >= 0, i < z(s.n), ops.value_eq(it.ctx, s.f(i), t))))


def set_id(s):
    """identity of a set's current content and history"""
    if isinstance(s, SSet):
        return s.prov or ("set", id(s), id(s.mem))
    return ("val", id(s))


def enum_set(it, s):
    """the elements of a finite symbolic set in its (arbitrary) iteration order"""
    ctx = it.ctx
    key = set_id(s)
    cache = ctx.__dict__.setdefault("set_enums", {})
    if key in cache and not cache[key][3]:
        return cache[key][0].snap2()
    f, x = ctx.func("set_elem", z3.IntSort(), z3.IntSort()), ctx.func("set_pos", z3.IntSort(), z3.IntSort())
    n = set_card(it, s)
    i, v = z3.Ints("i!se v!se")
    mem = s.mem
    ctx.define(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(z(mem(f(i))), x(f(i)) == i)), patterns=[f(i)]))
    ctx.define(z3.ForAll([v], z3.Implies(z(mem(v)), z3.And(x(v) >= 0, x(v) < n, f(x(v)) == v)), patterns=[x(v)] + ([z(mem(v))] if z3.is_app_of(z(mem(v)), z3.Z3_OP_UNINTERPRETED) else [])))
    ctx.trust("iteration over a set visits each element once, in an arbitrary order that is the same for sets computed by the same operations from the same unchanged sets")
    r = SSeq(n, lambda k: f(z(k)))
    r.mem = mem
    r.index_of = lambda t: x(z(t))
    r.snap2 = lambda: _copy_seq(r)
    # an enumeration made for a generic index may depend on it
    if key not in cache:
        cache[key] = (r, s, s.mem, len(ctx.generics))
    return r.snap2()


def _copy_seq(r):
    c = SSeq(r.n, r.f)
    c.mem, c.index_of = r.mem, r.index_of
    return c


def mem_of(s):
    if isinstance(s, SSeq) and getattr(s, "setlike", False):
        return s.mem
    if isinstance(s, SSet):
        return s.mem
    es = list(s)
    return lambda t: Or(*[z(t) == z(x) for x in es])


# ---------------------------------------------------------------- dictionaries


def dict_set(it, d, k, v):
    """entry of a dictionary display"""
    if isinstance(d, VDict) and is_z3(k) and is_int(k):
        if not d:
            return SDict(lambda x: z(x) == k, lambda x: v, SSeq(1, lambda i: k))
        d = to_sdict(d)
    it.setitem(d, k, v)
    return d


def dict_update(it, d, o):
    if isinstance(d, VDict) and isinstance(o, VDict):
        d.update(o)
        it.write_log(d)
        return d
    if isinstance(o, SDict) and isinstance(d, VDict) and not d:
        return SDict(o.has, o.get, o.keys)
    if isinstance(d, VDict) and not d and hasattr(o, "__pyvc_dict__"):
        return o.__pyvc_dict__(it)
    if isinstance(o, VDict) and hasattr(d, "__pyvc_setitem__"):
        for k, v in o.items():
            d.__pyvc_setitem__(it, k, v)
        return d
    if isinstance(o, (SDict, VDict)):
        a = to_sdict(d)
        b = to_sdict(o)
        return SDict(lambda x: Or(a.has(x), b.has(x)), lambda x: ite(b.has(x), b.get(x), a.get(x)))
    raise Unsupported("dict update")


def to_sdict(d):
    if isinstance(d, SDict):
        return d
    es = list(d.items())

    def get(x):
        if not es:
            return 0
        out = es[0][1]
        for k, v in es[1:]:
            out = ite(z(x) == z(k), v, out)
        return out

    return SDict(lambda x: Or(*[z(x) == z(k) for k, _ in es]), get)


def dict_from_pairs(it, s):
    vals = it.iterate(s)
    if vals is not None:
        d = VDict()
        for p in vals:
            k, v = it.unpack(p, 2)
            if not conc(k):
                raise Unsupported("dict with a symbolic key")
            d[k] = v
        return d
    s = it.as_seq(s)
    if s is None:
        raise Unsupported("dict of pairs")
    return sdict_from_seq(it, s)


def sdict_from_seq(it, s):
    """dict((k_i, v_i)): last pair with a key wins; keys keep first insertion order"""
    ctx = it.ctx
    s = s.snap()
    i = z3.Int("i!d")
    n = z(s.n)
    idx = ctx.func("didx", z3.IntSort(), z3.IntSort())
    x = z3.Int("x!d")
    p = lambda t: s.f(t)
    has = ctx.func("dhas", z3.IntSort(), z3.BoolSort())
    k0 = p(i)[0]
    if not is_num(k0):
        raise Unsupported("symbolic dict keys must be numbers")
    ctx.assume(z3.ForAll([i], Implies(And(i >= 0, i < n), And(has(z(p(i)[0])), idx(z(p(i)[0])) >= i))))
    ctx.assume(z3.ForAll([x], Implies(has(x), And(idx(x) >= 0, idx(x) < n, z(p(idx(x))[0]) == x)), patterns=[has(x)]))
    return SDict(lambda t: has(z(t)), lambda t: p(idx(z(t)))[1], SSeq(s.n, lambda t: p(t)[0]))


# ---------------------------------------------------------------- operators


def binop(it, op, a, b):
    ctx = it.ctx
    if op == "+":
        if isinstance(a, (VList, SSeq)) and isinstance(b, (VList, SSeq)):
            return seq_concat(it, a, b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
    if op == "*":
        for x, y in ((a, b), (b, a)):
            if isinstance(x, VList) and is_int(y):
                y = intval(y)
                if not is_z3(y):
                    return VList(list(x) * y)
                if len(x) == 1:
                    n = z3.If(y > 0, y, z3.IntVal(0)) if ctx.feasible(y < 0) else y
                    return SSeq(n, lambda i: x[0])
                raise Unsupported("list repetition")
            if isinstance(x, str) and is_int(y):
                y = intval(y)
                if not is_z3(y):
                    return x * y if y * len(x) < 10000 else Opaque("string")
                if len(x) == 1 and x not in "\n; ":
                    from .lib_str import SLine

                    code = intern_str(x)
                    return SLine(z3.If(y > 0, y, z3.IntVal(0)), lambda j: z3.IntVal(code))
                return Opaque("string")
    if op in ("|", "&", "-", "^"):
        a, b = [SSet(v.mem) if isinstance(v, SSeq) and getattr(v, "setlike", False) else v for v in (a, b)]
    if op in ("|", "&", "-", "^") and isinstance(a, (VSet, SSet)) and isinstance(b, (VSet, SSet)):
        if isinstance(a, VSet) and isinstance(b, VSet):
            return VSet({"|": a | b, "&": a & b, "-": a - b, "^": a ^ b}[op])
        ma, mb = mem_of(a), mem_of(b)
        prov = (op, set_id(a), set_id(b))
        it.ctx.__dict__.setdefault("keep", []).extend([a, b, ma, mb])  # ids stay unique
        r = SSet({"|": lambda t: Or(ma(t), mb(t)), "&": lambda t: And(ma(t), mb(t)), "-": lambda t: And(ma(t), Not(mb(t))), "^": lambda t: Not(Iff(ma(t), mb(t)))}[op])
        r.prov = prov
        return r
    if op == "|" and isinstance(a, (VDict, SDict)) and isinstance(b, (VDict, SDict)):
        return dict_update(it, VDict(a) if isinstance(a, VDict) else SDict(a.has, a.get, a.keys), b)
    if op == "|" and isinstance(a, (LibType, Cls, tuple)) or a is None or b is None:
        if isinstance(b, (LibType, Cls, tuple)) or isinstance(a, (LibType, Cls)):
            return Opaque("union type")
        pyraise("TypeError", "unsupported operand type(s) for " + op)
    if op == "%" and isinstance(a, str):
        return Opaque("string")
    if isinstance(a, (VList, tuple, VDict, str, SSeq)) or isinstance(b, (VList, tuple, VDict, str, SSeq)):
        if not (isinstance(a, Opaque) or isinstance(b, Opaque)):
            pyraise("TypeError", "unsupported operand type(s) for " + op)
    raise Unsupported("operator %s on %r and %r" % (op, a, b))


def order(it, op, a, b):
    if isinstance(a, (VSet, SSet)) and isinstance(b, (VSet, SSet)):
        x = z3.Int("el!sub")
        if op in (">", ">="):
            a, b = b, a
        sub = z3.ForAll([x], z(Implies(mem_of(a)(x), mem_of(b)(x))))
        if op in ("<=", ">="):
            return sub
        raise Unsupported("proper subset")
    if isinstance(a, str) and isinstance(b, str):
        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
    if a is None or b is None or isinstance(a, (str, VList, tuple)) != isinstance(b, (str, VList, tuple)):
        pyraise("TypeError", "not comparable")
    raise Unsupported("ordering of %r and %r" % (a, b))


def truth(it, v):
    if isinstance(v, SSet):
        x = z3.Int("el!t")
        return z3.Exists([x], z(v.mem(x)))
    if isinstance(v, SDict):
        if v.keys is not None:
            return z(v.keys.n) > 0
    raise Unsupported("truth value of %r" % (v,))


def contains(it, c, x):
    if isinstance(c, SSet):
        return c.mem(z(x))
    if isinstance(c, SDict):
        return c.has(x)
    if isinstance(c, str):
        if isinstance(x, str):
            return x in c
        if isinstance(x, SStr):
            return Or(*[z(x) == z(d) for d in x.domain if d in c])
    if isinstance(c, (tuple, VList, VSet, VDict, list)):
        es = list(c)
        out = False
        for e in es:
            out = Or(out, True if e is x else it.eq(x, e))
            if out is True:
                return True
        return out
    h = getattr(c, "__pyvc_contains__", None)
    if h is not None:
        return h(it, x)
    if isinstance(c, SSeq):
        mem = getattr(c, "mem", None)
        if mem is not None:
            return mem(x)
        if c.kind == "range":
            if is_int(x):
                return And(z(x) >= z(c.f(0)), z(x) < z(c.f(0)) + z(c.n)) if getattr(c, "step", 1) == 1 else _unsup("range membership")
        i = z3.Int("i!in")
        return z3.Exists([i], z(And(i >= 0, i < z(c.n), it.eq(c.f(i), x))))
    if isinstance(c, SArr) and c.ndim == 1:
        i = z3.Int("i!in")
        return z3.Exists([i], z(And(i >= 0, i < z(c.shape[0]), it.eq(c.get(i), x))))
    if c is None or is_num(c):
        pyraise("TypeError", "argument is not iterable")
    raise Unsupported("membership in %r" % (c,))


def _unsup(m):
    raise Unsupported(m)


def norm_index(it, k, n):
    """index into a sequence of length n, IndexError outside"""
    ctx = it.ctx
    k = zint(k)
    if not is_z3(k) and not is_z3(n):
        if k < -n or k >= n:
            pyraise("IndexError", "index out of range")
        return k + n if k < 0 else k
    if not is_z3(k):
        if k < 0:
            if not ctx.branch(z(n) >= -k):
                pyraise("IndexError", "index out of range")
            return z3.simplify(z(n) + k)
        if not ctx.branch(z(n) > k):
            pyraise("IndexError", "index out of range")
        return k
    if is_float(k):
        pyraise("TypeError", "indices must be integers")
    if ctx.branch(And(k >= 0, k < z(n))):
        return k
    if ctx.branch(And(k < 0, k >= -z(n))):
        return z(n) + k
    pyraise("IndexError", "index out of range")


def slice_bounds(it, s, n):
    """(lo, length) of a step 1 slice"""
    ctx = it.ctx
    if s.step is not None and s.step != 1:
        raise Unsupported("slice step")

    def clamp(v, default):
        if v is None:
            return default
        v = zint(v)
        if not is_z3(v) and not is_z3(n):
            return max(0, min(n, v + n if v < 0 else v))
        if not is_z3(v) and v < 0:
            if ctx.branch(z(n) + v >= 0):
                return z3.simplify(z(n) + v)
            return 0
        if is_z3(v) and ctx.branch(v < 0):
            return z3.If(z(n) + v >= 0, z(n) + v, z3.IntVal(0))
        if not is_z3(v) and v == 0:
            return 0
        if ctx.branch(z(v) <= z(n)):
            return v
        return n

    lo, hi = clamp(s.lo, 0), clamp(s.hi, n)
    if not is_z3(lo) and not is_z3(hi):
        return lo, max(0, hi - lo)
    if not is_z3(lo) and lo == 0:
        return 0, hi
    if ctx.branch(z(lo) <= z(hi)):
        return lo, z3.simplify(z(hi) - z(lo))
    return lo, 0


def getitem(it, o, k):
    ctx = it.ctx
    if isinstance(k, PySlice):
        if isinstance(o, (VList, tuple, str)) and all(x is None or isinstance(intval(x), int) for x in (k.lo, k.hi, k.step)):
            r = o[slice(intval(k.lo), intval(k.hi), intval(k.step))]
            return VList(r) if isinstance(o, VList) else r
        if isinstance(o, (VList, tuple, SSeq)):
            if k.lo is None and k.hi is None and k.step == -1 and isinstance(o, SSeq):
                s = o.snap()
                return SSeq(s.n, lambda i: s.f(z(s.n) - 1 - z(i)))
            o = o.snap() if isinstance(o, SSeq) else o
            lo, m = slice_bounds(it, k, ops.seq_len(o))
            r = SSeq(m, lambda i: ops.seq_get(o, ops.add(ctx, lo, i)))
            if isinstance(o, SSeq) and not is_z3(lo) and lo == 0 and hasattr(o, "mem") and hasattr(o, "index_of"):
                # index_of is the first position
                mem, idx = o.mem, o.index_of
                r.mem = lambda t: And(mem(t), z(idx(t)) < z(m))
                r.index_of = idx
            return r
        raise Unsupported("slice of %r" % (o,))
    if isinstance(o, (VList, tuple, SSeq)):
        if not is_int(k):
            if isinstance(k, (SArr,)) and k.ndim == 0:
                k = k.get()
            else:
                pyraise("TypeError", "list indices must be integers")
        i = norm_index(it, intval(k), ops.seq_len(o))
        return ops.seq_get(o, i)
    if isinstance(o, str):
        if isinstance(intval(k), int):
            i = norm_index(it, intval(k), len(o))
            return o[i]
        i = norm_index(it, k, len(o))
        return ops.seq_get(VList(o), i)
    if isinstance(o, VDict):
        if conc(k):
            if k in o:
                return o[k]
            if not any(is_z3(kk) for kk in o):
                pyraise("KeyError", k)
        if is_z3(k) or isinstance(k, SStr):
            for kk in list(o):
                if conc(kk) and it.ctx.branch(it.eq(k, kk)):
                    return o[kk]
            pyraise("KeyError", k)
        raise Unsupported("dict key %r" % (k,))
    if isinstance(o, SDict):
        if not ctx.branch(z(o.has(k))):
            pyraise("KeyError", k)
        return o.get(k)
    if o is None or is_num(o) or isinstance(o, (Fn, Bound)):
        pyraise("TypeError", "object is not subscriptable")
    if isinstance(o, (LibMod, LibType, Cls)):
        return Opaque("type[...]")
    raise Unsupported("subscript of %r" % (o,))


def setitem(it, o, k, v):
    ctx = it.ctx
    it.write_log(o)
    if isinstance(o, VDict):
        if conc(k):
            o[k] = v
            return
        raise Unsupported("symbolic key in a concrete dict")
    if isinstance(o, SDict):
        has, get = o.has, o.get
        kk = z(k)
        o.has = lambda x: Or(z(x) == kk, has(x))
        o.get = lambda x: ite(z3.simplify(z(x) == kk), v, get(x)) if not z3.is_true(z3.simplify(z(x) == kk)) else v
        if o.keys is not None:
            ks = o.keys
            newk = ctx.branch(z(Not(has(k))))
            if newk:
                o.keys = seq_concat(it, ks, VList([k]))
        return
    if isinstance(o, VList) and not isinstance(k, PySlice):
        i = norm_index(it, intval(k), len(o))
        if not is_z3(i):
            o[i] = v
            return
        for j in range(len(o)):
            o[j] = ite(z(i) == j, v, o[j])
        return
    if isinstance(o, SSeq) and not isinstance(k, PySlice):
        i = norm_index(it, k, o.n)
        f = o.f
        o.f = lambda j: ite(z3.simplify(z(j) == z(i)), v, f(j))
        return
    raise Unsupported("item assignment on %r" % (o,))


def delitem(it, o, k):
    it.write_log(o)
    if isinstance(o, VDict) and conc(k):
        if k not in o:
            pyraise("KeyError", k)
        del o[k]
        return
    if isinstance(o, SDict):
        if not it.ctx.branch(z(o.has(k))):
            pyraise("KeyError", k)
        has, kk = o.has, z(k)
        o.has = lambda x: And(z(x) != kk, has(x))
        o.keys = None
        return
    if isinstance(o, VList) and isinstance(intval(k), int):
        del o[norm_index(it, intval(k), len(o))]
        return
    raise Unsupported("del on %r" % (o,))


# ---------------------------------------------------------------- builtins


def b(name):
    return lib("builtins." + name)


@b("len")
def _len(it, a, k):
    v = a[0]
    if isinstance(v, SSeq):
        return v.n
    if isinstance(v, SArr):
        if v.ndim == 0:
            pyraise("TypeError", "len() of unsized object")
        return v.shape[0]
    if isinstance(v, SSet):
        if v.card is not None:
            return v.card
        return set_card(it, v)
    if isinstance(v, SDict):
        if v.keys is not None:
            return v.keys.n
        h = getattr(v, "length", None)
        if h is not None:
            return h(v)
        return set_card(it, SSet(v.has))
    if isinstance(v, (tuple, list, dict, set, str)):
        return len(v)
    if isinstance(v, Obj):
        m, c = v.cls.lookup("__len__")
        if m is not None:
            return it.call(m, [v])
        pyraise("TypeError", "object has no len()")
    h = getattr(v, "__pyvc_len__", None)
    if h:
        return h(it)
    if v is None or is_num(v):
        pyraise("TypeError", "object has no len()")
    raise Unsupported("len of %r" % (v,))


def set_card(it, s):
    """cardinality of a finite symbolic set: a number >= 0 that is 0 exactly for the empty
    set, 1 exactly for singletons (contracts may add further laws through it.cards)"""
    ctx = it.ctx
    key = ("card",) + (set_id(s),)
    cache = ctx.__dict__.setdefault("set_cards", {})
    if key in cache and not ctx.generics:
        return cache[key][0]
    c, a, b_ = ctx.int("card"), ctx.int("card_a"), ctx.int("card_b")
    mem = s.mem
    x = z3.Int("x!card")
    ctx.define(c >= 0)
    ctx.define(z3.Implies(c >= 1, z(mem(a))))
    ctx.define(z3.Implies(c >= 2, z3.And(z(mem(b_)), a != b_)))
    ctx.define(z3.ForAll([x], z3.Implies(z(mem(x)), z3.And(c >= 1, z3.Implies(c == 1, x == a)))))
    ctx.trust("cardinality of a finite set: 0 iff empty, 1 iff exactly one element")
    cache[key] = (c, s, s.mem)
    it.cards.append((c, mem))
    return c


@b("range")
def _range(it, a, k):
    ctx = it.ctx
    a = [intval(zint(x)) for x in a]
    for x in a:
        if is_float(x) or not is_num(x):
            pyraise("TypeError", "object cannot be interpreted as an integer")
    if len(a) == 1:
        lo, hi, st = 0, a[0], 1
    elif len(a) == 2:
        lo, hi, st = a[0], a[1], 1
    else:
        lo, hi, st = a
    if all(isinstance(x, int) for x in (lo, hi, st)):
        if abs(hi - lo) > 20000:
            raise Unsupported("huge range")
        return tuple(range(lo, hi, st))
    if is_z3(st):
        raise Unsupported("symbolic range step")
    if st > 0:
        d = ops.sub(ctx, hi, lo)
        n = d if st == 1 else (z(d) + (st - 1)) / st
        f = lambda i: ops.add(ctx, lo, ops.mul(ctx, i, st))
    else:
        d = ops.sub(ctx, lo, hi)
        n = d if st == -1 else (z(d) + (-st - 1)) / (-st)
        f = lambda i: ops.sub(ctx, lo, ops.mul(ctx, i, -st))
    n = z3.simplify(z(n))
    if ctx.feasible(n < 0):
        n = z3.If(n > 0, n, z3.IntVal(0))
    s = SSeq(n, f, "range")
    s.step = st
    return s


@b("enumerate")
def _enum(it, a, k):
    start = k.get("start", a[1] if len(a) > 1 else 0)
    vals = it.iterate(a[0])
    if vals is not None:
        return tuple((ops.add(it.ctx, start, i), x) for i, x in enumerate(vals))
    s = it.as_seq(a[0])
    if s is None:
        raise Unsupported("enumerate of %r" % (a[0],))
    if isinstance(s, SSeq):
        o, s = s, s.snap()
        s.mem, s.index_of = getattr(o, "mem", None), getattr(o, "index_of", None)
    r = SSeq(s.n, lambda i: (ops.add(it.ctx, start, i), s.f(i)), "enum")
    r.base = s
    return r


@b("zip")
def _zip(it, a, k):
    if a and isinstance(a[0], StarArg):
        # transposition of a list of tuples
        s = it.as_seq(a[0].v) if len(a) == 1 and not k else None
        t = None if s is None else s.f(z3.Int("probe!zs"))
        if not isinstance(t, tuple):
            raise Unsupported("zip(*symbolic)")
        if not it.ctx.branch(z(s.n) > 0):
            return ()
        s = s.snap()
        cols = getattr(s, "columns", None)
        if cols:
            return tuple(c.snap() for c in cols)
        return tuple((lambda j: SSeq(s.n, lambda i: s.f(i)[j], "tuple"))(j) for j in range(len(t)))
    cs = [it.iterate(x) for x in a]
    if all(c is not None for c in cs):
        return tuple(zip(*cs))
    ss = []
    for x, c in zip(a, cs):
        s = it.as_seq(x) if c is None else SSeq(len(c), (lambda c: lambda i: ops.seq_get(VList(c), i))(c))
        if s is None:
            raise Unsupported("zip of %r" % (x,))
        ss.append(s.snap())
    n = ss[0].n
    for s in ss[1:]:
        if not ops.dim_eq(it.ctx, n, s.n):
            if not it.ctx.branch(z(n) <= z(s.n)):
                n = s.n
    return SSeq(n, lambda i: tuple(s.f(i) for s in ss), "zip")


@b("reversed")
def _rev(it, a, k):
    vals = it.iterate(a[0])
    if vals is not None:
        return tuple(reversed(vals))
    s = it.as_seq(a[0]).snap()
    return SSeq(s.n, lambda i: s.f(z(s.n) - 1 - z(i)))


def _mklist(it, v):
    vals = it.iterate(v)
    if vals is not None:
        return VList(vals)
    s = it.as_seq(v)
    if s is None:
        h = getattr(v, "__pyvc_list__", None)
        if h:
            return h(it)
        raise Unsupported("list of %r" % (v,))
    r = SSeq(s.n, s.f)
    r.mem, r.index_of = getattr(s, "mem", None), getattr(s, "index_of", None)
    return r


def _set_test(name, test, ctor):
    LIB["builtins." + name] = LibType(name, ctor, test)


_set_test("list", lambda it, v: isinstance(v, VList) or isinstance(v, SSeq) and v.kind == "list", lambda it, a, k: _mklist(it, a[0]) if a else VList())


def _mktuple(it, a, k):
    if not a:
        return ()
    vals = it.iterate(a[0])
    if vals is not None:
        return tuple(vals)
    s = it.as_seq(a[0]).snap()
    return SSeq(s.n, s.f, "tuple")


_set_test("tuple", lambda it, v: isinstance(v, tuple) or isinstance(v, SSeq) and v.kind == "tuple", _mktuple)
_set_test("set", lambda it, v: isinstance(v, (VSet, SSet)), lambda it, a, k: make_set(it, a[0]) if a else VSet())
LIB["builtins.frozenset"] = LIB["builtins.set"]


def _mkdict(it, a, k):
    if not a:
        d = VDict(k)
    elif isinstance(a[0], VDict):
        d = VDict(a[0])
    elif isinstance(a[0], SDict):
        return SDict(a[0].has, a[0].get, a[0].keys)
    else:
        h = getattr(a[0], "__pyvc_dict__", None)
        d = h(it) if h else dict_from_pairs(it, a[0])
    for kk, v in k.items():
        d[kk] = v
    return d


_set_test("dict", lambda it, v: isinstance(v, (VDict, SDict)), _mkdict)


def _mkint(it, a, k):
    v = a[0] if a else 0
    if isinstance(v, SArr) and v.ndim == 0:
        v = v.get()
    if isinstance(v, (bool, z3.BoolRef)):
        return zint(v)
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError:
            pyraise("ValueError", "invalid literal")
    if isinstance(v, Fraction):
        return int(v)
    if isinstance(v, int):
        return v
    if is_sym_num(v):
        if v.is_int():
            return v
        t = z3.simplify(v)
        if z3.is_to_real(t):
            return t.arg(0)
        return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
    if isinstance(v, (tuple, VList)) or v is None or isinstance(v, Cx):
        pyraise("TypeError", "int() argument")
    raise Unsupported("int of %r" % (v,))


_set_test("int", lambda it, v: is_int(v), _mkint)


def _mkfloat(it, a, k):
    v = a[0] if a else 0
    if isinstance(v, SArr) and v.ndim == 0:
        v = v.get()
    if is_num(v) and not isinstance(v, Cx):
        return zreal(v)
    raise Unsupported("float of %r" % (v,))


_set_test("float", lambda it, v: is_float(v), _mkfloat)
_set_test("bool", lambda it, v: isinstance(v, (bool, z3.BoolRef)), lambda it, a, k: it.truth(a[0]) if a else False)
_set_test("complex", lambda it, v: isinstance(v, Cx), None)


def _mkstr(it, a, k):
    if isinstance(a[0], (str, SStr)):
        return a[0]
    if isinstance(a[0], int) and not isinstance(a[0], bool):
        return str(a[0])
    r = Opaque("str")
    r.of = a[0]
    return r


_set_test("str", lambda it, v: isinstance(v, (str, SStr)) or getattr(v, "str_like", False) or isinstance(v, Opaque) and v.what in ("fstring", "string", "str"), _mkstr)
LIB["builtins.slice"] = LibType("slice", lambda it, a, k: PySlice(*((None, a[0], None) if len(a) == 1 else (tuple(a) + (None,))[:3])), lambda it, v: isinstance(v, PySlice))
_set_test("type", None, lambda it, a, k: _type_of(it, a[0]))
_set_test("object", lambda it, v: True, None)
LIB["builtins.property"] = LibType("property")
LIB["builtins.staticmethod"] = LibType("staticmethod")
LIB["typing.Callable"] = LibType("Callable", None, lambda it, v: isinstance(v, (Fn, Bound, Builtin, Cls, LibType)) or isinstance(v, Obj) and v.cls.lookup("__call__")[0] is not None or hasattr(v, "__pyvc_call__") or (callable(v) and not is_z3(v)))
for _n in ("Optional", "Union", "Any", "List", "Tuple", "Dict", "Set"):
    LIB["typing." + _n] = LibType(_n)
LIB["abc.ABC"] = LibType("ABC")
LIB["abc.abstractmethod"] = Builtin("abstractmethod", lambda it, a, k: a[0])
LIB["builtins.NotImplemented"] = Opaque("NotImplemented")


def _type_of(it, v):
    if isinstance(v, Obj):
        return v.cls
    for n in ("bool", "int", "float", "str", "list", "tuple", "dict", "set"):
        t = LIB["builtins." + n]
        if t.test(it, v):
            return t
    return Opaque("type")


def isinstance_(it, v, t):
    if isinstance(t, tuple):
        return any(isinstance_(it, v, x) for x in t)
    h = getattr(v, "__pyvc_isinstance__", None)
    if h:
        return h(it, t)
    if isinstance(t, Cls):
        c = getattr(v, "cls", None)
        return isinstance(c, Cls) and c.subclass_of(t)
    if isinstance(t, LibType):
        if t.test is None:
            raise Unsupported("isinstance of %s" % t.name)
        if isinstance(v, Obj) and any(b_ is t for b_ in v.cls.mro()):
            return True
        return bool(t.test(it, v))
    if isinstance(t, Opaque) or isinstance(t, LibMod):
        raise Unsupported("isinstance of %r" % (t,))
    raise Unsupported("isinstance of %r" % (t,))


@b("isinstance")
def _isinst(it, a, k):
    return isinstance_(it, a[0], a[1])


@b("issubclass")
def _issub(it, a, k):
    return a[0].subclass_of(a[1])


@b("callable")
def _callable(it, a, k):
    return bool(LIB["typing.Callable"].test(it, a[0]))


@b("print")
def _print(it, a, k):
    return None


@b("hash")
def _hash(it, a, k):
    return Opaque("hash")


@b("id")
def _id(it, a, k):
    raise Unsupported("id()")


@b("getattr")
def _getattr(it, a, k):
    if not isinstance(a[1], str):
        raise Unsupported("getattr with a symbolic name")
    if len(a) > 2:
        try:
            return it.getattr(a[0], a[1])
        except PyExc as e:
            if e.cls is E["AttributeError"]:
                return a[2]
            raise
    return it.getattr(a[0], a[1])


@b("setattr")
def _setattr(it, a, k):
    it.setattr(a[0], a[1], a[2])


@b("hasattr")
def _hasattr(it, a, k):
    try:
        it.getattr(a[0], a[1])
        return True
    except PyExc as e:
        if e.cls is E["AttributeError"]:
            return False
        raise


@b("abs")
def _abs(it, a, k):
    v = a[0]
    if isinstance(v, SArr):
        return LIB["numpy.abs"].fn(it, a, k)
    if isinstance(v, Cx):
        return ops.sqrt(it.ctx, ops.add(it.ctx, ops.mul(it.ctx, v.re, v.re), ops.mul(it.ctx, v.im, v.im)))
    v = zint(v)
    if not is_z3(v):
        return abs(v)
    return z3.If(v >= 0, v, -v)


@b("round")
def _round(it, a, k):
    if isinstance(a[0], (str, tuple, VList)) or a[0] is None:
        pyraise("TypeError", "type doesn't define __round__ method")
    r = Opaque("rounded")
    r.arg, r.digits = a[0], a[1] if len(a) > 1 else k.get("ndigits")
    return r


@b("sum")
def _sum(it, a, k):
    v = a[0]
    start = a[1] if len(a) > 1 else k.get("start", 0)
    vals = it.iterate(v)
    if vals is not None:
        out = start
        for x in vals:
            out = it.binop("+", out, x)
        return out
    s = it.as_seq(v)
    if s is None:
        raise Unsupported("sum of %r" % (v,))
    s = s.snap()
    x = s.f(z3.Int("sumprobe"))
    if not is_num(x):
        raise Unsupported("sum of a symbolic sequence of non numbers")
    return ops.add(it.ctx, start, it.ctx.sum(s.n, lambda i: zint(s.f(i))))


def _minmax(name, lt):
    @b(name)
    def f(it, a, k):
        ctx = it.ctx
        if "key" in k:
            raise Unsupported(name + " with key")
        if len(a) == 1:
            vals = it.iterate(a[0])
            if vals is None:
                s = it.as_seq(a[0])
                if s is None:
                    h = getattr(a[0], "__pyvc_" + name + "__", None)
                    if h:
                        return h(it, k)
                    raise Unsupported(name)
                s = s.snap()
                if not ctx.branch(z(s.n) > 0):
                    if "default" in k:
                        return k["default"]
                    pyraise("ValueError", name + " of an empty sequence")
                m = ctx.real(name) if is_float(s.f(z3.Int("mmprobe"))) else ctx.int(name)
                i = z3.Int("i!mm")
                w = ctx.int(name + "_at")
                ctx.assume(z3.ForAll([i], Implies(And(i >= 0, i < z(s.n)), z(zint(s.f(i))) <= m if name == "max" else z(zint(s.f(i))) >= m)))
                ctx.assume(And(w >= 0, w < z(s.n), m == z(zint(s.f(w)))))
                return m
        else:
            vals = a
        if not vals:
            if "default" in k:
                return k["default"]
            pyraise("ValueError", name + " of an empty sequence")
        out = vals[0]
        for x in vals[1:]:
            c = it.compare(ast.Lt(), x, out) if name == "min" else it.compare(ast.Gt(), x, out)
            out = ite(it.truth(c), x, out)
        return out

    return f


_minmax("min", True)
_minmax("max", False)


@b("all")
def _all(it, a, k):
    vals = it.iterate(a[0])
    if vals is not None:
        return And(*[it.truth(x) for x in vals])
    s = it.as_seq(a[0])
    if s is None:
        h = getattr(a[0], "__pyvc_all__", None)
        if h:
            return h(it)
        raise Unsupported("all")
    s = s.snap()
    i = z3.Int(it.ctx.uid("i_all"))
    return z3.ForAll([i], z(Implies(And(i >= 0, i < z(s.n)), it.truth(s.f(i)))))


@b("any")
def _any(it, a, k):
    vals = it.iterate(a[0])
    if vals is not None:
        return Or(*[it.truth(x) for x in vals])
    s = it.as_seq(a[0])
    if s is None:
        raise Unsupported("any")
    s = s.snap()
    i = z3.Int(it.ctx.uid("i_any"))
    return z3.Exists([i], z(And(i >= 0, i < z(s.n), it.truth(s.f(i)))))


@b("sorted")
def _sorted(it, a, k):
    vals = it.iterate(a[0])
    if vals is not None and not k and all(isinstance(x, (int, Fraction)) for x in vals):
        return VList(sorted(vals))
    if vals is not None and not k and all(isinstance(x, str) for x in vals):
        return VList(sorted(vals))
    if vals is not None and k.get("reverse") is True and all(isinstance(x, (int, Fraction)) for x in vals):
        return VList(sorted(vals, reverse=True))
    h = getattr(a[0], "__pyvc_sorted__", None)
    if h and not k:
        return h(it)
    if set(k) <= {"reverse"} and isinstance(k.get("reverse", False), bool):
        src = a[0]
        if isinstance(src, SDict):
            src = SSet(src.has)
        if hasattr(src, "__pyvc_iter__"):
            src = it.as_seq(src)
        if isinstance(src, SSet) or isinstance(src, SSeq) and hasattr(src, "mem") and hasattr(src, "index_of"):
            return sorted_set(it, src, k.get("reverse", False))
    raise Unsupported("sorted of %r" % (a[0],))


def sorted_set(it, s, rev):
    """the elements of a finite set of integers (or of a list without repetitions) in order"""
    ctx = it.ctx
    I_ = z3.IntSort()
    n = s.n if isinstance(s, SSeq) else set_card(it, s)
    mem = s.mem
    probe = (z(mem(z3.Int("probe!so"))), z(n))
    cache = ctx.__dict__.setdefault("sorted_sets", {})
    key = (probe[0].get_id(), probe[1].get_id(), bool(rev))
    if key in cache and not cache[key][1]:
        # the same elements in the same order: the same list
        r = it.sorted_keys = _copy_seq(cache[key][0])
        return r
    f, x = ctx.func("sorted", I_, I_), ctx.func("sorted_pos", I_, I_)
    i, j, v = z3.Ints("i!so j!so v!so")
    lt = (lambda p, q: p > q) if rev else (lambda p, q: p < q)
    m = lambda t: z(mem(t))
    ctx.define(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < z(n)), z3.And(m(f(i)), x(f(i)) == i)), patterns=[f(i)]))
    ctx.define(z3.ForAll([v], z3.Implies(m(v), z3.And(x(v) >= 0, x(v) < z(n), f(x(v)) == v)), patterns=[x(v)]))
    ctx.define(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < z(n)), lt(f(i), f(j))), patterns=[multi(f(i), f(j))]))
    ctx.trust("sorted: every element exactly once, in strictly increasing (decreasing) order")
    r = SSeq(n, lambda k: f(z(k)))
    r.mem = mem
    r.index_of = lambda t: x(z(t))
    it.sorted_keys = r
    if key not in cache:
        cache[key] = (_copy_seq(r), len(ctx.generics), probe)
    return r


@b("map")
def _map(it, a, k):
    vals = it.iterate(a[1])
    if vals is not None and len(a) == 2:
        return VList([it.call(a[0], [x]) for x in vals])
    s = it.as_seq(a[1])
    if s is None or len(a) > 2:
        raise Unsupported("map")
    s = s.snap()
    return SSeq(s.n, it.ctx.generic(s.n, lambda q: it.call(a[0], [s.f(q)])))


@b("filter")
def _filter(it, a, k):
    vals = it.iterate(a[1])
    if vals is None:
        raise Unsupported("filter")
    return VList([x for x in vals if it.ctx.branch(it.truth(it.call(a[0], [x])))])


@b("iter")
def _iter(it, a, k):
    return a[0]


@b("next")
def _next(it, a, k):
    vals = it.iterate(a[0])
    if vals is not None and isinstance(a[0], VList) and vals:
        return vals[0]
    raise Unsupported("next")


@b("format")
def _format(it, a, k):
    if isinstance(a[0], int) and isinstance(a[1], str):
        return format(a[0], a[1])
    return format_value(it, a[0], a[1] if len(a) > 1 else "")


def format_value(it, v, spec):
    """binary text of fixed width: the only format the code computes with"""
    ctx = it.ctx
    if isinstance(v, int) and isinstance(spec, str):
        return format(v, spec)
    ps = [spec] if isinstance(spec, str) else getattr(spec, "parts", None)
    if not is_int(v) or ps is None:
        raise Unsupported("format")
    if len(ps) == 3 and ps[0] == "0" and ps[2] == "b":
        w = ps[1]
    elif len(ps) == 1 and ps[0][:1] == "0" and ps[0][-1:] == "b" and ps[0][1:-1].isdigit():
        w = int(ps[0][1:-1])
    else:
        raise Unsupported("format")
    ctx.prove("format: non-negative, fits the width", And(z(v) >= 0, z(v) < ops.pow2(ctx, Max1(w))))
    zero, one = intern_str("0"), intern_str("1")
    return SSeq(Max1(w), lambda i: SStr(z3.If(bit_of(v, i, w), z3.IntVal(one), z3.IntVal(zero)), ("0", "1")), "str")


def Max1(w):
    return max(w, 1) if not is_z3(w) else z3.If(w >= 1, w, z3.IntVal(1))


BIT = z3.Function("binary_digit", z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.BoolSort())


def bit_of(v, i, w):
    """digit i (from the left) of the w-digit binary text of v"""
    return BIT(z(v), z(i), z(w))


@b("vars")
def _vars(it, a, k):
    raise Unsupported("vars")


# ---------------------------------------------------------------- methods


def meth(fn):
    return lambda v: Builtin("method", lambda it, a, k: fn(it, v, a, k))


def _append(it, v, a, k):
    it.write_log(v)
    if isinstance(v, VList):
        list.append(v, a[0])
        return None
    s = seq_concat(it, v, VList([a[0]]))
    n, mem, idx, x = v.n, getattr(v, "mem", None), getattr(v, "index_of", None), a[0]
    v.n, v.f = s.n, s.f
    if mem is not None and is_num(x):
        v.mem = lambda t: Or(mem(t), z(t) == z(x))
        if idx is not None:
            v.index_of = lambda t: z3.If(z(mem(t)), z(idx(t)), z(n))


def _pop(it, v, a, k):
    it.write_log(v)
    if isinstance(v, VList):
        i = intval(a[0]) if a else -1
        if not v:
            pyraise("IndexError", "pop from empty list")
        if is_z3(i):
            raise Unsupported("pop at a symbolic index")
        return list.pop(v, norm_index(it, i, len(v)))
    if not it.ctx.branch(z(v.n) > 0):
        pyraise("IndexError", "pop from empty list")
    n, f = v.n, v.f
    i = intval(a[0]) if a else -1
    if i == -1:
        v.n = z3.simplify(z(n) - 1)
        return f(z3.simplify(z(n) - 1))
    if i == 0:
        v.n = z3.simplify(z(n) - 1)
        v.f = lambda j: f(ops.add(it.ctx, j, 1))
        return f(0)
    raise Unsupported("pop")


def _index(it, v, a, k):
    x = a[0]
    ctx = it.ctx
    if isinstance(v, (VList, tuple)) and len(a) == 1:
        for i, e in enumerate(v):
            if ctx.branch(True if e is x else it.eq(e, x)):
                return i
        pyraise("ValueError", "not in list")
    if len(a) > 2:
        raise Unsupported("index bounds")
    lo = a[1] if len(a) > 1 else 0
    s = mkseq(v)
    h = getattr(v, "index_of", None)
    if h is not None and len(a) == 1:
        if not ctx.branch(z(contains(it, v, x))):
            pyraise("ValueError", "not in list")
        return h(x)
    j = z3.Int("j!ix")
    ex = z3.Exists([j], z(And(j >= z(lo), j < z(s.n), it.eq(s.f(j), x))))
    if not ctx.branch(ex):
        pyraise("ValueError", "not in list")
    i = ctx.int("ix")
    ctx.assume(And(i >= z(lo), i < z(s.n), it.eq(s.f(i), x)))
    ctx.assume(z3.ForAll([j], z(Implies(And(j >= z(lo), j < i), Not(it.eq(s.f(j), x))))))
    return i


def _insert(it, v, a, k):
    if isinstance(v, VList) and isinstance(intval(a[0]), int):
        it.write_log(v)
        list.insert(v, intval(a[0]), a[1])
        return
    raise Unsupported("insert")


def _remove(it, v, a, k):
    if isinstance(v, VList):
        for i, e in enumerate(v):
            if it.ctx.branch(True if e is a[0] else it.eq(e, a[0])):
                it.write_log(v)
                del v[i]
                return
        pyraise("ValueError", "list.remove(x): x not in list")
    h = getattr(v, "filtered", None) if isinstance(v, SSeq) else None
    if h is not None and len(h) == 5 and is_int(a[0]):
        # an increasing enumeration without one of its members enumerates the others
        sel, inv, keep, s, vc = h
        t = z3.Int(it.ctx.uid("t_rm"))
        x = z(zint(a[0]))
        if z3.simplify(z(vc(t))).eq(t):
            if not it.ctx.branch(z3.simplify(z3.And(x >= 0, x < z(s.n), z(keep(x))))):
                pyraise("ValueError", "list.remove(x): x not in list")
            it.write_log(v)
            out = seq_filter(it, s, lambda i: And(keep(i), z(i) != x), None, None)
            v.n, v.f = out.n, out.f
            v.filtered = getattr(out, "filtered", None)
            return
    raise Unsupported("remove")


LISTM = {
    "append": _append,
    "extend": lambda it, v, a, k: (list_extend(it, v, a[0]), None)[1],
    "pop": _pop,
    "index": _index,
    "insert": _insert,
    "remove": _remove,
    "copy": lambda it, v, a, k: VList(v) if isinstance(v, VList) else _copyseq(v),
    "count": lambda it, v, a, k: it.ctx.sum(ops.seq_len(v), lambda i: zint(z(it.eq(ops.seq_get(v, i), a[0])))) if isinstance(v, SSeq) else sum_(it, [zint(it.eq(x, a[0])) for x in v]),
}


def sum_(it, xs):
    out = 0
    for x in xs:
        out = ops.add(it.ctx, out, x)
    return out


def _copyseq(v):
    r = SSeq(v.n, v.f, v.kind)
    r.mem, r.index_of = getattr(v, "mem", None), getattr(v, "index_of", None)
    return r


def _dget(it, v, a, k):
    d = a[1] if len(a) > 1 else None
    x = a[0]
    if isinstance(v, VDict):
        if conc(x):
            return v.get(x, d)
        for kk in v:
            if it.ctx.branch(it.eq(x, kk)):
                return v[kk]
        return d
    h = v.has(x)
    if it.ctx.branch(z(h)):
        return v.get(x)
    return d


def _ditems(it, v, a, k):
    if isinstance(v, VDict):
        return VList([(x, y) for x, y in v.items()])
    ks, get = dict_keys(it, v), v.get
    return SSeq(ks.n, lambda i: (ks.f(i), get(ks.f(i))))


def dict_keys(it, v):
    """the keys in iteration order (arbitrary when the insertion order is not tracked)"""
    if v.keys is not None:
        return v.keys.snap()
    s = SSet(v.has)
    s.prov = ("keys", id(v.has))
    it.ctx.__dict__.setdefault("keep", []).append(v.has)
    return enum_set(it, s)


def _dvalues(it, v, a, k):
    if isinstance(v, VDict):
        return VList(v.values())
    ks, get = dict_keys(it, v), v.get
    return SSeq(ks.n, lambda i: get(ks.f(i)))


def _dkeys(it, v, a, k):
    if isinstance(v, VDict):
        return VList(v.keys())
    if v.keys is None:
        r = SSet(v.has)
        return r
    ks = v.keys.snap()
    ks.mem = v.has
    return ks


def _dupdate(it, v, a, k):
    it.write_log(v)
    if isinstance(v, VDict) and (not a or isinstance(a[0], VDict)):
        if a:
            v.update(a[0])
        v.update(k)
        return
    if isinstance(v, SDict) and isinstance(a[0], (VDict, SDict)):
        s = SDict(v.has, v.get)
        o = to_sdict(a[0])
        v.has = lambda x: Or(s.has(x), o.has(x))
        v.get = lambda x: ite(z(o.has(x)), o.get(x), s.get(x))
        v.keys = None
        return
    raise Unsupported("dict.update")


def _dpop(it, v, a, k):
    if isinstance(v, VDict) and conc(a[0]):
        if a[0] not in v:
            if len(a) > 1:
                return a[1]
            pyraise("KeyError", a[0])
        it.write_log(v)
        return dict.pop(v, a[0])
    raise Unsupported("dict.pop")


def _dsetdefault(it, v, a, k):
    if isinstance(v, VDict) and conc(a[0]):
        it.write_log(v)
        return v.setdefault(a[0], a[1] if len(a) > 1 else None)
    raise Unsupported("setdefault")


DICTM = {
    "get": _dget,
    "items": _ditems,
    "values": _dvalues,
    "keys": _dkeys,
    "update": _dupdate,
    "pop": _dpop,
    "setdefault": _dsetdefault,
    "copy": lambda it, v, a, k: VDict(v) if isinstance(v, VDict) else SDict(v.has, v.get, v.keys),
}


def _sadd(it, v, a, k):
    it.write_log(v)
    if isinstance(v, VSet):
        if conc(a[0]):
            set.add(v, a[0])
            return
        raise Unsupported("symbolic element added to a concrete set")
    mem, x = v.mem, z(a[0])
    v.mem = lambda t: Or(z(t) == x, mem(t))
    v.card = v.prov = None


def _sremove(it, v, a, k, strict=True):
    it.write_log(v)
    if isinstance(v, VSet) and conc(a[0]):
        if a[0] not in v and strict:
            pyraise("KeyError", a[0])
        set.discard(v, a[0])
        return
    if isinstance(v, SSet):
        mem, x = v.mem, z(a[0])
        if strict and not it.ctx.branch(z(mem(x))):
            pyraise("KeyError", a[0])
        v.mem = lambda t: And(z(t) != x, mem(t))
        v.card = v.prov = None
        return
    raise Unsupported("set remove")


def _spop(it, v, a, k):
    if isinstance(v, SSet):
        x = z3.Int("el!pop")
        if not it.ctx.branch(z3.Exists([x], z(v.mem(x)))):
            pyraise("KeyError", "pop from an empty set")
        e = it.ctx.int("popped")
        it.ctx.assume(v.mem(e))
        mem = v.mem
        it.write_log(v)
        v.mem = lambda t: And(z(t) != e, mem(t))
        v.card = v.prov = None
        return e
    if isinstance(v, VSet) and len(v) == 1:
        it.write_log(v)
        return set.pop(v)
    raise Unsupported("set.pop")


SETM = {
    "add": _sadd,
    "remove": _sremove,
    "discard": lambda it, v, a, k: _sremove(it, v, a, k, False),
    "pop": _spop,
    "union": lambda it, v, a, k: _fold(it, "|", v, a),
    "intersection": lambda it, v, a, k: _fold(it, "&", v, a),
    "difference": lambda it, v, a, k: _fold(it, "-", v, a),
    "symmetric_difference": lambda it, v, a, k: _fold(it, "^", v, a),
    "copy": lambda it, v, a, k: VSet(v) if isinstance(v, VSet) else SSet(v.mem, v.card, v.elem),
    "issubset": lambda it, v, a, k: order(it, "<=", v, make_set(it, a[0]) if not isinstance(a[0], (VSet, SSet)) else a[0]),
    "update": lambda it, v, a, k: _supdate(it, v, a),
}


def _supdate(it, v, a):
    it.write_log(v)
    for o in a:
        o = o if isinstance(o, (VSet, SSet)) else make_set(it, o)
        if isinstance(v, VSet) and isinstance(o, VSet):
            set.update(v, o)
        elif isinstance(v, SSet):
            m, mo = v.mem, mem_of(o)
            v.mem = (lambda m, mo: lambda t: Or(m(t), mo(t)))(m, mo)
            v.card = v.prov = None
        else:
            raise Unsupported("set.update")


def _fold(it, op, v, a):
    for o in a:
        v = binop(it, op, v, o if isinstance(o, (VSet, SSet)) else make_set(it, o))
    return v


def _strm(it, v, name):
    def f(it, a, k):
        a2 = [list(it.iterate(x)) if isinstance(x, (VList, tuple)) else x for x in a]
        if all(isinstance(x, (str, int)) or isinstance(x, list) and all(isinstance(y, str) for y in x) for x in a2):
            try:
                r = getattr(v, name)(*a2)
            except TypeError:
                pyraise("TypeError")
            except ValueError:
                pyraise("ValueError")
            return VList(r) if isinstance(r, list) else r
        if name == "join" and len(v) == 1 and len(a) == 1:
            from . import lib_str

            try:
                return lib_str.join(it, v, a[0])
            except Unsupported:
                pass
        if name in ("join", "format"):
            r = Opaque("string")
            return r
        raise Unsupported("str.%s" % name)

    return Builtin("str." + name, f)


@hostattr
def _hattr(it, v, name):
    if isinstance(v, (VList, SSeq)) and name in LISTM:
        return Builtin("list." + name, lambda it_, a, k: LISTM[name](it_, v, a, k))
    if isinstance(v, tuple) and name in ("index", "count"):
        return Builtin("tuple." + name, lambda it_, a, k: LISTM[name](it_, v, a, k))
    if isinstance(v, (VDict, SDict)) and name in DICTM:
        return Builtin("dict." + name, lambda it_, a, k: DICTM[name](it_, v, a, k))
    if isinstance(v, (VSet, SSet)) and name in SETM:
        return Builtin("set." + name, lambda it_, a, k: SETM[name](it_, v, a, k))
    if isinstance(v, str) and hasattr(str, name):
        return _strm(it, v, name)
    if isinstance(v, SStr):
        if name in ("upper", "lower", "strip"):
            def f(it_, a, k):
                dom = [getattr(d, name)() for d in v.domain]
                out = z(dom[-1])
                for d, u in zip(v.domain[:-1], dom[:-1]):
                    out = z3.If(v.code == z(d), z(u), out)
                return SStr(z3.simplify(out), list(dict.fromkeys(dom)))
            return Builtin("str." + name, f)
    if isinstance(v, FieldsDict):
        if name == "items":
            return Builtin("items", lambda it_, a, k: VList(v.obj.fields.items()))
    return NotImplemented


# ---------------------------------------------------------------- standard library


@lib("copy.deepcopy")
def _deepcopy(it, a, k):
    return deepcopy(it, a[0], {})


@lib("copy.copy")
def _copy(it, a, k):
    v = a[0]
    if isinstance(v, Obj):
        o = Obj(v.cls)
        o.fields = dict(v.fields)
        return o
    return deepcopy(it, v, {}) if not isinstance(v, (VList, VDict)) else type(v)(v)


def deepcopy(it, v, memo):
    if v is None or is_num(v) or isinstance(v, (str, SStr, Fn, Cls, Builtin, LibMod, LibType, Opaque)):
        return v
    if id(v) in memo:
        return memo[id(v)][0]
    if isinstance(v, tuple):
        return tuple(deepcopy(it, x, memo) for x in v)
    if isinstance(v, VList):
        r = VList()
        memo[id(v)] = (r, v)
        r.extend(deepcopy(it, x, memo) for x in v)
        return r
    if isinstance(v, VDict):
        r = VDict()
        memo[id(v)] = (r, v)
        for x, y in v.items():
            r[x] = deepcopy(it, y, memo)
        return r
    if isinstance(v, VSet):
        return VSet(v)
    if isinstance(v, SSet):
        return SSet(v.mem, v.card, v.elem)
    if isinstance(v, SArr):
        return v.copy()
    if isinstance(v, SSeq):
        return v.snap()
    if isinstance(v, Obj):
        r = Obj(v.cls)
        memo[id(v)] = (r, v)
        for x, y in v.fields.items():
            r.fields[x] = deepcopy(it, y, memo)
        return r
    h = getattr(v, "__pyvc_deepcopy__", None)
    if h:
        return h(it, memo)
    raise Unsupported("deepcopy of %r" % (v,))


@lib("functools.reduce")
def _reduce(it, a, k):
    vals = it.iterate(a[1])
    if vals is None:
        raise Unsupported("reduce over a symbolic sequence")
    vals = list(vals)
    if len(a) > 2:
        acc = a[2]
    else:
        if not vals:
            pyraise("TypeError", "reduce() of empty iterable")
        acc = vals.pop(0)
    for x in vals:
        acc = it.call(a[0], [acc, x])
    return acc


LIB["functools.cached_property"] = LibType("cached_property")


@lib("itertools.product")
def _product(it, a, k):
    import itertools

    vs = [it.iterate(x) for x in a]
    rep = intval(k.get("repeat", 1))
    if any(v is None for v in vs) or is_z3(rep):
        raise Unsupported("itertools.product of symbolic arguments")
    return tuple(itertools.product(*vs, repeat=rep))


@lib("itertools.combinations")
def _comb(it, a, k):
    import itertools

    v, r = it.iterate(a[0]), intval(a[1])
    if v is None and isinstance(it.as_seq(a[0]), SSeq):
        # only what every combination satisfies: r increasing positions of the list
        ctx = it.ctx
        s, r = it.as_seq(a[0]).snap(), z(r)
        n = ctx.int("combinations_n")
        f = ctx.func("combination", z3.IntSort(), z3.IntSort(), z3.IntSort())
        t, u, w = z3.Ints("t!cb u!cb w!cb")
        ctx.assume(n >= 0)
        ctx.define(z3.ForAll([t, u], z3.Implies(z3.And(t >= 0, t < n, u >= 0, u < r), z3.And(f(t, u) >= 0, f(t, u) < z(s.n))), patterns=[f(t, u)]))
        ctx.define(z3.ForAll([t, u, w], z3.Implies(z3.And(t >= 0, t < n, u >= 0, u < w, w < r), f(t, u) < f(t, w)), patterns=[multi(f(t, u), f(t, w))]))
        ctx.trust("itertools.combinations(s, r) yields tuples of elements of s at r increasing positions")
        out = SSeq(n, lambda i: SSeq(r, lambda j: s.f(f(z(i), z(j))), "tuple"))
        out.combination = f
        return out
    if v is None or is_z3(r):
        raise Unsupported("combinations of symbolic arguments")
    return tuple(itertools.combinations(v, r))


@lib("warnings.warn")
def _warn(it, a, k):
    return None


@lib("math.prod")
def _prod(it, a, k):
    vals = it.iterate(a[0])
    if vals is None:
        raise Unsupported("math.prod")
    out = 1
    for x in vals:
        out = it.binop("*", out, x)
    return out


LIB["math.pi"] = None


@lib("math.log2")
def _mlog2(it, a, k):
    return LIB["numpy.log2"].fn(it, a, k)


@lib("math.sqrt")
def _msqrt(it, a, k):
    return ops.sqrt(it.ctx, a[0])
