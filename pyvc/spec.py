"""annotations: loop invariants and structural equality obligations"""
import ast

import z3

from . import ops
from .core import *
from .interp import *
from .interp import LIB, POISON
from . import lib_py, lib_numpy


def rng(i, n):
    return And(z(i) >= 0, z(i) < z(n))


def prove_eq(it, name, a, b, timeout=None):
    """obligation(s): the two values are equal, for every entry / element"""
    ctx = it.ctx
    if a is b and not isinstance(a, (SArr, SSeq)):
        return ctx.prove(name, True)
    if isinstance(a, SArr) or isinstance(b, SArr):
        if not isinstance(a, SArr) or not isinstance(b, SArr) or a.ndim != b.ndim:
            return ctx.prove(name + "/array-rank", False)
        ok = True
        for d, (p, q) in enumerate(zip(a.shape, b.shape)):
            ok = ctx.prove("%s/shape%d" % (name, d), compare_eq(ctx, p, q)) and ok
        if ok and all(not is_z3(d) for d in a.shape):
            import itertools
            import math

            if math.prod(a.shape) <= 16:
                return all([prove_eq(it, "%s/entry%s" % (name, list(i)), a.get(*i), b.get(*i), timeout) for i in itertools.product(*[range(d) for d in a.shape])] + [True])
        idx = [ctx.int("e%d" % d) for d in range(a.ndim)]
        if not ok:
            return False
        with ctx.scope(And(*[rng(i, n) for i, n in zip(idx, a.shape)])):
            if ctx.feasible(z3.BoolVal(True)):
                ok = prove_eq(it, name + "/entry", a.get(*idx), b.get(*idx), timeout)
        return ok
    if isinstance(a, (SSeq, VList, tuple)) and isinstance(b, (SSeq, VList, tuple)):
        if isinstance(a, (VList, tuple)) and isinstance(b, (VList, tuple)):
            if len(a) != len(b):
                return ctx.prove(name + "/length", False)
            return all([prove_eq(it, "%s[%d]" % (name, i), x, y, timeout) for i, (x, y) in enumerate(zip(a, b))] or [ctx.prove(name + "/length", True)])
        n, m = ops.seq_len(a), ops.seq_len(b)
        ok = ctx.prove(name + "/length", compare_eq(ctx, n, m))
        for x in (a, b):
            if not is_z3(ops.seq_len(x)) and ops.seq_len(x) == 0:
                return ok
        i = ctx.int("el")
        with ctx.scope(And(rng(i, n), rng(i, m))):
            if ctx.feasible(z3.BoolVal(True)):
                ok = prove_eq(it, name + "/item", ops.seq_get(a, i), ops.seq_get(b, i), timeout) and ok
        return ok
    if isinstance(a, (SSet, VSet)) and isinstance(b, (SSet, VSet)):
        x = ctx.int("m")
        return ctx.prove(name + "/members", Iff(lib_py.mem_of(a)(x), lib_py.mem_of(b)(x)), timeout=timeout)
    if isinstance(a, (SDict, VDict)) and isinstance(b, (SDict, VDict)) and (isinstance(a, SDict) or isinstance(b, SDict)):
        a, b = lib_py.to_sdict(a), lib_py.to_sdict(b)
        x = ctx.int("key")
        ok = ctx.prove(name + "/keys", Iff(a.has(x), b.has(x)), timeout=timeout)
        with ctx.scope(a.has(x)):
            if ctx.feasible(z3.BoolVal(True)):
                ok = prove_eq(it, name + "/value", a.get(x), b.get(x), timeout) and ok
        return ok
    if is_num(a) and is_num(b):
        if isinstance(a, Cx) or isinstance(b, Cx):
            a, b = to_cx(a), to_cx(b)
            r = ctx.prove(name + ".re", compare_eq(ctx, a.re, b.re), timeout=timeout)
            return ctx.prove(name + ".im", compare_eq(ctx, a.im, b.im), timeout=timeout) and r
        if isinstance(a, (bool, z3.BoolRef)) != isinstance(b, (bool, z3.BoolRef)):
            a, b = zint(a), zint(b)
        return ctx.prove(name, compare_eq(ctx, a, b), timeout=timeout)
    if a is None or b is None:
        return ctx.prove(name, a is None and b is None)
    return ctx.prove(name, it.eq(a, b), timeout=timeout)


def compare_eq(ctx, a, b):
    return ops.compare(ctx, "==", a, b)


def same_kind(a, b):
    """havoc template check: the value has the shape the template fixes"""


class Inv:
    """loop invariant.

    exact   {name: fn(L, k)}      value of the variable after k iterations
    fresh   {name: fn(L, k)}      havocked value (its shape is part of the invariant)
    inv     fn(L, k) -> formulas over the current values
    frame   names of further objects the body may write (their content is havocked by
            fn(L,k) given in `exact`/`fresh`)
    """

    def __init__(self, kind="for", exact=None, fresh=None, inv=None, bind=None, on_break=None, on_exit=None, enter=None, pre=None, lemma=None, name=None, rebind=(), loose=()):
        self.rebind = rebind
        self.loose = loose  # an integer array may stand for the real one (never written in place)
        self.kind = kind
        self.exact = exact or {}
        self.fresh = fresh or {}
        self.inv = inv
        self._bind = bind
        self._break = on_break
        self._exit = on_exit
        self._enter = enter
        self.lemma = lemma
        self.pre = pre

    # names may be "x" or "self.field"
    def cur(self, L, name):
        if "." in name:
            o, f = name.split(".")
            return L.it.getattr(L.v(o), f)
        return L.v(name)

    def bind(self, L):
        for name in list(self.exact) + list(self.fresh):
            if "." in name:
                L.snap[name] = _snap(self.cur(L, name))
        if self._bind:
            self._bind(L)

    def check(self, L, k, phase):
        if self.lemma:
            self.lemma(L, k, phase)
        w = "%s/%s" % (L.where, phase)
        for name, fn in self.exact.items():
            prove_eq(L.it, "%s:%s" % (w, name), self.cur(L, name), fn(L, k))
        for name, fn in self.fresh.items():
            self.conform(L, "%s:%s" % (w, name), self.cur(L, name), fn(L, k))
        if self.inv:
            for i, f in enumerate(_flat(self.inv(L, k))):
                nm = "inv%d" % i
                if isinstance(f, tuple):
                    nm, f = f
                L.ctx.prove("%s:%s" % (w, nm), f)

    def conform(self, L, name, a, t):
        ctx = L.ctx
        if isinstance(t, SArr):
            if not isinstance(a, SArr) or a.ndim != t.ndim or a.dtype != t.dtype and not (name.split(":")[-1] in self.loose and (a.dtype, t.dtype) == ("i", "f")):
                raise Unsupported("invariant of %s expects an array" % name)
            for d, (p, q) in enumerate(zip(a.shape, t.shape)):
                ctx.prove("%s/shape%d" % (name, d), compare_eq(ctx, p, q))
        elif isinstance(t, SSeq):
            if not isinstance(a, (SSeq, VList, tuple)):
                raise Unsupported("invariant of %s expects a list" % name)
        elif isinstance(t, (SSet,)):
            if not isinstance(a, (SSet, VSet)):
                raise Unsupported("invariant of %s expects a set" % name)
        elif isinstance(t, (bool, z3.BoolRef)):
            if not isinstance(a, (bool, z3.BoolRef)):
                raise Unsupported("invariant of %s expects a bool" % name)
        elif is_num(t):
            if not is_num(a) or is_float(a) and not is_float(t):
                raise Unsupported("invariant of %s expects a number" % name)

    def havoc(self, L, k):
        for name, fn in list(self.exact.items()) + list(self.fresh.items()):
            put(L, name, fn(L, k), name in self.rebind)
        if self.inv:
            for f in _flat(self.inv(L, k)):
                if isinstance(f, tuple):
                    f = f[1]
                L.ctx.assume(f)

    def enter(self, L, k):
        if self._enter:
            self._enter(L, k)

    def on_break(self, L, k):
        if self._break:
            self._break(L, k)

    def on_exit(self, L, n):
        if self._exit:
            self._exit(L, n)


def _flat(x):
    if x is None:
        return []
    if isinstance(x, list):
        out = []
        for y in x:
            out.extend(_flat(y))
        return out
    return [x]


def _snap(v):
    if isinstance(v, SArr):
        return v.copy()
    if isinstance(v, SSeq):
        return v.snap()
    if isinstance(v, VList):
        return VList(v)
    return v


def put(L, name, val, rebind=False):
    """install the havocked value, keeping object identity where the body mutates in place"""
    if "." in name:
        o, f = name.split(".")
        obj = L.v(o)
        cur = obj.fields.get(f)
        if isinstance(cur, SArr) and isinstance(val, SArr) and cur.base is None:
            cur._f = val.snap()
            L.covered.append(cur)
        obj.fields[f] = val
        L.covered.append((obj, f))
        return
    fr = L.fr
    f = fr
    while f is not None and name not in f.vars:
        f = f.parent
    if f is None:
        raise Unsupported("invariant names %s" % name)
    cur = f.vars[name]
    if rebind and name in L.assigned:
        # the body never writes to the object the name is bound to (check_frame enforces it)
        L.carried.add(name)
        f.vars[name] = val if not isinstance(val, (SArr, SSeq)) else _snap(val)
        L.guarded.append(f.vars[name])
        return
    if name in L.assigned:
        L.carried.add(name)
        f.vars[name] = val if not isinstance(val, (SArr, SSeq)) else _snap(val)
        if not isinstance(cur, (SArr, SSeq)):
            return
    if isinstance(cur, SArr) and isinstance(val, SArr):
        if name in L.assigned and not _mutates(L, name):
            return
        if cur.base is not None:
            raise Unsupported("loop updates a view in place")
        cur._f = val.snap()
        cur.shape = val.shape
        L.covered.append(cur)
        if name in L.assigned:
            f.vars[name] = cur
        return
    if isinstance(cur, SSeq) and isinstance(val, SSeq):
        if name in L.assigned and not _mutates(L, name):
            return
        cur.n, cur.f = val.n, val.f
        if getattr(val, "mem", None) is not None:
            cur.mem = val.mem
        elif hasattr(cur, "mem"):
            del cur.mem
        L.covered.append(cur)
        if name in L.assigned:
            f.vars[name] = cur
        return
    if isinstance(cur, SSet) and isinstance(val, SSet):
        cur.mem, cur.card = val.mem, val.card
        L.covered.append(cur)
        return
    if isinstance(cur, SDict) and isinstance(val, SDict):
        cur.has, cur.get, cur.keys = val.has, val.get, val.keys
        L.covered.append(cur)
        return
    if isinstance(cur, (VList, VDict, VSet)):
        # a list built in this function and not shared: replaced by its symbolic version
        if cur.born <= f.born:
            raise Unsupported("loop grows a caller's list %s" % name)
        _unshared(L, cur, name, f)
        new = _snap(val)
        f.vars[name] = new
        L.covered.append(new)
        return
    if name not in L.assigned:
        raise Unsupported("invariant havocs %s, which the loop does not assign" % name)


def _mutates(L, name):
    """does the body also write through the name (x[i] = .., x.append(..)) ?"""
    for n in ast.walk(ast.Module(body=L.st.body, type_ignores=[])):
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == name:
            return True
        if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == name:
            return True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == name:
            return True
    return False


def _unshared(L, obj, name, frame):
    seen = set()

    def walk(v, path):
        if id(v) in seen:
            return
        seen.add(id(v))
        if v is obj:
            raise Unsupported("list %s is shared" % name)
        if isinstance(v, (list, tuple)):
            for x in v:
                walk(x, path)
        elif isinstance(v, dict):
            for x in v.values():
                walk(x, path)
        elif isinstance(v, Obj):
            for x in v.fields.values():
                walk(x, path)

    f = L.fr
    while f is not None:
        for k, v in f.vars.items():
            if f is frame and k == name:
                continue
            walk(v, k)
        f = f.parent
