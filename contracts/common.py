"""helpers shared by the contracts"""
import os
import sys

import z3

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pyvc import lib_numpy, lib_py, lib_str, lib_nx, lib_gf, ops
from pyvc.core import *
from pyvc.core import multi
from pyvc.interp import *
from pyvc.interp import LIB
from pyvc.ops import E, Exc, pyraise
from pyvc.spec import Inv, prove_eq, rng

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()


def carr(it, name, *shape):
    """arbitrary complex array"""
    n = len(shape)
    re, im = it.ctx.func(name + "_re", *([I] * n), R), it.ctx.func(name + "_im", *([I] * n), R)
    return SArr(shape, lambda *i: Cx(re(*i), im(*i)), "c")


def rarr(it, name, *shape):
    f = it.ctx.func(name, *([I] * len(shape)), R)
    return SArr(shape, f, "f")


def iarr(it, name, *shape):
    f = it.ctx.func(name, *([I] * len(shape)), I)
    return SArr(shape, f, "i")


def raises(it, thunk, exc):
    """thunk must raise the named builtin exception (or a subclass); returns nothing"""
    try:
        thunk()
    except PyExc as e:
        return isinstance(e.cls, Exc) and e.cls.subclass_of(E[exc]) or getattr(e.cls, "name", "") == exc
    return False


def must_raise(it, name, thunk, exc):
    excs = exc if isinstance(exc, tuple) else (exc,)
    try:
        thunk()
    except PyExc as e:
        ok = any(isinstance(e.cls, Exc) and e.cls.subclass_of(E[x]) or getattr(e.cls, "name", "") == x for x in excs)
        it.ctx.prove(name, ok)
        return
    it.ctx.prove(name, False)


def induct(it, name, stmt, args, pattern=None, ih=None, facts=None):
    """lemma by induction on k >= 0: stmt(k, *vars); args = [(name, sort)].
    Base and step are obligations; the statement is assumed afterwards for all k."""
    ctx = it.ctx
    vs = [ctx.fresh(n, s) for n, s in args]
    base = len(ctx.facts)
    saved_facts = list(ctx.facts)
    ctx.feas.push()
    ctx.prove(name + "/base", stmt(0, *vs), assume=False)
    k = ctx.int("ind")
    ctx.assume(k >= 0)
    if ih is None:
        qs = [z3.Const(ctx.uid(n + "_q"), s) for n, s in args]
        ctx.assume(z3.ForAll(qs, z(stmt(k, *qs))) if qs else z(stmt(k)))
    else:
        for inst in ih(k, *vs):
            ctx.assume(stmt(k, *inst))
    ctx.prove(name + "/step", stmt(z3.simplify(k + 1), *vs), assume=False)
    ctx.feas.pop()
    ctx.facts = saved_facts
    qs = [z3.Const(ctx.uid(n + "_l"), s) for n, s in args]
    kk = z3.Int(ctx.uid("k_l"))

    def use(k_, *a):
        """instance of the lemma"""
        ctx.assume(Implies(z(k_) >= 0, stmt(k_, *a)))

    return use


def sum_single(it, name, s, c0):
    """generator lemma: a sum whose summands vanish except at c0 equals the summand at c0"""
    ctx = it.ctx
    if isinstance(s, Cx):
        sum_single(it, name + ".re", s.re, c0)
        sum_single(it, name + ".im", s.im, c0)
        return
    t = ctx.sum_terms.get(z(s).get_id())
    if t is None:
        raise Unsupported("sum_single: not a sum term")
    t, n, body, q = t
    k = ctx.int("k")
    ctx.prove(name + "/in-range", rng(c0, n))
    ctx.prove(name + "/other-terms-vanish", Implies(And(rng(k, n), k != z(c0)), z3.substitute(body, (q, k)) == 0), assume=False)
    ctx.assume(t == z3.substitute(body, (q, z(c0))))
    ctx.trust("sum lemma: a finite sum with at most one non-zero term is that term (induction over the partial sums)")


def units_of(pid):
    import importlib

    return importlib.import_module("contracts." + pid.lower()).UNITS


def make_interp(ctx):
    return Interp(ctx)


class AnyDomain:
    def __contains__(self, x):
        return True

    def __iter__(self):
        return iter(())


class AnyStr(SStr):
    """an arbitrary string; its upper-case form is another arbitrary string"""

    def __init__(self, it, name, upper=True):
        SStr.__init__(self, it.ctx.int(name), ())
        self.domain = AnyDomain()
        self.up = AnyStr(it, name + "_upper", False) if upper else None

    def __pyvc_getattr__(self, it, name):
        if name == "upper" and self.up is not None:
            return Builtin("str.upper", lambda it_, a, k: self.up)
        raise Unsupported("method %s of an arbitrary string" % name)


class HostFn:
    """an arbitrary pure callable of the program under test"""

    def __init__(self, f):
        self.f = f

    def __pyvc_call__(self, it, args, kwargs):
        return self.f(it, args, kwargs)


def attempt(it, thunk):
    """('val', v) or ('exc', name)"""
    try:
        return "val", thunk()
    except PyExc as e:
        if it.ctx.contradictory():
            raise StopPath()
        return "exc", getattr(e.cls, "name", str(e.cls))


def unwritten(it, name, objs, thunk):
    """run thunk, then: none of the objects was written"""
    saved = it.log
    it.log = []
    try:
        return thunk()
    finally:
        log, it.log = it.log, saved
        if saved is not None:
            saved.extend(log)
        it.ctx.prove(name, not any(o is w for w, f in log for o in objs))


def sublist(it, name, g, distinct=True):
    """an arbitrary list of distinct nodes of the graph"""
    ctx = it.ctx
    n = ctx.int(name + "_n")
    ctx.assume(n >= 0)
    f, x, mem = ctx.func(name, I, I), ctx.func(name + "_at", I, I), ctx.func(name + "_has", I, B)
    i, v = z3.Ints("i!l v!l")
    ctx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(mem(f(i)), x(f(i)) == i, g.isnode(f(i)))), patterns=[f(i)]))
    ctx.assume(z3.ForAll([v], z3.Implies(mem(v), z3.And(x(v) >= 0, x(v) < n, f(x(v)) == v)), patterns=[mem(v)]))
    s = SSeq(n, lambda k: f(z(k)))
    s.mem = lambda t: mem(z(t))
    s.index_of = lambda t: x(z(t))
    return s


class Filtered:
    """the list [elem(i) for i in range(n) if pred(i)], through its prefixes: cnt(k) = number of
    i < k with pred(i), at(q) = the q-th such i"""

    def __init__(self, it, name, n, pred, elem):
        ctx = self.ctx = it.ctx
        self.n, self.pred, self.elem = n, pred, elem
        cnt, at = self.cnt, self.at = ctx.func(name + "_cnt", I, I), ctx.func(name + "_at", I, I)
        i, q = z3.Ints("i!fi q!fi")
        ctx.define(cnt(0) == 0)
        ctx.define(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i <= z(n)), z3.And(cnt(i) >= 0, cnt(i) <= i, cnt(i) <= cnt(z(n)))), patterns=[cnt(i)]))
        ctx.define(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < z(n), z(pred(i))), z3.And(at(cnt(i)) == i, cnt(i) < cnt(z(n)))), patterns=[cnt(i)]))
        ctx.define(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < cnt(z(n))), z3.And(at(q) >= 0, at(q) < z(n), z(pred(at(q))), cnt(at(q)) == q)), patterns=[at(q)]))
        ctx.define(z3.ForAll([i, q], z3.Implies(z3.And(i >= 0, i < q, q < cnt(z(n))), at(i) < at(q)), patterns=[multi(at(i), at(q))]))
        ctx.trust("filtered lists: the kept indices are enumerated in order by their rank (definition by recursion over the prefix)")

    def step(self, k):
        k = z(k)
        self.ctx.define(z3.Implies(k >= 0, self.cnt(z3.simplify(k + 1)) == self.cnt(k) + z3.If(z(self.pred(k)), 1, 0)))

    def upto(self, k):
        return SSeq(self.cnt(z(k)), lambda q: self.elem(self.at(z(q))))
