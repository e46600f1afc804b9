"""pyvc core: proof context, path exploration, obligations, symbolic values.

A *unit* is one contract obligation set for one function of /repo.  Its body is run by
re-execution: every undecided branch condition is a decision; all decision sequences are
explored, so a unit is a proof for all inputs that satisfy the assumed precondition.
"""
import os
import subprocess
import tempfile
import time
import traceback
from fractions import Fraction

import contextlib
import z3

z3.set_param("smt.random_seed", 0)


class Unsupported(Exception):
    """The construct is outside the verified subset: the function is demoted."""


class StopPath(Exception):
    """This path is finished (loop preservation branch, contradictory assumption)."""


class PathLimit(Unsupported):
    pass


class PyExc(Exception):
    """An exception of the interpreted program."""

    def __init__(self, cls, args=(), value=None):
        Exception.__init__(self, cls, args)
        self.cls = cls
        self.eargs = args
        self.value = value

    def __str__(self):
        return "%s%r" % (getattr(self.cls, "name", self.cls), tuple(str(a)[:80] for a in self.eargs))


# ---------------------------------------------------------------- scalars


def is_z3(v):
    return isinstance(v, z3.ExprRef)


def is_sym_bool(v):
    return isinstance(v, z3.BoolRef)


def is_sym_num(v):
    return isinstance(v, z3.ArithRef)


class Cx:
    """complex number re + i im, components int / Fraction / z3"""

    __slots__ = ("re", "im")

    def __init__(self, re, im):
        self.re = re
        self.im = im

    def __repr__(self):
        return "Cx(%s,%s)" % (self.re, self.im)


def is_num(v):
    return isinstance(v, (bool, int, Fraction, Cx, z3.ArithRef, z3.BoolRef))


def is_float(v):
    return isinstance(v, Fraction) or (is_sym_num(v) and v.is_real())


def is_int(v):
    return (isinstance(v, int)) or (is_sym_num(v) and v.is_int()) or is_sym_bool(v)


def z(v):
    """scalar -> z3 expression"""
    if is_z3(v):
        return v
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, Fraction):
        return z3.RealVal(str(v))
    if isinstance(v, SStr):
        return v.code
    if isinstance(v, str):
        return z3.IntVal(intern_str(v))
    raise Unsupported("not a scalar: %r" % (type(v),))


def zint(v):
    """bool/int -> int-like"""
    if isinstance(v, bool):
        return int(v)
    if is_sym_bool(v):
        return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    return v


def zreal(v):
    v = zint(v)
    if isinstance(v, int):
        return Fraction(v)
    if is_sym_num(v) and v.is_int():
        return z3.ToReal(v)
    return v


def zbool(v):
    if isinstance(v, bool):
        return v
    if is_sym_bool(v):
        return v
    raise Unsupported("not a bool: %r" % (v,))


def And(*cs):
    out = []
    for c in cs:
        if isinstance(c, (list, tuple)):
            c = And(*c)
        if c is True:
            continue
        if c is False:
            return False
        out.append(c)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def Or(*cs):
    out = []
    for c in cs:
        if isinstance(c, (list, tuple)):
            c = Or(*c)
        if c is False:
            continue
        if c is True:
            return True
        out.append(c)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def Not(c):
    if isinstance(c, bool):
        return not c
    return z3.Not(c)


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if isinstance(a, bool):
        return b if a else Not(b)
    if isinstance(b, bool):
        return a if b else Not(a)
    return a == b


_STR = {}
_STR_REV = {}


def intern_str(s):
    if s not in _STR:
        k = len(_STR) + 1
        _STR[s] = k
        _STR_REV[k] = s
    return _STR[s]


class SStr:
    """a string from a finite known domain; ``code`` is its intern number"""

    def __init__(self, code, domain):
        self.code = code
        self.domain = tuple(domain)

    def __repr__(self):
        return "SStr(%s)" % (self.code,)


class Opaque:
    """a value nobody may look into (messages, figures, ...)"""

    def __init__(self, what="opaque"):
        self.what = what

    def __repr__(self):
        return "Opaque(%s)" % self.what


# ---------------------------------------------------------------- heap values

_BIRTH = [0]


def birth():
    _BIRTH[0] += 1
    return _BIRTH[0]


class Heap:
    """base of mutable symbolic values"""

    def __init__(self):
        self.born = birth()


class VList(list):
    """a Python list of known length"""

    def __init__(self, *a):
        list.__init__(self, *a)
        self.born = birth()

    __hash__ = None


class VDict(dict):
    """a Python dict with concrete keys"""

    def __init__(self, *a):
        dict.__init__(self, *a)
        self.born = birth()

    __hash__ = None


class VSet(set):
    """a Python set of concrete elements"""

    def __init__(self, *a):
        set.__init__(self, *a)
        self.born = birth()

    __hash__ = None


class SSeq(Heap):
    """list / tuple / range / enumerate … of symbolic length; f(i) gives element i"""

    def __init__(self, n, f, kind="list"):
        Heap.__init__(self)
        self.n = n
        self.f = f
        self.kind = kind

    def snap(self):
        r = SSeq(self.n, self.f, self.kind)
        for a in ("_mem", "_index_of", "_filtered", "_flat", "_src", "_columns"):
            if a in self.__dict__:
                r.__dict__[a] = self.__dict__[a]
        return r

    # membership predicate and position function of the content: dropped when it changes
    def _get_tied(name):
        def get(self):
            t = self.__dict__.get("_" + name)
            if t is None or t[0] is not self.n or t[1] is not self.f or t[2] is None:
                raise AttributeError(name)
            return t[2]

        def set_(self, v):
            self.__dict__["_" + name] = (self.n, self.f, v)

        def del_(self):
            self.__dict__.pop("_" + name, None)

        return property(get, set_, del_)

    mem = _get_tied("mem")
    index_of = _get_tied("index_of")
    filtered = _get_tied("filtered")  # (sel, inv, keep, source, value) of a filtering comprehension
    flat = _get_tied("flat")  # (offsets, row, column, position, parts) of a concatenation
    columns = _get_tied("columns")  # the components of a list of tuples, each as a list
    src = _get_tied("src")  # the sequence a comprehension ran over
    del _get_tied

    def __repr__(self):
        return "SSeq(%s)" % (self.n,)


class SArr(Heap):
    """numpy array; entry closure over integer indices; dtype in b i f c gf2 O"""

    def __init__(self, shape, f, dtype="f", base=None, imap=None):
        Heap.__init__(self)
        self.shape = tuple(shape)
        self._f = f
        self.dtype = dtype
        self.base = base  # views: base array and index map
        self.imap = imap

    @property
    def ndim(self):
        return len(self.shape)

    def root(self):
        return self.base.root() if self.base is not None else self

    def get(self, *idx):
        if self.base is not None:
            return self.base.get(*self.imap(*idx))
        return self._f(*idx)

    def snap(self):
        """pure closure of the current contents"""
        if self.base is not None:
            g = self.base.snap()
            m = self.imap
            return lambda *i: g(*m(*i))
        return self._f

    def copy(self):
        return SArr(self.shape, self.snap(), self.dtype)

    def __repr__(self):
        return "SArr%s:%s" % (self.shape, self.dtype)


class SSet(Heap):
    """set with membership predicate (over z3 scalars); card optional"""

    def __init__(self, mem, card=None, elem=None):
        Heap.__init__(self)
        self.mem = mem
        self.card = card
        self.elem = elem  # constructor for a fresh symbolic element
        self.prov = None  # how the set was computed: equal provenance, equal iteration order


class SDict(Heap):
    """dict with symbolic keys"""

    def __init__(self, has, get, keys=None):
        Heap.__init__(self)
        self.has = has
        self.get = get
        self.keys = keys  # SSeq of keys in insertion order, or None


def ite(c, a, b):
    """merge of two values under condition c"""
    if c is True or a is b:
        return a
    if c is False:
        return b
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = to_cx(a), to_cx(b)
        return Cx(ite(c, a.re, b.re), ite(c, a.im, b.im))
    if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
        if isinstance(a, str) and a == b:
            return a
        dom = []
        for s in (a, b):
            for d in (s.domain if isinstance(s, SStr) else (s,)):
                if d not in dom:
                    dom.append(d)
        return SStr(z3.If(c, z(a), z(b)), dom)
    if is_num(a) and is_num(b):
        if not is_z3(a) and not is_z3(b) and type(a) is type(b) and a == b:
            return a
        if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
            return z3.If(c, z(a), z(b))
        a, b = zint(a), zint(b)
        if is_float(a) or is_float(b):
            a, b = zreal(a), zreal(b)
        a, b = z(a), z(b)
        if a.eq(b):
            return a
        return z3.If(c, a, b)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(ite(c, x, y) for x, y in zip(a, b))
    if isinstance(a, VList) and isinstance(b, VList) and len(a) == len(b):
        out = VList([ite(c, x, y) for x, y in zip(a, b)])
        out.merged = True  # stands for one of two lists: read only (write_log)
        return out
    if isinstance(a, SArr) and isinstance(b, SArr) and len(a.shape) == len(b.shape):
        sh = tuple(ite(c, x, y) for x, y in zip(a.shape, b.shape))
        fa, fb = a.snap(), b.snap()
        return SArr(sh, lambda *i: ite(c, fa(*i), fb(*i)), join_dtype(a.dtype, b.dtype))
    if is_z3(a) and is_z3(b) and a.sort() == b.sort():
        return z3.If(c, a, b)
    if a is None and b is None:
        return None
    if type(a) is type(b) and isinstance(a, Opaque):
        return a
    m = getattr(a, "__pyvc_ite__", None) or getattr(b, "__pyvc_ite__", None)
    if m:
        return m(c, a, b)
    raise Unsupported("cannot merge %r and %r" % (a, b))


def to_cx(v):
    if isinstance(v, Cx):
        return v
    return Cx(zint(v), 0)


_DT = {"b": 0, "gf2": 1, "i": 2, "f": 3, "c": 4, "O": 5}


def join_dtype(a, b):
    return a if _DT[a] >= _DT[b] else b


def subst(v, pairs):
    """substitute z3 constants in a value (pairs: [(const, term)])"""
    if is_z3(v):
        return z3.substitute(v, *[(a, z(b)) for a, b in pairs])
    if isinstance(v, Cx):
        return Cx(subst(v.re, pairs), subst(v.im, pairs))
    if isinstance(v, SStr):
        return SStr(subst(v.code, pairs), v.domain)
    if v is None or isinstance(v, (bool, int, Fraction, str, Opaque)):
        return v
    if isinstance(v, tuple):
        return tuple(subst(x, pairs) for x in v)
    if isinstance(v, VList):
        return VList(subst(x, pairs) for x in v)
    if isinstance(v, VDict):
        return VDict({k: subst(x, pairs) for k, x in v.items()})
    if isinstance(v, SArr):
        f = v.snap()
        return SArr(tuple(subst(d, pairs) for d in v.shape), lambda *i: subst(f(*i), pairs), v.dtype)
    if isinstance(v, SSeq):
        f = v.f
        r = SSeq(subst(v.n, pairs), lambda i: subst(f(i), pairs), v.kind)
        if hasattr(v, "filtered"):
            r.filtered = tuple((lambda g: lambda t: subst(g(z(t)), pairs))(g) for g in v.filtered[:3]) + v.filtered[3:]
        return r
    m = getattr(v, "__pyvc_subst__", None)
    if m:
        return m(pairs)
    raise Unsupported("substitution in %r" % (v,))


# ---------------------------------------------------------------- solving


class Stats:
    def __init__(self):
        self.time = 0.0
        self.calls = 0


def multi(*terms):
    """z3.MultiPattern drops its references to the terms before it uses them: keep them here"""
    p = z3.MultiPattern(*terms)
    _KEEP.append(terms)
    del _KEEP[:-8]
    return p


_KEEP = []


def has_quant(e, cache={}):
    k = e.get_id()
    r = cache.get(k)
    if r is not None and r[0].eq(e):
        return r[1]
    if z3.is_quantifier(e):
        v = True
    else:
        v = any(has_quant(c) for c in e.children())
    cache[k] = (e, v)
    return v


def z3_check(facts, goal, timeout_ms, rlimit=0, opts=None):
    s = z3.Solver()
    s.set("timeout", timeout_ms)
    if rlimit:
        s.set("rlimit", rlimit)
    for k, v in (opts or {}).items():
        s.set(k, v)
    for f in facts:
        s.add(f)
    s.add(z3.Not(goal))
    r = s.check()
    if r == z3.unsat:
        return "unsat", None
    if r == z3.sat:
        return "sat", s.model()
    return "unknown", s.reason_unknown()


def ite_conds(e, limit=6):
    """atoms deciding the if-then-else terms of e"""
    out, seen = [], set()

    def atoms(c):
        if z3.is_not(c) or z3.is_and(c) or z3.is_or(c):
            for d in c.children():
                atoms(d)
        elif not (z3.is_true(c) or z3.is_false(c)) and not any(c.eq(o) for o in out):
            out.append(c)

    def walk(t):
        if t.get_id() in seen or z3.is_quantifier(t):
            return
        seen.add(t.get_id())
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            atoms(t.arg(0))
        for c in t.children():
            walk(c)

    walk(e)
    return [c for c in out if not has_quant(c)][: limit + 1]


def cases_check(facts, goal, timeout_ms, depth=5):
    """the goal by case distinction over the conditions of its if-then-else terms"""
    end = time.time() + timeout_ms / 1000.0

    def go(extra, g, d):
        g = z3.simplify(g)
        if z3.is_true(g):
            return True
        cs = ite_conds(g)
        if not cs or d == 0:
            for o, lim in ((None, 2500), ({"auto_config": False, "mbqi": False}, 2500)):
                left = int((end - time.time()) * 1000)
                if left <= 50:
                    return False
                r, _ = z3_check(facts + extra, g, min(lim, left), opts=o)
                if r == "unsat":
                    return True
            return False
        c = cs[0]
        for val, h in ((z3.BoolVal(True), c), (z3.BoolVal(False), z3.Not(c))):
            if time.time() > end:
                return False
            if z3_check(facts_qf, z3.Not(z3.And(*(extra + [h]))), 300)[0] == "unsat":
                continue
            if not go(extra + [h], z3.substitute(g, (c, val)), d - 1):
                return False
        return True

    facts_qf = [f for f in facts if not has_quant(f)]
    if not ite_conds(goal):
        return "unknown", "no cases"
    return ("unsat", None) if go([], goal, depth) else ("unknown", "cases")


def cvc5_check(facts, goal, timeout_ms):
    s = z3.Solver()
    for f in facts:
        s.add(f)
    s.add(z3.Not(goal))
    txt = s.to_smt2()
    # ALL logic covers ints, reals, UF, quantifiers, nonlinear
    txt = "(set-logic ALL)\n" + "\n".join(l for l in txt.splitlines() if not l.startswith("(set-info") and not l.startswith("(set-logic"))
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(txt)
        name = f.name
    try:
        p = subprocess.run(["cvc5", "--tlimit=%d" % timeout_ms, "--nl-ext-tplanes", name], capture_output=True, text=True, timeout=timeout_ms / 1000 + 5)
        out = p.stdout.strip().splitlines()
        r = out[0].strip() if out else "unknown"
    except Exception:
        r = "unknown"
    finally:
        os.unlink(name)
    return r if r in ("sat", "unsat") else "unknown", None


class FeasStack:
    """assertion stack for path pruning; a new solver for every question (no
    incremental solver state)"""

    def __init__(self):
        self.fs, self.marks = [], []

    def push(self):
        self.marks.append(len(self.fs))

    def pop(self):
        del self.fs[self.marks.pop() :]

    def add(self, f):
        self.fs.append(f)

    def check(self):
        s = z3.SimpleSolver()
        s.set("rlimit", 400000)
        s.add(*[z(f) if isinstance(f, bool) else f for f in self.fs])
        return s.check()


class Obligation:
    def __init__(self, name, status, backend, t, detail=""):
        self.name = name
        self.status = status  # discharged / failed
        self.backend = backend
        self.time = t
        self.detail = detail


class Ctx:
    """one path of one unit"""

    def __init__(self, unit, prefix, report):
        self.unit = unit
        self.prefix = list(prefix)
        self.pos = 0
        self.record = []
        self.pending = []  # alternatives to explore
        self.report = report
        self.facts = []
        self.pcs = []
        self.feas = z3.Solver(); self.feas.set("rlimit", 400000)
        self.counters = {}
        self.generics = []
        self.sum_depth = 0
        self.nested = 0
        self.outer_replay = False
        self.sums = {}
        self.sum_terms = {}
        self.defs = []
        self.feas_defs = []
        self.defkeys = set()
        self.trusted = report.trusted
        self.cache = {}
        self.writes = None
        self.failed_here = False
        self.subst_names = {}

    # ---- names
    def uid(self, name):
        k = self.counters.get(name, 0)
        self.counters[name] = k + 1
        return name if k == 0 else "%s!%d" % (name, k)

    def fresh(self, name, sort):
        n = self.uid(name)
        if self.generics:
            return z3.Function(n, *[g.sort() for g in self.generics], sort)(*self.generics)
        return z3.Const(n, sort)

    def int(self, name):
        return self.fresh(name, z3.IntSort())

    def real(self, name):
        return self.fresh(name, z3.RealSort())

    def bool(self, name):
        return self.fresh(name, z3.BoolSort())

    def func(self, name, *sorts):
        """fresh uninterpreted function (python callable)"""
        n = self.uid(name)
        if self.generics:
            gs = list(self.generics)
            fd = z3.Function(n, *[g.sort() for g in gs], *sorts)
            return lambda *a: fd(*gs, *[z(x) for x in a])
        fd = z3.Function(n, *sorts)
        return lambda *a: fd(*[z(x) for x in a])

    def trust(self, what):
        self.trusted.add(what)

    # ---- facts
    def replaying(self):
        return self.outer_replay or self.pos < len(self.prefix)

    def assume(self, fact, pc=False):
        if isinstance(fact, (list, tuple)):
            for f in fact:
                self.assume(f, pc)
            return
        if fact is True:
            return
        if fact is False:
            fact = z3.BoolVal(False)
        self.facts.append(fact)
        if pc:
            self.pcs.append(fact)
        if not has_quant(fact):
            self.feas.add(fact)

    @contextlib.contextmanager
    def scope(self, r):
        """facts learned inside hold under the local assumption r only"""
        if r is True:
            yield
            return
        r = z(r)
        base, pbase, nd = len(self.facts), len(self.pcs), len(self.feas_defs)
        self.feas.push()
        self.assume(r)
        try:
            yield
        except StopPath:
            pass  # the local assumption is contradictory: nothing to show
        self.feas.pop()
        for f in self.feas_defs[nd:]:
            self.feas.add(f)
        new = self.facts[base + 1 :]
        del self.facts[base:]
        self.pcs[pbase:] = [z3.Implies(r, p) for p in self.pcs[pbase:]]
        for f in new:
            self.assume(z3.Implies(r, z(f)))

    def forall(self, consts, body, patterns=None):
        """ForAll with python-level body; consts z3 constants"""
        if body is True:
            return True
        if body is False:
            body = z3.BoolVal(False)
        if patterns:
            return z3.ForAll(consts, body, patterns=patterns)
        return z3.ForAll(consts, body)

    def feasible(self, c):
        self.feas.push()
        self.feas.add(c)
        t = time.time()
        r = self.feas.check()
        self.report.solver_time += time.time() - t
        self.feas.pop()
        return r != z3.unsat

    def branch(self, cond, label=""):
        if isinstance(cond, bool):
            return cond
        if not is_sym_bool(cond):
            raise Unsupported("branch on %r" % (cond,))
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        d = self._decide(2, lambda k: self.feasible(cond if k == 0 else z3.Not(cond)))
        self.assume(cond if d == 0 else z3.Not(cond), pc=True)
        return d == 0

    def choose(self, n, feasible=None):
        return self._decide(n, feasible or (lambda k: True))

    def _decide(self, n, feasible):
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.record.append(d)
            return d
        opts = [k for k in range(n) if feasible(k)]
        if not opts:
            raise StopPath()
        for k in reversed(opts[1:]):
            self.pending.append(self.record + [k])
        self.record.append(opts[0])
        self.pos += 1
        self.prefix = list(self.record)
        return opts[0]

    # ---- nested exploration: evaluates thunk on all local paths and merges
    def merge(self, thunk):
        """returns list of (pc list, kind, value); facts are re-assumed under their pcs"""
        saved = (self.prefix, self.pos, self.record, self.pending, self.facts, self.pcs, self.counters)
        results, kept = [], []
        stack = [[]]
        n = 0
        top = dict(saved[6])
        nd = len(self.feas_defs)
        self.nested += 1
        was_replay = self.outer_replay
        self.outer_replay = self.replaying()
        try:
            while stack:
                pre = stack.pop()
                n += 1
                if n > 4096:
                    raise PathLimit("nested paths")
                self.prefix, self.pos, self.record, self.pending = list(pre), 0, [], []
                self.facts, self.pcs = list(saved[4]), []
                self.counters = dict(saved[6])
                base = len(self.facts)
                self.feas.push()
                try:
                    v = ("val", thunk())
                except PyExc as e:
                    v = ("exc", e)
                except StopPath:
                    v = None
                finally:
                    self.feas.pop()
                pcs = list(self.pcs)
                pcids = {p.get_id() for p in pcs}
                new = [f for f in self.facts[base:] if f.get_id() not in pcids]
                stack.extend(self.pending)
                if v is not None:
                    results.append((pcs, v[0], v[1]))
                kept.append((pcs, new))
                for k, c in self.counters.items():
                    top[k] = max(top.get(k, 0), c)
        finally:
            self.nested -= 1
            self.outer_replay = was_replay
            for f in self.feas_defs[nd:]:
                self.feas.add(f)
            self.prefix, self.pos, self.record, self.pending, self.facts, self.pcs, self.counters = saved
        self.counters.update(top)
        seen = set()
        for pcs, new in kept:
            for f in new:
                g = Implies(And(*pcs), f) if pcs else f
                if g is True:
                    continue
                if is_z3(g):
                    if g.get_id() in seen:
                        continue
                    seen.add(g.get_id())
                self.assume(g)
        return results

    def merged(self, thunk):
        """value of a side effect free thunk, merged over its paths"""
        res = self.merge(thunk)
        vals = [(pcs, v) for pcs, k, v in res if k == "val"]
        for pcs, k, v in res:
            if k == "exc":
                if self.branch(And(*pcs) if pcs else True):
                    raise v
        if not vals:
            raise StopPath()
        out = vals[-1][1]
        for pcs, v in reversed(vals[:-1]):
            out = ite(And(*pcs), v, out)
        return out

    def generic(self, n, fn, name="q"):
        """value of fn(i) for a generic index 0<=i<n, as a closure i -> value"""
        q = z3.Int(self.uid(name))
        rng = And(q >= 0, q < z(n))
        nd = len(self.feas_defs)
        saved_facts, saved_pcs = self.facts, self.pcs
        self.facts, self.pcs = list(saved_facts), list(saved_pcs)
        base = len(self.facts)
        self.feas.push()
        self.generics.append(q)
        self.assume(rng)
        base = len(self.facts)
        try:
            res = self.merge(lambda: fn(q))
            new = self.facts[base:]
        finally:
            self.generics.pop()
            self.feas.pop()
            for f in self.feas_defs[nd:]:
                self.feas.add(f)
            self.facts, self.pcs = saved_facts, saved_pcs
        for f in new:
            self.assume(_generalise(q, rng, f))
        for pcs, k, v in res:
            if k == "exc":
                c = And(*pcs) if pcs else z3.BoolVal(True)
                # some element raises?
                if self.choose(2, lambda kk: self.feasible(And(rng, c)) if kk == 0 else True) == 0:
                    w = self.int(name + "_exc")
                    self.assume(subst(And(rng, c), [(q, w)]), pc=True)
                    raise v
                self.assume(z3.ForAll([q], z3.Implies(rng, z3.Not(z(c)))))
        vals = [(pcs, v) for pcs, k, v in res if k == "val"]
        if not vals:
            if self.branch(z(n) > 0):
                raise StopPath()
            return lambda i: None
        out = vals[-1][1]
        for pcs, v in reversed(vals[:-1]):
            out = ite(And(*pcs), v, out)
        return lambda i: subst(out, [(q, i)])

    # ---- obligations
    def prove(self, name, goal, assume=True, hint=None, timeout=None):
        if isinstance(goal, (list, tuple)):
            goal = And(*goal)
        if self.replaying():
            if assume:
                self.assume(goal)
            return True
        if self.nested and self.generics:
            pass
        full = "%s" % name
        if goal is True:
            self.report.add(Obligation(full, "discharged", "syntactic", 0.0))
            return True
        if goal is False:
            goal = z3.BoolVal(False)
        parts = [goal]
        if z3.is_and(goal) and len(goal.children()) <= 40:
            parts = goal.children()
        ok = True
        for i, g in enumerate(parts):
            nm = full if len(parts) == 1 else "%s[%d]" % (full, i)
            ok = self._prove1(nm, g, timeout) and ok
        if assume:
            self.assume(goal)
        return ok

    def valid(self, goal, timeout=3000):
        """quiet check, used by the generator itself (never as an obligation)"""
        if isinstance(goal, bool):
            return goal
        t = time.time()
        r = z3_check(self.facts + self.defs, goal, timeout)[0]
        self.report.solver_time += time.time() - t
        return r == "unsat"

    def quickly_valid(self, goal, timeout=400):
        """quiet check by quantifier instantiation only"""
        t = time.time()
        r = z3_check(self.facts + self.defs, goal, timeout, opts={"auto_config": False, "mbqi": False})[0]
        self.report.solver_time += time.time() - t
        return r == "unsat"

    def contradictory(self):
        em = {"auto_config": False, "mbqi": False}
        full = self.facts + self.defs
        return any(z3_check(full, z3.BoolVal(False), t, opts=o)[0] == "unsat" for t, o in ((1500, em), (1500, {}), (6000, em), (6000, {})))

    def _prove1(self, name, goal, timeout=None):
        t0 = time.time()
        g = z3.simplify(goal)
        if z3.is_true(g):
            self.report.add(Obligation(name, "discharged", "simplify", time.time() - t0))
            return True
        T = timeout or self.unit.timeout
        detail = ""
        status, be = "failed", "-"
        full = self.facts + self.defs
        nq = [f for f in full if not has_quant(f)]
        em = {"auto_config": False, "mbqi": False}
        attempts = []
        if len(nq) < len(full):
            attempts.append(("z3-qf", lambda: z3_check(nq, goal, min(T, 2500))))
            attempts.append(("z3-ematch", lambda: z3_check(full, goal, min(T, 1500), opts=em)))
        attempts.append(("z3", lambda: z3_check(full, goal, min(T, 6000))))
        if len(nq) < len(full):
            attempts.append(("z3-ematch", lambda: z3_check(full, goal, min(T, 6000), opts=em)))
        if sum(o.status == "failed" for o in self.report.obls) >= 2:
            attempts = attempts[:3]  # the unit is rejected anyway
            T = min(T, 3000)
        attempts.append(("z3-cases", lambda: cases_check(full, goal, T)))
        if T > 3000:
            attempts.append(("cvc5", lambda: cvc5_check(full, goal, T)))
            attempts.append(("z3-long", lambda: z3_check(full, goal, 3 * T, opts={"random_seed": 7})))
        for be_, fn in attempts:
            r, m = fn()
            if r == "unsat":
                status, be = "discharged", be_
                break
            if r == "sat" and be_ in ("z3-qf", "z3-ematch"):
                continue
            if r == "sat":
                detail = "counter-model: " + str(m)[:3000] if m is not None else "sat"
                be = be_
                break
            detail = "unknown (%s): %s" % (be_, m)
            be = be_
        dt = time.time() - t0
        self.report.solver_time += dt
        if status != "discharged":
            detail = "goal: %s\n%s" % (str(goal)[:1500], detail)
            self.failed_here = True
        self.report.add(Obligation(name, status, be, dt, detail))
        return status == "discharged"

    # ---- sums
    def sum(self, n, f, tag="sum"):
        """sum_{k<n} f(k); equal summands give the same term"""
        if isinstance(n, int) and n <= 16:
            out = 0
            from . import ops

            for k in range(n):
                out = ops.add(self, out, f(k)) if k else f(k)
            return out
        # nested sums use different bound variables
        q = z3.Int("sumidx" if not self.sum_depth else "sumidx%d" % self.sum_depth)
        self.sum_depth += 1
        try:
            body = f(q)
        finally:
            self.sum_depth -= 1
        if isinstance(body, Cx):
            return Cx(self._sum1(n, body.re, q), self._sum1(n, body.im, q))
        return self._sum1(n, body, q)

    def _sum1(self, n, body, q):
        body = z3.simplify(z(zint(body)))
        params = []

        def walk(e, seen):
            if e.get_id() in seen:
                return
            seen.add(e.get_id())
            if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.sort() == z3.IntSort() and not e.eq(q):
                params.append(e)
            for c in e.children():
                walk(c, seen)

        walk(body, set())
        ps = [z3.Int("p!%d" % i) for i in range(len(params))]
        nb = z3.substitute(body, *[(a, b) for a, b in zip(params, ps)]) if params else body
        key = nb.sexpr()
        if 2 <= len(params) <= 3:
            # the simplifier orders subterms by age: choose a canonical naming of the parameters
            import itertools

            best = None
            for perm in itertools.permutations(params):
                b = canonical(z3.simplify(z3.substitute(body, *zip(perm, ps))))
                sx = b.sexpr()
                if best is None or sx < best[0]:
                    best = (sx, perm, b)
            key, params, nb = best[0], list(best[1]), best[2]
        if key not in self.sums:
            S = z3.Function("S!%d" % len(self.sums), *([z3.IntSort()] * (len(ps) + 1)), body.sort())
            k = z3.Int("k!s")
            zero = z3.IntVal(0) if body.sort() == z3.IntSort() else z3.RealVal(0)
            d0 = S(*ps, z3.IntVal(0)) == zero
            d1 = z3.ForAll(ps + [k], z3.Implies(k >= 0, S(*ps, k + 1) == S(*ps, k) + z3.substitute(nb, (q, k))), patterns=[S(*ps, k + 1)])
            self.define(z3.ForAll(ps, d0) if ps else d0)
            self.define(d1)
            self.sums[key] = (S, nb, ps, q)
            self.trust("finite sums (numpy sum / dot / matmul): partial-sum recursion S(0)=0, S(k+1)=S(k)+f(k)")
        S = self.sums[key][0]
        t = S(*params, z(n))
        self.sum_terms[t.get_id()] = (t, n, body, q)
        return t

    def define(self, fact):
        """an unconditional, definitional fact (generalised over generic indices)"""
        if fact is True:
            return
        gs = [g for g in self.generics if _occurs(fact, g)]
        if gs:
            fact = z3.ForAll(gs, fact)
        self.defs.append(fact)
        if not has_quant(fact):
            self.feas_defs.append(fact)
            self.feas.add(fact)

    def once(self, key, fact_fn):
        """definitional facts about a term, added once per path"""
        if key in self.defkeys:
            return
        self.defkeys.add(key)
        for f in fact_fn():
            self.define(f)

    def sums_equal(self, name, s, t):
        """lemma (induction, built into the generator): pointwise equal summands over the
        same range give equal sums.  The pointwise equality is an obligation."""
        if isinstance(s, Cx) or isinstance(t, Cx):
            s, t = to_cx(s), to_cx(t)
            return self.sums_equal(name + ".re", s.re, t.re) and self.sums_equal(name + ".im", s.im, t.im)
        a, b = self.sum_terms.get(z(s).get_id()), self.sum_terms.get(z(t).get_id())
        if a is None or b is None:
            return False
        k = self.int("k")
        self.prove(name + "/range", z(a[1]) == z(b[1]))
        ok = self.prove(name + "/summand", Implies(And(k >= 0, k < z(a[1])), z3.substitute(a[2], (a[3], k)) == z3.substitute(b[2], (b[3], k))), assume=False)
        self.assume(a[0] == b[0])
        return ok


_COMM = (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_EQ)


def canonical(e):
    """the term with the arguments of commutative operators in a fixed order (the
    simplifier orders them by age)"""
    memo = {}

    def go(x):
        k = x.get_id()
        if k in memo:
            return memo[k][0]
        if not z3.is_app(x) or x.num_args() == 0:
            r = x
        else:
            cs = [go(c) for c in x.children()]
            if x.decl().kind() in _COMM:
                cs.sort(key=lambda c: c.sexpr())
                kd = x.decl().kind()
                if kd == z3.Z3_OP_EQ:
                    r = cs[0] == cs[1]
                else:
                    r = x.decl()(*cs) if x.num_args() == 2 else {z3.Z3_OP_AND: z3.And, z3.Z3_OP_OR: z3.Or, z3.Z3_OP_ADD: z3.Sum, z3.Z3_OP_MUL: z3.Product}[kd](cs)
            else:
                r = x.decl()(*cs)
        memo[k] = (r, x)
        return r

    return go(e)


def _generalise(q, rng, f):
    """for all q in range: f  (quantifiers of f are merged, keeping their patterns)"""
    f = z(f)
    if z3.is_quantifier(f) and f.is_forall() and f.num_patterns():
        vs = [z3.Const("%s_%d" % (f.var_name(i), i), f.var_sort(i)) for i in range(f.num_vars())]
        rev = list(reversed(vs))
        body = z3.substitute_vars(f.body(), *rev)
        pats = []
        for i in range(f.num_patterns()):
            ts = [z3.substitute_vars(t, *rev) for t in f.pattern(i).children()]
            if not any(_occurs(t, q) for t in ts):
                break
            pats.append(multi2(ts))
        else:
            return z3.ForAll([q] + vs, z3.Implies(rng, body), patterns=pats)
    return z3.ForAll([q], z3.Implies(rng, f))


def multi2(ts):
    return ts[0] if len(ts) == 1 else multi(*ts)


def _occurs(e, c):
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(c):
            return True
        if z3.is_quantifier(x):
            st.append(x.body())
        st.extend(x.children())
    return False


# ---------------------------------------------------------------- units


class Report:
    def __init__(self, unit):
        self.unit = unit
        self.obls = []
        self.trusted = set()
        self.solver_time = 0.0
        self.paths = 0
        self.stopped = 0
        self.unsupported = None
        self.functions = set()
        self.contracts_used = set()
        self.completed = 0
        self.vacuous = False
        self.notes = []

    def add(self, o):
        self.obls.append(o)


class Unit:
    def __init__(self, name, fn, functions=(), timeout=10000, max_paths=3000, covers="", loops=None):
        self.name = name
        self.fn = fn
        self.functions = tuple(functions)
        self.timeout = timeout
        self.max_paths = max_paths
        self.covers = covers
        self.loops = loops or {}


def run_unit(unit, make_interp, wall=300):
    """explores all paths of the unit, returns Report"""
    rep = Report(unit)
    t0 = time.time()
    stack = [[]]
    try:
        while stack:
            prefix = stack.pop()
            rep.paths += 1
            if rep.paths > unit.max_paths:
                raise PathLimit("more than %d paths" % unit.max_paths)
            if time.time() - t0 > wall:
                raise PathLimit("wall time %ds" % wall)
            ctx = Ctx(unit, prefix, rep)
            it = make_interp(ctx)
            it.loop_specs = dict(unit.loops)
            try:
                unit.fn(it)
                rep.completed += 1
                if rep.completed <= 3 and not ctx.failed_here:
                    # vacuity: the assumptions of this path must not be contradictory
                    r = z3_check(ctx.facts + ctx.defs, z3.BoolVal(False), 1500)[0]
                    if r == "unsat":
                        rep.completed -= 1
                        rep.stopped += 1
            except StopPath:
                rep.stopped += 1
            except PyExc as e:
                ctx.prove("no-exception: %s" % e, False)
            except PathLimit:
                raise
            except Unsupported:
                # irrelevant when no input takes this path
                if not ctx.contradictory():
                    raise
                rep.stopped += 1
            stack.extend(ctx.pending)
            rep.functions |= it.functions_used
            rep.contracts_used |= it.contracts_used
    except Unsupported as e:
        rep.unsupported = "%s: %s" % (type(e).__name__, e)
    except RecursionError as e:
        rep.unsupported = "recursion"
    except z3.Z3Exception as e:
        if os.environ.get("PYVC_TB"): traceback.print_exc()
        rep.unsupported = "z3: %s" % e
    except MemoryError:
        rep.unsupported = "memory"
    except Exception as e:  # the annotations no longer fit the code
        rep.unsupported = "annotation: %s: %s @ %s" % (type(e).__name__, e, "; ".join("%s:%d" % (f.name, f.lineno) for f in traceback.extract_tb(e.__traceback__)[-3:]))
    if rep.unsupported is None and (rep.completed == 0 or not rep.obls):
        rep.vacuous = True
    rep.wall = time.time() - t0
    return rep
