"""pyvc: front end (reads /repo on every run) and symbolic interpreter of the AST"""
import ast
import os
from fractions import Fraction

import z3

from . import ops
from .core import *
from .ops import E, Exc, pyraise

ROOT = os.environ.get("PYVC_REPO", "/repo")


# ---------------------------------------------------------------- program objects


class Unset:
    def __repr__(self):
        return "<unset>"


UNSET = Unset()
POISON = Unset()


class ImportRef:
    def __init__(self, mod, name=None):
        self.mod = mod
        self.name = name


class LazyAssign:
    def __init__(self, stmt, target):
        self.stmt = stmt
        self.target = target


class Module:
    def __init__(self, name, path, tree, is_pkg):
        self.name = name
        self.path = path
        self.tree = tree
        self.is_pkg = is_pkg
        self.env = {}
        self.stars = []
        self.all = None
        self._scan(tree.body)

    def _rel(self, node):
        if node.level == 0:
            return node.module
        parts = self.name.split(".")
        if not self.is_pkg:
            parts = parts[:-1]
        parts = parts[: len(parts) - (node.level - 1)]
        return ".".join(parts + ([node.module] if node.module else []))

    def _scan(self, body):
        for st in body:
            if isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        self.env[a.asname] = ImportRef(a.name)
                    else:
                        top = a.name.split(".")[0]
                        self.env[top] = ImportRef(top)
            elif isinstance(st, ast.ImportFrom):
                mod = self._rel(st)
                for a in st.names:
                    if a.name == "*":
                        self.stars.append(mod)
                    else:
                        self.env[a.asname or a.name] = ImportRef(mod, a.name)
            elif isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                self.env[st.name] = st
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        if t.id == "__all__":
                            try:
                                self.all = list(ast.literal_eval(st.value))
                            except ValueError:
                                self.all = None
                        self.env[t.id] = LazyAssign(st, t.id)
                    elif isinstance(t, ast.Tuple):
                        for el in t.elts:
                            if isinstance(el, ast.Name):
                                self.env[el.id] = LazyAssign(st, el.id)
            elif isinstance(st, ast.AnnAssign) and st.value is not None and isinstance(st.target, ast.Name):
                self.env[st.target.id] = LazyAssign(st, st.target.id)
            elif isinstance(st, (ast.Try, ast.If)):
                self._scan(st.body)


_MODS = {}


def load_module(name):
    """ast of a module of the repository, read from the working tree"""
    if name in _MODS:
        return _MODS[name]
    base = os.path.join(ROOT, *name.split("."))
    m = None
    for path, pkg in ((os.path.join(base, "__init__.py"), True), (base + ".py", False)):
        if os.path.isfile(path):
            with open(path) as f:
                src = f.read()
            m = Module(name, path, ast.parse(src), pkg)
            break
    _MODS[name] = m
    return m


class Cls:
    def __init__(self, name, bases, module, qual):
        self.name = name
        self.bases = bases
        self.module = module
        self.qual = qual
        self.attrs = {}

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, Cls):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        for b in self.bases:
            if not isinstance(b, Cls) and b not in out:
                out.append(b)
        return out

    def lookup(self, name, after=None):
        m = self.mro()
        if after is not None:
            m = m[m.index(after) + 1 :]
        for c in m:
            if isinstance(c, Cls) and name in c.attrs:
                return c.attrs[name], c
        return None, None

    def subclass_of(self, other):
        return any(c is other for c in self.mro())

    def __repr__(self):
        return "<class %s>" % self.name


class Prop:
    def __init__(self, fget, fset=None, cached=False):
        self.fget, self.fset, self.cached = fget, fset, cached


class Frame:
    def __init__(self, module, parent=None, local_names=(), fn=None):
        self.vars = {}
        self.module = module
        self.parent = parent
        self.locals = set(local_names)
        self.nonlocals = set()
        self.fn = fn
        self.loop_index = None
        self.yields = None
        self.born = birth()


class Fn:
    def __init__(self, node, module, frame, qual, cls=None):
        self.node = node
        self.module = module
        self.frame = frame  # enclosing frame (closures)
        self.qual = qual
        self.cls = cls
        self.name = getattr(node, "name", "<lambda>")
        self.defaults = None
        self.kwdefaults = None
        self.born = birth()

    def __repr__(self):
        return "<fn %s>" % self.qual


class Bound:
    def __init__(self, self_, fn):
        self.self_ = self_
        self.fn = fn


class Builtin:
    """host implementation of a library function: fn(interp, args, kwargs)"""

    def __init__(self, name, fn):
        self.name = name
        self.fn = fn

    def __repr__(self):
        return "<builtin %s>" % self.name


class LibMod:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<lib %s>" % self.name


class LibType:
    """library class used for isinstance / base classes / construction"""

    def __init__(self, name, ctor=None, test=None):
        self.name = name
        self.ctor = ctor
        self.test = test

    def __repr__(self):
        return "<libtype %s>" % self.name


class Obj(Heap):
    def __init__(self, cls, **fields):
        Heap.__init__(self)
        self.cls = cls
        self.fields = dict(fields)

    def __repr__(self):
        return "<%s object>" % self.cls.name


class Super:
    def __init__(self, obj, cls):
        self.obj, self.cls = obj, cls


class ReturnX(Exception):
    def __init__(self, v):
        self.v = v


class BreakX(Exception):
    pass


class ContinueX(Exception):
    pass


# registry of library contracts: dotted name -> value
LIB = {}


def lib(name):
    def deco(fn):
        LIB[name] = Builtin(name, fn)
        return fn

    return deco


HOSTATTR = []  # functions (interp, value, name) -> value or NotImplemented


def hostattr(fn):
    HOSTATTR.append(fn)
    return fn


_LOCALS = {}


def local_names(node):
    """names bound in a function body"""
    if node in _LOCALS:
        return _LOCALS[node]
    out, nonl = set(), set()
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        out.add(x.arg)
    if a.vararg:
        out.add(a.vararg.arg)
    if a.kwarg:
        out.add(a.kwarg.arg)

    def walk(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                out.add(c.name)
                continue
            if isinstance(c, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                for w in ast.walk(c):
                    if isinstance(w, ast.NamedExpr):
                        out.add(w.target.id)
                continue
            if isinstance(c, ast.Name) and isinstance(c.ctx, (ast.Store, ast.Del)):
                out.add(c.id)
            if isinstance(c, (ast.Import, ast.ImportFrom)):
                for al in c.names:
                    out.add((al.asname or al.name).split(".")[0])
            if isinstance(c, ast.ExceptHandler) and c.name:
                out.add(c.name)
            if isinstance(c, (ast.MatchAs, ast.MatchStar)) and c.name:
                out.add(c.name)
            if isinstance(c, (ast.Global, ast.Nonlocal)):
                nonl.update(c.names)
            walk(c)

    if isinstance(node, ast.Lambda):
        pass
    else:
        for st in node.body:
            walk(ast.Module(body=[st], type_ignores=[]))
    r = (out - nonl, nonl)
    _LOCALS[node] = r
    return r


def assigned_names(stmts):
    out = []

    def walk(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                out.append(c.name)
                continue
            if isinstance(c, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                continue
            if isinstance(c, ast.Name) and isinstance(c.ctx, (ast.Store, ast.Del)):
                if c.id not in out:
                    out.append(c.id)
            if isinstance(c, (ast.MatchAs,)) and c.name and c.name not in out:
                out.append(c.name)
            walk(c)

    for st in stmts:
        walk(ast.Module(body=[st], type_ignores=[]))
    return out


def loops_of(node):
    """loops of a function in source order (not inside nested functions)"""
    out = []

    def walk(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(c, (ast.For, ast.While)):
                out.append(c)
            walk(c)

    if not isinstance(node, ast.Lambda):
        walk(node)
    return out


MAXDEPTH = 60


class Interp:
    def __init__(self, ctx):
        self.ctx = ctx
        self.modcache = {}
        self.functions_used = set()
        self.contracts_used = set()
        self.contracts = {}
        self.loop_specs = {}
        self.depth = 0
        self.frames = []
        self.cards = []  # cardinalities taken: (number, membership)
        self.handling = []
        self.log = None  # write log
        self.libs_used = set()
        self.loopstack = []

    # ---------------------------------------------------------- names

    def fn(self, qual):
        """function / method / class by dotted name, e.g. mentpy.operators.ment.Ment.matrix"""
        parts = qual.split(".")
        for k in range(len(parts), 0, -1):
            m = load_module(".".join(parts[:k]))
            if m is not None:
                v = self.mod_lookup(m, parts[k]) if k < len(parts) else m
                if v is UNSET:
                    raise Unsupported("missing function %s" % qual)
                for p in parts[k + 1 :]:
                    a, c = v.lookup(p)
                    if a is None:
                        raise Unsupported("missing method %s" % qual)
                    v = a
                return v
        raise Unsupported("missing module for %s" % qual)

    def mod_lookup(self, m, name, seen=None):
        key = (m.name, name)
        if key in self.modcache:
            return self.modcache[key]
        seen = seen or set()
        if key in seen:
            return UNSET
        seen = seen | {key}
        if name in m.env:
            v = self.resolve_entry(m, name, m.env[name], seen)
            if v is not UNSET:
                self.modcache[key] = v
                return v
        for star in reversed(m.stars):
            sm = load_module(star)
            if sm is None:
                v = LIB.get(star + "." + name, UNSET)
            else:
                if sm.all is not None and name not in sm.all:
                    continue
                if name.startswith("_") and sm.all is None:
                    continue
                v = self.mod_lookup(sm, name, seen)
            if v is not UNSET:
                self.modcache[key] = v
                return v
        if m.is_pkg:
            sub = load_module(m.name + "." + name)
            if sub is not None:
                return sub
        return UNSET

    def resolve_entry(self, m, name, e, seen):
        if isinstance(e, ImportRef):
            if e.name is None:
                return self.import_module(e.mod)
            tm = load_module(e.mod)
            if tm is not None:
                return self.mod_lookup(tm, e.name, seen)
            return self.lib_lookup(e.mod + "." + e.name)
        if isinstance(e, ast.FunctionDef):
            return self.make_fn(e, m, None, m.name + "." + e.name)
        if isinstance(e, ast.ClassDef):
            return self.make_class(e, m)
        if isinstance(e, LazyAssign):
            fr = Frame(m)
            v = self.ev(e.stmt.value, fr)
            for t in e.stmt.targets if isinstance(e.stmt, ast.Assign) else [e.stmt.target]:
                if isinstance(t, ast.Name):
                    self.modcache[(m.name, t.id)] = v
                else:
                    self.assign(t, v, fr)
                    for k, w in fr.vars.items():
                        self.modcache[(m.name, k)] = w
            return self.modcache.get((m.name, name), UNSET)
        return e

    def import_module(self, name):
        m = load_module(name)
        return m if m is not None else LibMod(name)

    def lib_lookup(self, dotted):
        if dotted in LIB:
            return LIB[dotted]
        if any(k.startswith(dotted + ".") for k in LIB):
            return LibMod(dotted)
        # unknown library entity: an opaque value that must not be used
        return LibMod(dotted)

    def lookup(self, name, fr):
        f = fr
        while f is not None:
            if name in f.vars:
                v = f.vars[name]
                if v is POISON:
                    raise Unsupported("value of %s from an earlier loop iteration" % name)
                if v is UNSET:
                    pyraise("UnboundLocalError", name)
                return v
            if name in f.locals:
                pyraise("UnboundLocalError", name)
            f = f.parent
        v = self.mod_lookup(fr.module, name)
        if v is not UNSET:
            return v
        if ("builtins." + name) in LIB:
            return LIB["builtins." + name]
        if name in E:
            return E[name]
        if name == "__name__":
            return fr.module.name
        pyraise("NameError", name)

    # ---------------------------------------------------------- definitions

    def make_fn(self, node, module, frame, qual, cls=None):
        f = Fn(node, module, frame, qual, cls)
        fr = frame or Frame(module)
        f.defaults = [self.ev(d, fr) for d in node.args.defaults]
        f.kwdefaults = [None if d is None else self.ev(d, fr) for d in node.args.kw_defaults]
        f.has_kwdef = [d is not None for d in node.args.kw_defaults]
        v = f
        for d in reversed(getattr(node, "decorator_list", [])):
            v = self.decorate(d, v, fr, cls)
        return v

    def decorate(self, d, v, fr, cls):
        if isinstance(d, ast.Name) and d.id == "property":
            return Prop(v)
        if isinstance(d, ast.Name) and d.id == "staticmethod":
            return ("static", v)
        if isinstance(d, ast.Name) and d.id == "cached_property" or isinstance(d, ast.Attribute) and d.attr == "cached_property":
            return Prop(v, cached=True)
        if isinstance(d, ast.Attribute) and d.attr == "setter":
            return ("setter", d.value.id, v)
        if isinstance(d, ast.Attribute) and d.attr == "abstractmethod":
            return v
        dv = self.ev(d, fr)
        return self.call(dv, [v], {})

    def make_class(self, node, m):
        c = Cls(node.name, [], m, m.name + "." + node.name)
        self.modcache[(m.name, node.name)] = c
        fr = Frame(m)
        c.bases = [self.ev(b, fr) for b in node.bases]
        for st in node.body:
            if isinstance(st, ast.FunctionDef):
                v = self.make_fn(st, m, None, c.qual + "." + st.name, c)
                if isinstance(v, tuple) and v[0] == "setter":
                    p = c.attrs[v[1]]
                    c.attrs[st.name] = Prop(p.fget, v[2])
                else:
                    c.attrs[st.name] = v
            elif isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Name):
                c.attrs[st.targets[0].id] = self.ev(st.value, fr)
        return c

    # ---------------------------------------------------------- calls

    def call(self, f, args=(), kwargs=None):
        kwargs = kwargs or {}
        args = list(args)
        if isinstance(f, Bound):
            return self.call(f.fn, [f.self_] + args, kwargs)
        if isinstance(f, Builtin):
            self.libs_used.add(f.name)
            return f.fn(self, args, kwargs)
        if isinstance(f, tuple) and f and f[0] == "static":
            return self.call(f[1], args, kwargs)
        if isinstance(f, Fn):
            con = self.contracts.get(f.qual)
            if con is not None:
                self.contracts_used.add(f.qual)
                return con(self, args, kwargs)
            return self.call_fn(f, args, kwargs)
        if isinstance(f, Cls):
            return self.construct(f, args, kwargs)
        if isinstance(f, LibType):
            if f.ctor is None:
                raise Unsupported("constructor of %s" % f.name)
            self.libs_used.add(f.name)
            return f.ctor(self, args, kwargs)
        if isinstance(f, Exc):
            return PyExcVal(f, tuple(args))
        if isinstance(f, Obj):
            m, c = f.cls.lookup("__call__")
            if m is not None:
                return self.call(m, [f] + args, kwargs)
        if isinstance(f, LibMod):
            raise Unsupported("call of library function %s without contract" % f.name)
        h = getattr(f, "__pyvc_call__", None)
        if h is not None:
            return h(self, args, kwargs)
        if callable(f) and not isinstance(f, type):
            return f(self, args, kwargs)
        if f is None or is_num(f) or isinstance(f, (str, SArr, VList, tuple)):
            pyraise("TypeError", "object is not callable")
        raise Unsupported("call of %r" % (f,))

    def construct(self, c, args, kwargs):
        con = self.contracts.get(c.qual)
        if con is not None:
            self.contracts_used.add(c.qual)
            return con(self, args, kwargs)
        for b in c.mro():
            if isinstance(b, LibType) and getattr(b, "make_sub", None):
                return b.make_sub(self, c, args, kwargs)
            if isinstance(b, Exc):
                return PyExcVal(c, tuple(args))
        o = Obj(c)
        init, ic = c.lookup("__init__")
        if init is not None:
            self.call(init, [o] + list(args), kwargs)
        return o

    def bind(self, f, args, kwargs):
        a = f.node.args
        vars = {}
        params = a.posonlyargs + a.args
        n = len(params)
        kwargs = dict(kwargs)
        if len(args) > n and not a.vararg:
            pyraise("TypeError", "%s() takes %d positional arguments" % (f.name, n))
        for p, v in zip(params, args):
            vars[p.arg] = v
        if a.vararg:
            vars[a.vararg.arg] = tuple(args[n:])
        for p in params[len(args) :]:
            if p.arg in kwargs:
                vars[p.arg] = kwargs.pop(p.arg)
        for p in params[: len(args)]:
            if p.arg in kwargs:
                pyraise("TypeError", "%s() got multiple values for argument %s" % (f.name, p.arg))
        nd = len(f.defaults)
        for p, d in zip(params[n - nd :], f.defaults):
            if p.arg not in vars:
                vars[p.arg] = d
        for p, d, has in zip(a.kwonlyargs, f.kwdefaults, f.has_kwdef):
            if p.arg in kwargs:
                vars[p.arg] = kwargs.pop(p.arg)
            elif has:
                vars[p.arg] = d
        for p in params + a.kwonlyargs:
            if p.arg not in vars:
                pyraise("TypeError", "%s() missing argument %s" % (f.name, p.arg))
        if a.kwarg:
            vars[a.kwarg.arg] = VDict(kwargs)
        elif kwargs:
            pyraise("TypeError", "%s() got unexpected keyword %s" % (f.name, sorted(kwargs)))
        return vars

    def call_fn(self, f, args, kwargs):
        self.functions_used.add(f.qual)
        vars = self.bind(f, args, kwargs)
        ln, nonl = local_names(f.node)
        fr = Frame(f.module, f.frame, ln, f)
        fr.nonlocals = nonl
        fr.vars = vars
        self.depth += 1
        self.frames.append(fr)
        if self.depth > MAXDEPTH:
            self.depth -= 1
            self.frames.pop()
            raise Unsupported("recursion deeper than %d in %s" % (MAXDEPTH, f.qual))
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, fr)
            if _is_generator(f.node):
                fr.yields = VList()
                try:
                    self.block(f.node.body, fr)
                except ReturnX:
                    pass
                return fr.yields
            try:
                self.block(f.node.body, fr)
            except ReturnX as r:
                return r.v
            return None
        finally:
            self.depth -= 1
            self.frames.pop()

    # ---------------------------------------------------------- attributes

    def write_log(self, obj, field=None):
        if getattr(obj, "merged", False):
            raise Unsupported("write to one of several lists")
        if self.log is not None:
            self.log.append((obj, field))

    def getattr(self, v, name):
        if isinstance(v, Module):
            r = self.mod_lookup(v, name)
            if r is UNSET:
                pyraise("AttributeError", name)
            return r
        if isinstance(v, LibMod):
            return self.lib_lookup(v.name + "." + name)
        if isinstance(v, Super):
            m, c = v.obj.cls.lookup(name, after=v.cls)
            if m is None:
                for b in v.obj.cls.mro():
                    if isinstance(b, LibType) and getattr(b, "super_attr", None):
                        return b.super_attr(self, v.obj, name)
                if name == "__init__":
                    return Builtin("object.__init__", lambda it, a, k: None)
                pyraise("AttributeError", name)
            return self.bind_attr(m, v.obj)
        cls = getattr(v, "cls", None)
        if isinstance(v, Obj):
            m, c = v.cls.lookup(name)
            if isinstance(m, Prop) and not m.cached:
                return self.call(m.fget, [v])
            if name in v.fields:
                r = v.fields[name]
                if callable(r) and getattr(r, "_lazy_field", False):
                    r = r()
                    v.fields[name] = r
                if r is POISON:
                    raise Unsupported("field %s from an earlier loop iteration" % name)
                return r
            if name == "__dict__":
                return FieldsDict(v)
            if name == "__class__":
                return v.cls
            if m is not None:
                if isinstance(m, Prop):
                    r = self.call(m.fget, [v])
                    v.fields[name] = r
                    self.write_log(v, name)
                    return r
                return self.bind_attr(m, v)
            ga, c = v.cls.lookup("__getattr__")
            if ga is not None:
                return self.call(ga, [v, name])
            pyraise("AttributeError", name)
        if isinstance(cls, Cls):  # host object with an interpreted class (symbolic graph)
            m, c = cls.lookup(name)
            if m is not None:
                if isinstance(m, Prop):
                    return self.call(m.fget, [v])
                return self.bind_attr(m, v)
        if isinstance(v, Cls):
            m, c = v.lookup(name)
            if m is not None:
                return m
            if name == "__name__":
                return v.name
            pyraise("AttributeError", name)
        h = getattr(v, "__pyvc_getattr__", None)
        if h is not None:
            r = h(self, name)
            if r is not NotImplemented:
                return r
        for h in HOSTATTR:
            r = h(self, v, name)
            if r is not NotImplemented:
                return r
        if isinstance(v, (Fn, Bound)) and name == "__name__":
            return v.name if isinstance(v, Fn) else v.fn.name
        if v is None or is_num(v) or isinstance(v, (str, tuple, VList, VDict, VSet, Fn, Bound)):
            pyraise("AttributeError", name)
        if isinstance(v, Builtin) and "%s.%s" % (v.name, name) in LIB:
            return LIB["%s.%s" % (v.name, name)]
        raise Unsupported("attribute %s of %r" % (name, v))

    def bind_attr(self, m, obj):
        if isinstance(m, (Fn, Builtin)):
            return Bound(obj, m)
        if isinstance(m, Prop):
            return self.call(m.fget, [obj])
        if isinstance(m, tuple) and m and m[0] == "static":
            return m[1]
        return m

    def setattr(self, v, name, val):
        if isinstance(v, Obj):
            m, c = v.cls.lookup(name)
            if isinstance(m, Prop) and not m.cached:
                if m.fset is None:
                    pyraise("AttributeError", "can't set attribute")
                self.call(m.fset, [v, val])
                return
            if name == "__dict__":
                if isinstance(val, FieldsDict):
                    v.fields = val.obj.fields
                    self.write_log(v, None)
                    return
                raise Unsupported("__dict__ assignment")
            self.write_log(v, name)
            v.fields[name] = val
            return
        h = getattr(v, "__pyvc_setattr__", None)
        if h is not None:
            return h(self, name, val)
        raise Unsupported("attribute assignment on %r" % (v,))

    # ---------------------------------------------------------- statements

    def block(self, stmts, fr):
        for st in stmts:
            self.stmt(st, fr)

    def stmt(self, st, fr):
        m = getattr(self, "st_" + type(st).__name__, None)
        if m is None:
            raise Unsupported("statement %s" % type(st).__name__)
        return m(st, fr)

    def st_Expr(self, st, fr):
        if isinstance(st.value, ast.Constant):
            return
        if isinstance(st.value, ast.Yield):
            v = self.ev(st.value.value, fr) if st.value.value else None
            if fr.yields is None:
                raise Unsupported("yield")
            h = getattr(fr.yields, "__pyvc_yield__", None)
            if h:
                h(self, v)
            else:
                fr.yields.append(v)
                self.write_log(fr.yields)
            return
        self.ev(st.value, fr)

    def st_Pass(self, st, fr):
        pass

    def st_Return(self, st, fr):
        raise ReturnX(self.ev(st.value, fr) if st.value is not None else None)

    def st_Break(self, st, fr):
        raise BreakX()

    def st_Continue(self, st, fr):
        raise ContinueX()

    def st_Assign(self, st, fr):
        v = self.ev(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)

    def st_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, fr), fr)

    def st_AugAssign(self, st, fr):
        op = _BINOPS[type(st.op)]
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, fr)
            r = self.ev(st.value, fr)
            nv = self.iop(op, cur, r)
            self.assign(t, nv, fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            cur = self.getattr(o, t.attr)
            r = self.ev(st.value, fr)
            self.setattr(o, t.attr, self.iop(op, cur, r))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            k = self.ev_index(t.slice, fr)
            cur = self.getitem(o, k)
            if isinstance(o, SArr) and isinstance(cur, SArr):
                cur = cur.copy()  # numpy updates the view and stores it back
            r = self.ev(st.value, fr)
            self.setitem(o, k, self.iop(op, cur, r))
        else:
            raise Unsupported("augmented assignment")

    def iop(self, op, cur, r):
        """in place operators"""
        if isinstance(cur, SArr):
            new = self.binop(op, cur, r)
            if cur.dtype == "gf2" and new.dtype == "gf2" or new.dtype == cur.dtype or ops._DT[new.dtype] <= ops._DT[cur.dtype]:
                self.arr_assign_all(cur, new)
                return cur
            if cur.dtype in ("i", "b") and new.dtype in ("f", "c") or cur.dtype == "f" and new.dtype == "c":
                pyraise("TypeError", "Cannot cast ufunc output")
            raise Unsupported("in place operation changes the dtype")
        if isinstance(cur, VList) and op == "+":
            from .lib_py import list_extend

            return list_extend(self, cur, r)
        if isinstance(cur, SSeq) and op == "+" and cur.kind == "list":
            from .lib_py import list_extend

            return list_extend(self, cur, r)
        if isinstance(cur, (VSet, SSet)) and op in ("|", "&", "-"):
            raise Unsupported("in place set operator")
        return self.binop(op, cur, r)

    def arr_assign_all(self, a, new):
        ctx = self.ctx
        sh, pa, pn = ops.broadcast_shape(ctx, a.shape, new.shape if isinstance(new, SArr) else ())
        f = new.snap() if isinstance(new, SArr) else (lambda *i: new)
        dt = a.dtype
        self.write_log(a.root())
        if a.base is None:
            a._f = lambda *i: ops.as_entry(f(*pn(*i)), dt)
        else:
            raise Unsupported("in place operation on a view")

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            f = fr
            if t.id in fr.nonlocals:
                f = fr.parent
                while f is not None and t.id not in f.vars:
                    f = f.parent
                if f is None:
                    raise Unsupported("global assignment")
            f.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, len(t.elts), any(isinstance(e, ast.Starred) for e in t.elts), t)
            for e, x in zip(t.elts, vals):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            self.setitem(o, self.ev_index(t.slice, fr), v)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, n, star=False, t=None):
        if isinstance(v, SSeq):
            if not self.ctx.branch(z(v.n) == n):
                pyraise("ValueError", "unpack")
            return [v.f(i) for i in range(n)]
        vals = self.iterate(v)
        if vals is None:
            raise Unsupported("unpacking of a symbolic sequence")
        if star:
            k = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)][0]
            after = n - k - 1
            if len(vals) < n - 1:
                pyraise("ValueError", "unpack")
            return list(vals[:k]) + [VList(vals[k : len(vals) - after])] + list(vals[len(vals) - after :])
        if len(vals) != n:
            pyraise("ValueError", "unpack: expected %d values, got %d" % (n, len(vals)))
        return vals

    def st_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Name):
                fr.vars[t.id] = UNSET
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, fr)
                k = self.ev_index(t.slice, fr)
                self.delitem(o, k)
            else:
                raise Unsupported("del")

    def st_If(self, st, fr):
        if self.cond(st.test, fr):
            self.block(st.body, fr)
        else:
            self.block(st.orelse, fr)

    def cond(self, e, fr):
        return self.ctx.branch(self.truth(self.ev(e, fr)))

    def st_Assert(self, st, fr):
        if not self.cond(st.test, fr):
            pyraise("AssertionError")

    def st_Raise(self, st, fr):
        if st.exc is None:
            if self.handling:
                raise self.handling[-1]
            pyraise("RuntimeError", "No active exception to reraise")
        v = self.ev(st.exc, fr)
        if isinstance(v, PyExcVal):
            raise PyExc(v.cls, v.eargs)
        if isinstance(v, Exc) or isinstance(v, Cls):
            raise PyExc(v, ())
        raise Unsupported("raise of %r" % (v,))

    def st_Try(self, st, fr):
        try:
            try:
                self.block(st.body, fr)
            except PyExc as e:
                for h in st.handlers:
                    if self.exc_match(e, h.type, fr):
                        if h.name:
                            fr.vars[h.name] = Opaque("exception")
                        self.handling.append(e)
                        try:
                            self.block(h.body, fr)
                        finally:
                            self.handling.pop()
                        break
                else:
                    raise
            else:
                self.block(st.orelse, fr)
        finally:
            if st.finalbody:
                self.block(st.finalbody, fr)

    def exc_match(self, e, t, fr):
        if t is None:
            return True
        v = self.ev(t, fr)
        ts = v if isinstance(v, tuple) else (v,)
        return any(_exc_sub(e.cls, x) for x in ts)

    def st_FunctionDef(self, st, fr):
        fr.vars[st.name] = self.make_fn(st, fr.module, fr, (fr.fn.qual if fr.fn else fr.module.name) + ".<locals>." + st.name)

    def st_Import(self, st, fr):
        for a in st.names:
            fr.vars[(a.asname or a.name).split(".")[0]] = self.import_module(a.name if a.asname else a.name.split(".")[0])

    def st_ImportFrom(self, st, fr):
        mod = fr.module._rel(st)
        for a in st.names:
            m = load_module(mod)
            v = self.mod_lookup(m, a.name) if m is not None else self.lib_lookup(mod + "." + a.name)
            fr.vars[a.asname or a.name] = v

    def st_Global(self, st, fr):
        raise Unsupported("global statement")

    def st_Nonlocal(self, st, fr):
        pass

    def st_Match(self, st, fr):
        v = self.ev(st.subject, fr)
        for c in st.cases:
            if self.ctx.branch(self.pattern(c.pattern, v, fr)):
                if c.guard is None or self.cond(c.guard, fr):
                    self.block(c.body, fr)
                    return

    def pattern(self, p, v, fr):
        if isinstance(p, ast.MatchValue):
            return self.eq(v, self.ev(p.value, fr))
        if isinstance(p, ast.MatchOr):
            out = False
            for q in p.patterns:
                out = Or(out, self.pattern(q, v, fr))
            return out
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None:
                c = self.pattern(p.pattern, v, fr)
            else:
                c = True
            if p.name:
                fr.vars[p.name] = v
            return c
        if isinstance(p, ast.MatchSingleton):
            return v is p.value
        raise Unsupported("match pattern")

    # ---------------------------------------------------------- loops

    def st_For(self, st, fr):
        seq = self.ev(st.iter, fr)
        vals = self.iterate(seq)
        if vals is not None:
            if isinstance(seq, (VList, VSet, VDict)):
                vals = list(vals)
            broke = False
            for x in vals:
                self.assign(st.target, x, fr)
                try:
                    self.block(st.body, fr)
                except ContinueX:
                    pass
                except BreakX:
                    broke = True
                    break
            if not broke:
                self.block(st.orelse, fr)
            return
        s = self.as_seq(seq)
        if s is None:
            raise Unsupported("iteration over %r" % (seq,))
        self.sym_loop(st, fr, s)

    def st_While(self, st, fr):
        spec = self.find_spec(st, fr)
        if spec is None:
            n = 0
            while True:
                if not self.cond(st.test, fr):
                    self.block(st.orelse, fr)
                    return
                n += 1
                if n > 64:
                    raise Unsupported("while loop without invariant in %s" % fr.fn.qual)
                try:
                    self.block(st.body, fr)
                except ContinueX:
                    pass
                except BreakX:
                    return
        self.sym_loop(st, fr, None, spec)

    def find_spec(self, st, fr):
        if fr.fn is None:
            return None
        for k, l in enumerate(loops_of(fr.fn.node)):
            if l is st:
                for key in ((fr.fn.qual, k), (fr.fn.name, k)):
                    if key in self.loop_specs:
                        return self.loop_specs[key]
        # the function was restructured: a spec may name a matcher
        for key, sp in self.loop_specs.items():
            if callable(getattr(sp, "matches", None)) and sp.matches(self, st, fr):
                return sp
        return None

    def sym_loop(self, st, fr, seq, spec=None):
        ctx = self.ctx
        spec = spec or self.find_spec(st, fr)
        where = "%s@loop%d" % (fr.fn.qual if fr.fn else fr.module.name, [l for l in loops_of(fr.fn.node)].index(st) if fr.fn else 0)
        if spec is None:
            raise Unsupported("loop over a symbolic sequence without invariant: %s" % where)
        if isinstance(st, ast.For) != (spec.kind == "for"):
            raise Unsupported("loop %s has the wrong kind for its invariant" % where)
        L = LoopState(self, st, fr, seq, where)
        spec = SpecGuard(spec)
        assigned = assigned_names(st.body + ([ast.Expr(value=st.target)] if False else []))
        if isinstance(st, ast.For):
            for nme in assigned_names([ast.Assign(targets=[st.target], value=ast.Constant(0))]):
                if nme not in assigned:
                    assigned.append(nme)
        L.assigned = assigned
        spec.bind(L)
        # initialisation
        spec.check(L, 0, "init")
        which = ctx.choose(2)
        saved_log = self.log
        epoch = birth()
        if which == 0:
            # an arbitrary iteration
            k = ctx.int("it")
            ctx.assume(k >= 0)
            if seq is not None:
                ctx.assume(k < z(seq.n), pc=True)
                if not ctx.feasible(z3.BoolVal(True)):
                    raise StopPath()
            L.k = k
            spec.havoc(L, k)
            for nme in assigned:
                if nme not in L.carried:
                    fr.vars[nme] = POISON
            covered = list(L.covered)
            self.log = []
            left = None
            try:
                if seq is not None:
                    self.assign(st.target, seq.f(k), fr)
                else:
                    if not self.cond(st.test, fr):
                        raise StopPath()
                spec.enter(L, k)
                try:
                    self.block(st.body, fr)
                except ContinueX:
                    pass
                except BreakX:
                    left = "break"
                except (ReturnX, PyExc):
                    self.check_frame(self.log, covered, epoch, where, L.guarded)
                    raise
                self.check_frame(self.log, covered, epoch, where, L.guarded)
            finally:
                inner = self.log
                self.log = saved_log
                if saved_log is not None and inner:
                    saved_log.extend(inner)
            if left == "break":
                spec.on_break(L, k)
                return
            spec.check(L, k + 1, "preserve")
            raise StopPath()
        # exit
        n = z(seq.n) if seq is not None else ctx.int("iters")
        if seq is not None:
            n = z3.If(n > 0, n, z3.IntVal(0)) if ctx.feasible(n < 0) else n
        else:
            ctx.assume(n >= 0)
        L.k = n
        spec.havoc(L, n)
        if self.log is not None:
            for o in L.covered:
                self.log.append((o, None))
        for nme in assigned:
            if nme not in L.carried:
                # value of the last iteration: unknown
                fr.vars[nme] = POISON
        if seq is None:
            if self.cond(st.test, fr):
                raise StopPath()
        spec.on_exit(L, n)
        self.block(st.orelse, fr)

    def check_frame(self, log, covered, epoch, where, guarded=()):
        for obj, field in log:
            if any(obj is g for g in guarded):
                raise Unsupported("loop %s writes to the value a name had before the iteration" % where)
            if getattr(obj, "born", epoch + 1) > epoch:
                continue
            if any(obj is c or (isinstance(c, tuple) and c[0] is obj and c[1] == field) for c in covered):
                continue
            raise Unsupported("loop %s writes %r.%s outside its frame" % (where, obj, field))

    # ---------------------------------------------------------- iteration

    def iterate(self, v):
        """concrete list of elements, or None if the length is symbolic"""
        if isinstance(v, (tuple, list)):
            return list(v)
        if isinstance(v, VDict):
            return list(v.keys())
        if isinstance(v, VSet):
            return sorted(v, key=lambda x: (str(type(x)), x)) if all(isinstance(x, (int, str)) for x in v) else list(v)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, SArr) and v.ndim >= 1 and not is_z3(v.shape[0]):
            return [self.getitem(v, i) for i in range(v.shape[0])]
        if isinstance(v, SSeq) and not is_z3(v.n):
            return [v.f(i) for i in range(v.n)]
        if isinstance(v, SSeq) and is_z3(v.n):
            n = z3.simplify(v.n)
            if z3.is_int_value(n):
                return [v.f(i) for i in range(n.as_long())]
        h = getattr(v, "__pyvc_iter__", None)
        if h is not None:
            s = h(self)
            return self.iterate(s)
        if v is None or isinstance(v, (bool, int, Fraction, Fn)):
            pyraise("TypeError", "object is not iterable")
        if isinstance(v, Obj):
            m, c = v.cls.lookup("__iter__")
            if m is not None:
                return self.iterate(self.call(m, [v]))
            g, _ = v.cls.lookup("__getitem__")
            l, _ = v.cls.lookup("__len__")
            if g is not None and l is not None:
                n = self.call(l, [v])
                if not is_z3(n):
                    return [self.call(g, [v, i]) for i in range(n)]
        return None

    def as_seq(self, v):
        if isinstance(v, SSeq):
            return v
        if isinstance(v, SArr):
            return SSeq(v.shape[0], lambda i: self.getitem(v, i))
        if isinstance(v, (tuple, list)):
            return SSeq(len(v), lambda i: ops.seq_get(v, i))
        if isinstance(v, SDict) and v.keys is not None:
            return v.keys
        if isinstance(v, SSet):
            from .lib_py import enum_set

            return enum_set(self, v)
        h = getattr(v, "__pyvc_iter__", None)
        if h is not None:
            return self.as_seq(h(self))
        if isinstance(v, Obj):
            g, _ = v.cls.lookup("__getitem__")
            l, _ = v.cls.lookup("__len__")
            if g is not None and l is not None:
                n = self.call(l, [v])
                return SSeq(n, lambda i: self.call(g, [v, i]))
        return None

    # ---------------------------------------------------------- expressions

    def ev(self, e, fr):
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s" % type(e).__name__)
        return m(e, fr)

    def ev_Constant(self, e, fr):
        v = e.value
        if isinstance(v, float):
            return Fraction(repr(v))
        if isinstance(v, complex):
            return Cx(Fraction(repr(v.real)), Fraction(repr(v.imag)))
        return v

    def ev_Name(self, e, fr):
        return self.lookup(e.id, fr)

    def ev_Attribute(self, e, fr):
        return self.getattr(self.ev(e.value, fr), e.attr)

    def ev_JoinedStr(self, e, fr):
        parts = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                parts.append(p.value)
                continue
            try:
                v = self.ev(p.value, fr)
                if p.format_spec is not None and is_sym_num(v) and v.is_int() and p.conversion == -1:
                    from . import lib_py

                    v = lib_py.format_value(self, v, self.ev(p.format_spec, fr))
                    if len(e.values) == 1:
                        return v
            except Unsupported:
                return Opaque("fstring")
            if isinstance(v, (str, int)) and not isinstance(v, bool) and p.format_spec is None and p.conversion == -1:
                parts.append(str(v))
            elif is_sym_num(v) and v.is_int() and p.format_spec is None and p.conversion == -1:
                parts.append(v)
            else:
                parts.append(None)
        return join_parts(parts, "fstring")

    def ev_Tuple(self, e, fr):
        return tuple(self.elements(e.elts, fr))

    def elements(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, fr)
                vals = self.iterate(v)
                if vals is None:
                    return SymElems(out, v)
                out.extend(vals)
            else:
                out.append(self.ev(x, fr))
        return out

    def ev_List(self, e, fr):
        # [a, *symbolic, b]
        if any(isinstance(x, ast.Starred) for x in e.elts):
            segs = []
            cur = []
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    v = self.ev(x.value, fr)
                    vals = self.iterate(v)
                    if vals is None:
                        segs.append(VList(cur)) if cur else None
                        cur = []
                        segs.append(self.as_seq(v))
                    else:
                        cur.extend(vals)
                else:
                    cur.append(self.ev(x, fr))
            if not segs:
                return VList(cur)
            if cur:
                segs.append(VList(cur))
            out = segs[0]
            for s in segs[1:]:
                from .lib_py import seq_concat

                out = seq_concat(self, out, s)
            return out
        return VList(self.ev(x, fr) for x in e.elts)

    def ev_Set(self, e, fr):
        from .lib_py import make_set

        return make_set(self, VList(self.elements(e.elts, fr)))

    def ev_Dict(self, e, fr):
        from .lib_py import dict_set, dict_update

        d = VDict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = dict_update(self, d, self.ev(v, fr))
            else:
                d = dict_set(self, d, self.ev(k, fr), self.ev(v, fr))
        return d

    def ev_IfExp(self, e, fr):
        c = self.truth(self.ev(e.test, fr))
        return self.ev(e.body if self.ctx.branch(c) else e.orelse, fr)

    def ev_BoolOp(self, e, fr):
        is_and = isinstance(e.op, ast.And)
        v = None
        for k, x in enumerate(e.values):
            v = self.ev(x, fr)
            if k == len(e.values) - 1:
                return v
            t = self.truth(v)
            if is_sym_bool(t) and is_sym_bool(v) and self.pure_bool(e.values[k + 1 :], fr):
                rest = [self.truth(self.ev(y, fr)) for y in e.values[k + 1 :]]
                return And(t, *rest) if is_and else Or(t, *rest)
            b = self.ctx.branch(t)
            if b != is_and:
                return v
        return v

    def pure_bool(self, es, fr):
        """comparisons of names/constants only: cannot raise, no short circuit needed"""
        for e in es:
            if not isinstance(e, ast.Compare):
                return False
            for x in [e.left] + e.comparators:
                if isinstance(x, ast.Name):
                    try:
                        v = self.lookup(x.id, fr)
                    except PyExc:
                        return False
                    if not is_num(v):
                        return False
                elif not isinstance(x, ast.Constant):
                    return False
            if any(isinstance(o, (ast.In, ast.NotIn, ast.Is, ast.IsNot)) for o in e.ops):
                return False
        return True

    def ev_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            return Not(self.truth(v))
        if isinstance(e.op, ast.USub):
            if isinstance(v, SArr):
                return ops.arr_map(self.ctx, v, lambda x: ops.neg(self.ctx, x))
            if isinstance(v, Obj):
                return self.dunder(v, "__neg__", [])
            return ops.neg(self.ctx, v)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            if isinstance(v, Obj):
                return self.dunder(v, "__invert__", [])
            if isinstance(v, SArr) and v.dtype == "b":
                return ops.arr_map(self.ctx, v, Not)
            if isinstance(v, int):
                return ~v
            if is_int(v):
                return ops.sub(self.ctx, ops.neg(self.ctx, zint(v)), 1)
        raise Unsupported("unary operator")

    def dunder(self, v, name, args):
        m, c = v.cls.lookup(name)
        if m is None:
            pyraise("TypeError", "unsupported operand (%s)" % name)
        return self.call(m, [v] + list(args))

    def ev_BinOp(self, e, fr):
        a = self.ev(e.left, fr)
        b = self.ev(e.right, fr)
        return self.binop(_BINOPS[type(e.op)], a, b)

    def binop(self, op, a, b):
        ctx = self.ctx
        if isinstance(a, Obj) or isinstance(b, Obj):
            for o, other, nm in ((a, b, _DUNDER[op][0]), (b, a, _DUNDER[op][1])):
                if isinstance(o, Obj):
                    m, c = o.cls.lookup(nm)
                    if m is not None:
                        return self.call(m, [o, other])
            pyraise("TypeError", "unsupported operand type(s) for %s" % op)
        h = getattr(a, "__pyvc_binop__", None)
        if h is not None:
            r = h(self, op, a, b)
            if r is not NotImplemented:
                return r
        h = getattr(b, "__pyvc_binop__", None)
        if h is not None:
            r = h(self, op, a, b)
            if r is not NotImplemented:
                return r
        if isinstance(a, SArr) or isinstance(b, SArr):
            if isinstance(a, (VList, SSeq)) or isinstance(b, (VList, SSeq)):
                conv = LIB["numpy.array"].fn
                a = conv(self, [a], {}) if isinstance(a, (VList, SSeq)) else a
                b = conv(self, [b], {}) if isinstance(b, (VList, SSeq)) else b
            if op == "@":
                return ops.matmul(ctx, a, b)
            if (is_num(a) or isinstance(a, SArr)) and (is_num(b) or isinstance(b, SArr)):
                return ops.arr_binop(ctx, op, a, b)
            pyraise("TypeError", "array operand")
        if is_num(a) and is_num(b):
            return ops.scalar_op(ctx, op, a, b)
        if isinstance(a, str) and isinstance(b, str) and op == "+":
            return a + b
        if isinstance(a, str) and op == "*" and isinstance(b, int):
            return a * b
        if isinstance(a, (str, SStr, Opaque)) and isinstance(b, (str, SStr, Opaque)) and op == "+":
            pa, pb = ([x] if isinstance(x, str) else getattr(x, "parts", [None]) for x in (a, b))
            return join_parts(pa + pb, "string")
        from . import lib_py

        return lib_py.binop(self, op, a, b)

    def ev_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        out = True
        for k, (o, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(r, fr)
            c = self.compare(o, left, right)
            if k == 0:
                out = c
            else:
                if not self.ctx.branch(self.truth(out)):
                    return out
                out = c
            if len(e.ops) > 1 and k < len(e.ops) - 1 and is_sym_bool(out) is False and out is False:
                return False
            left = right
        return out

    def compare(self, o, a, b):
        if isinstance(o, ast.Is):
            return self.is_(a, b)
        if isinstance(o, ast.IsNot):
            return Not(self.is_(a, b))
        if isinstance(o, ast.In):
            return self.contains(b, a)
        if isinstance(o, ast.NotIn):
            return Not(self.contains(b, a))
        op = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}[type(o)]
        if isinstance(a, Obj) or isinstance(b, Obj):
            nm = {"==": ("__eq__", "__eq__"), "!=": ("__ne__", "__ne__"), "<": ("__lt__", "__gt__"), "<=": ("__le__", "__ge__"), ">": ("__gt__", "__lt__"), ">=": ("__ge__", "__le__")}[op]
            for o_, other, n in ((a, b, nm[0]), (b, a, nm[1])):
                if isinstance(o_, Obj):
                    m, c = o_.cls.lookup(n)
                    if m is not None:
                        return self.call(m, [o_, other])
                    if op == "!=":
                        m, c = o_.cls.lookup("__eq__")
                        if m is not None:
                            return Not(self.truth(self.call(m, [o_, other])))
            if op == "==":
                return a is b
            if op == "!=":
                return a is not b
            pyraise("TypeError", "not comparable")
        if isinstance(a, SArr) or isinstance(b, SArr):
            if isinstance(a, (VList, SSeq)) or isinstance(b, (VList, SSeq)):
                conv = LIB["numpy.array"].fn
                a = conv(self, [a], {}) if isinstance(a, (VList, SSeq)) else a
                b = conv(self, [b], {}) if isinstance(b, (VList, SSeq)) else b
            if (is_num(a) or isinstance(a, SArr)) and (is_num(b) or isinstance(b, SArr)):
                return ops.arr_binop(self.ctx, op, a, b)
            if op in ("==", "!="):
                return op == "!="
        if op == "==":
            return self.eq(a, b)
        if op == "!=":
            return Not(self.eq(a, b))
        if is_num(a) and is_num(b):
            return ops.compare(self.ctx, op, a, b)
        from . import lib_py

        return lib_py.order(self, op, a, b)

    def is_(self, a, b):
        if a is b:
            return True
        if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
            return Iff(a, b)
        h = getattr(a, "__pyvc_is__", None) or getattr(b, "__pyvc_is__", None)
        if h:
            return h(self, a, b)
        if a is None or b is None:
            return False
        if isinstance(a, (int, str)) and isinstance(b, (int, str)):
            return type(a) is type(b) and a == b
        return False

    def eq(self, a, b):
        if isinstance(a, Obj) or isinstance(b, Obj):
            return self.truth(self.compare(ast.Eq(), a, b))
        h = getattr(a, "__pyvc_eq__", None) or getattr(b, "__pyvc_eq__", None)
        if h:
            return h(self, a, b)
        return ops.value_eq(self.ctx, a, b)

    def truth(self, v):
        if isinstance(v, (bool, z3.BoolRef)):
            return v
        if v is None:
            return False
        if isinstance(v, (int, Fraction)):
            return v != 0
        if is_sym_num(v):
            return v != 0
        if isinstance(v, Cx):
            return Not(ops.compare(self.ctx, "==", v, 0))
        if isinstance(v, (str, tuple, VList, VDict, VSet)):
            return len(v) > 0
        if isinstance(v, SStr):
            return v.code != intern_str("")
        if isinstance(v, SSeq):
            return z(v.n) > 0
        if isinstance(v, SArr):
            if all(not is_z3(d) for d in v.shape):
                tot = 1
                for d in v.shape:
                    tot *= d
                if tot == 1:
                    return self.truth(v.get(*([0] * v.ndim)))
            pyraise("ValueError", "truth value of an array is ambiguous")
        if isinstance(v, Obj):
            m, c = v.cls.lookup("__bool__")
            if m is not None:
                return self.truth(self.call(m, [v]))
            m, c = v.cls.lookup("__len__")
            if m is not None:
                return self.truth(self.call(m, [v]))
            return True
        if isinstance(v, (Fn, Bound, Builtin, Cls)):
            return True
        h = getattr(v, "__pyvc_truth__", None)
        if h is not None:
            return h(self)
        from . import lib_py

        return lib_py.truth(self, v)

    def contains(self, c, x):
        from . import lib_py

        if isinstance(c, Obj):
            m, k = c.cls.lookup("__contains__")
            if m is not None:
                return self.truth(self.call(m, [c, x]))
            s = self.as_seq(c)
            if s is not None:
                return lib_py.contains(self, s, x)
        return lib_py.contains(self, c, x)

    def ev_Subscript(self, e, fr):
        o = self.ev(e.value, fr)
        return self.getitem(o, self.ev_index(e.slice, fr))

    def ev_index(self, s, fr):
        if isinstance(s, ast.Slice):
            return self.ev_Slice(s, fr)
        if isinstance(s, ast.Tuple):
            return tuple(self.ev_index(x, fr) for x in s.elts)
        return self.ev(s, fr)

    def ev_Slice(self, s, fr):
        g = lambda x: None if x is None else self.ev(x, fr)
        return PySlice(g(s.lower), g(s.upper), g(s.step))

    def getitem(self, o, k):
        from . import lib_py, lib_numpy

        if isinstance(o, Obj):
            m, c = o.cls.lookup("__getitem__")
            if m is not None:
                return self.call(m, [o, k])
        if isinstance(o, SArr):
            return lib_numpy.arr_getitem(self, o, k)
        h = getattr(o, "__pyvc_getitem__", None)
        if h is not None:
            return h(self, k)
        return lib_py.getitem(self, o, k)

    def setitem(self, o, k, v):
        from . import lib_py, lib_numpy

        if isinstance(o, Obj):
            m, c = o.cls.lookup("__setitem__")
            if m is not None:
                return self.call(m, [o, k, v])
        if isinstance(o, SArr):
            return lib_numpy.arr_setitem(self, o, k, v)
        h = getattr(o, "__pyvc_setitem__", None)
        if h is not None:
            return h(self, k, v)
        return lib_py.setitem(self, o, k, v)

    def delitem(self, o, k):
        from . import lib_py

        if isinstance(o, Obj):
            m, c = o.cls.lookup("__delitem__")
            if m is not None:
                return self.call(m, [o, k])
        h = getattr(o, "__pyvc_delitem__", None)
        if h is not None:
            return h(self, k)
        return lib_py.delitem(self, o, k)

    def ev_Call(self, e, fr):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            f = fr
            while f is not None and not (f.fn is not None and f.fn.cls is not None):
                f = f.parent
            if f is None:
                raise Unsupported("super() outside a method")
            first = f.fn.node.args.args[0].arg
            return Super(f.vars[first], f.fn.cls)
        f = self.ev(e.func, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, fr)
                vals = self.iterate(v)
                if vals is None:
                    args.append(StarArg(v))
                else:
                    args.extend(vals)
            elif isinstance(a, ast.GeneratorExp):
                args.append(self.ev(a, fr))
            else:
                args.append(self.ev(a, fr))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, fr)
                if not isinstance(d, VDict):
                    raise Unsupported("** of %r" % (d,))
                for kk, vv in d.items():
                    if kk in kwargs:
                        pyraise("TypeError", "multiple values for keyword %s" % kk)
                    kwargs[kk] = vv
            else:
                kwargs[k.arg] = self.ev(k.value, fr)
        return self.call(f, args, kwargs)

    def ev_Lambda(self, e, fr):
        return self.make_fn(e, fr.module, fr, (fr.fn.qual if fr.fn else fr.module.name) + ".<lambda>")

    def ev_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    # comprehensions

    def comp_frame(self, e, fr):
        names = set()
        for g in e.generators:
            names.update(assigned_names([ast.Assign(targets=[g.target], value=ast.Constant(0))]))
        f = Frame(fr.module, fr, names, None)
        return f

    def ev_ListComp(self, e, fr):
        return self.comp(e, fr, "list")

    def ev_GeneratorExp(self, e, fr):
        return self.comp(e, fr, "gen")

    def ev_SetComp(self, e, fr):
        from .lib_py import make_set

        return make_set(self, self.comp(e, fr, "list"))

    def ev_DictComp(self, e, fr):
        from .lib_py import dict_from_pairs

        pair = ast.Tuple(elts=[e.key, e.value], ctx=ast.Load())
        e2 = ast.ListComp(elt=pair, generators=e.generators)
        return dict_from_pairs(self, self.comp(e2, fr, "list"))

    def comp(self, e, fr, kind):
        cf = self.comp_frame(e, fr)
        cf.fn = fr.fn
        return self.comp_gen(e, 0, cf, fr)

    def comp_gen(self, e, k, cf, outer):
        from .lib_py import seq_concat, seq_flatten

        g = e.generators[k]
        it = self.ev(g.iter, outer if k == 0 else cf)
        vals = self.iterate(it)
        last = k == len(e.generators) - 1
        if vals is not None:
            out = VList()
            for x in vals:
                self.assign(g.target, x, cf)
                if all(self.cond(c, cf) for c in g.ifs):
                    if last:
                        if isinstance(out, VList):
                            out.append(self.ev(e.elt, cf))
                        else:
                            out = seq_concat(self, out, VList([self.ev(e.elt, cf)]))
                    else:
                        sub = self.comp_gen(e, k + 1, cf, outer)
                        if isinstance(sub, VList) and isinstance(out, VList):
                            out.extend(sub)
                        else:
                            out = seq_concat(self, out, sub)
            return out
        s = self.as_seq(it)
        if s is None:
            from .lib_py import comp_over_set

            if last:
                return comp_over_set(self, e, g, it, cf)
            raise Unsupported("comprehension over %r" % (it,))
        elem = s.f
        if not last:
            def sub(q):
                self.assign(g.target, elem(q), cf)
                if g.ifs:
                    raise Unsupported("filter in nested comprehension")
                return self.comp_gen(e, k + 1, cf, outer)

            return seq_flatten(self, s.n, self.ctx.generic(s.n, sub))

        def val(q):
            self.assign(g.target, elem(q), cf)
            return self.ev(e.elt, cf)

        if not g.ifs:
            r = SSeq(s.n, self.ctx.generic(s.n, val))
            r.src = s.snap()
            return r

        def keep(q):
            self.assign(g.target, elem(q), cf)
            for c in g.ifs:
                t = self.truth(self.ev(c, cf))
                if t is False:
                    return False
                if t is not True and not self.ctx.branch(t):
                    return False
            return True

        kp = self.ctx.generic(s.n, keep)
        from .lib_py import seq_filter

        return seq_filter(self, s, kp, lambda: None, val)


class SpecGuard:
    """annotation code that no longer fits the program makes the function unsupported"""

    def __init__(self, spec):
        self.spec = spec

    def __getattr__(self, name):
        f = getattr(self.spec, name)
        if not callable(f):
            return f

        def g(*a):
            try:
                return f(*a)
            except (StopPath, Unsupported, RecursionError):
                raise
            except PyExc as e:
                raise Unsupported("loop annotation %s: %s" % (a[0].where if a else "", e))
            except z3.Z3Exception:
                raise
            except Exception as e:
                raise Unsupported("loop annotation %s: %s: %s" % (a[0].where if a else "", type(e).__name__, e))

        return g


def join_parts(parts, what):
    """text made of constants and decimal forms of symbolic integers"""
    out = []
    for p in parts:
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        elif not isinstance(p, str) or p:
            out.append(p)
    if all(isinstance(p, str) for p in out):
        return "".join(out)
    o = Opaque(what)
    if not any(p is None for p in out):
        o.parts = out
    return o


class LoopState:
    def __init__(self, it, st, fr, seq, where):
        self.it = it
        self.ctx = it.ctx
        self.st = st
        self.fr = fr
        self.seq = seq
        self.where = where
        self.entry = dict(fr.vars)
        self.snap = {}
        for k, v in fr.vars.items():
            if isinstance(v, SArr):
                self.snap[k] = v.copy()
            elif isinstance(v, SSeq):
                self.snap[k] = v.snap()
            elif isinstance(v, VList):
                self.snap[k] = VList(v)
            elif isinstance(v, VDict):
                self.snap[k] = VDict(v)
            else:
                self.snap[k] = v
        self.carried = set()
        self.covered = []
        self.guarded = []
        self.g = {}

    @property
    def n(self):
        return self.seq.n

    def v(self, name):
        """current value"""
        try:
            return self.it.lookup(name, self.fr)
        except PyExc:
            raise Unsupported("the invariant of %s names %s, which the code does not have" % (self.where, name))

    def e(self, name):
        """value at loop entry (snapshot); falls back to enclosing scopes"""
        if name in self.snap:
            return self.snap[name]
        return self.v(name)


class PyExcVal:
    def __init__(self, cls, eargs):
        self.cls, self.eargs = cls, eargs


class FieldsDict:
    def __init__(self, obj):
        self.obj = obj


class StarArg:
    def __init__(self, v):
        self.v = v


class SymElems(list):
    def __init__(self, out, v):
        raise Unsupported("starred symbolic sequence")


class PySlice:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


def _is_generator(node):
    for n in ast.walk(node):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
    return False


def _exc_sub(c, t):
    if isinstance(c, Exc) and isinstance(t, Exc):
        return c.subclass_of(t)
    if isinstance(c, Cls):
        return any(x is t or (isinstance(x, Exc) and isinstance(t, Exc) and x.subclass_of(t)) for x in c.mro())
    if isinstance(t, Exc) and t.name in ("Exception", "BaseException"):
        return True
    return False


_BINOPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**", ast.BitXor: "^", ast.BitAnd: "&", ast.BitOr: "|", ast.MatMult: "@", ast.LShift: "<<", ast.RShift: ">>"}
_DUNDER = {
    "+": ("__add__", "__radd__"), "-": ("__sub__", "__rsub__"), "*": ("__mul__", "__rmul__"), "/": ("__truediv__", "__rtruediv__"), "//": ("__floordiv__", "__rfloordiv__"),
    "%": ("__mod__", "__rmod__"), "**": ("__pow__", "__rpow__"), "^": ("__xor__", "__rxor__"), "&": ("__and__", "__rand__"), "|": ("__or__", "__ror__"), "@": ("__matmul__", "__rmatmul__"),
    "<<": ("__lshift__", "__rlshift__"), ">>": ("__rshift__", "__rrshift__"),
}
E_EXC = E["Exception"]
E["Warning"].base = E_EXC
E["UserWarning"].base = E["Warning"]
