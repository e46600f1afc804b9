"""strings of symbolic length: a string is its sequence of lines with respect to one
separator character (every string is of that form); a line is a string without separators"""
import z3

from . import ops
from .core import *
from .interp import *
from .interp import LIB
from .lib_py import intval, norm_index, slice_bounds, LISTM
from .ops import pyraise
from . import lib_py

I = z3.IntSort()


class AnyDom:
    def __contains__(self, x):
        return True

    def __iter__(self):
        return iter(())


ANY = AnyDom()


class AChar(SStr):
    def __init__(self, code):
        self.code = code
        self.domain = ANY


def code_of(c):
    return z(intern_str(c)) if isinstance(c, str) else z(c.code)


def const_line(s):
    cs = [intern_str(c) for c in s]

    def ch(j):
        out = z3.IntVal(0)
        for k, c in enumerate(cs):
            out = z3.If(z(j) == k, z3.IntVal(c), out)
        return out

    return SLine(len(s), ch)


class SLine:
    """string w/o separators: w characters, ch(j) the code of character j"""

    str_like = True

    def __init__(self, w, ch):
        self.w, self.ch = w, ch

    def __repr__(self):
        return "SLine(%s)" % (self.w,)

    def seq(self):
        ch = self.ch
        return SSeq(self.w, lambda j: AChar(ch(j)))

    def __pyvc_subst__(self, pairs):
        ch = self.ch
        return SLine(subst(self.w, pairs), lambda j: subst(z(ch(j)), pairs))

    def __pyvc_ite__(self, c, a, b):
        a, b = (const_line(x) if isinstance(x, str) else x for x in (a, b))
        if not (isinstance(a, SLine) and isinstance(b, SLine)):
            raise Unsupported("conditional string")
        return SLine(ite(c, a.w, b.w), lambda j: ite(c, a.ch(j), b.ch(j)))

    def __pyvc_iter__(self, it):
        return self.seq()

    def __pyvc_len__(self, it):
        return self.w

    def __pyvc_truth__(self, it):
        return z(self.w) > 0

    def __pyvc_getitem__(self, it, k):
        if isinstance(k, PySlice):
            lo, m = slice_bounds(it, k, self.w)
            ch = self.ch
            return SLine(m, lambda j: ch(ops.add(it.ctx, lo, j)))
        return AChar(self.ch(norm_index(it, intval(k), self.w)))

    def __pyvc_contains__(self, it, c):
        if isinstance(c, str) and len(c) == 1 or isinstance(c, AChar):
            j = z3.Int("j!sc")
            return z3.Exists([j], z3.And(j >= 0, j < z(self.w), z(self.ch(j)) == code_of(c)))
        raise Unsupported("substring test")

    def __pyvc_eq__(self, it, a, b):
        if isinstance(a, (str, SLine)) and isinstance(b, (str, SLine)):
            a, b = (const_line(x) if isinstance(x, str) else x for x in (a, b))
            if not is_z3(a.w) and a.w == 0 or not is_z3(b.w) and b.w == 0:
                return z(a.w) == z(b.w)
            j = z3.Int(it.ctx.uid("j_sl"))
            return z3.And(z(a.w) == z(b.w), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < z(a.w)), z(a.ch(j)) == z(b.ch(j)))))
        if isinstance(a, SLines) or isinstance(b, SLines):
            return SLines.__pyvc_eq__(self, it, a, b)
        return False

    def __pyvc_getattr__(self, it, name):
        if name in ("replace", "split", "strip", "upper"):
            raise Unsupported("str." + name)
        return NotImplemented

    def __pyvc_binop__(self, it, op, a, b):
        if op == "+" and all(isinstance(x, (str, SStr, SLine)) for x in (a, b)):
            a, b = (const_line(x) if isinstance(x, str) else SLine(1, lambda j, x=x: x.code) if isinstance(x, SStr) else x for x in (a, b))
            return SLine(ops.add(it.ctx, a.w, b.w), lambda j: ite(z(j) < z(a.w), z(a.ch(j)), z(b.ch(z3.simplify(z(j) - z(a.w))))))
        return NotImplemented


class SLines:
    """lines joined by the separator character sep"""

    str_like = True

    def __init__(self, sep, n, w, ch):
        self.sep, self.n, self.w, self.ch = sep, n, w, ch

    def __repr__(self):
        return "SLines(%r, %s)" % (self.sep, self.n)

    def lines(self):
        w, ch = self.w, self.ch
        return SSeq(self.n, lambda i: SLine(w(i), lambda j: ch(i, j)))

    def __pyvc_subst__(self, pairs):
        w, ch = self.w, self.ch
        return SLines(self.sep, subst(self.n, pairs), lambda i: subst(z(w(i)), pairs), lambda i, j: subst(z(ch(i, j)), pairs))

    def __pyvc_ite__(self, c, a, b):
        a, b = (as_lines(x, self.sep) for x in (a, b))
        return SLines(self.sep, ite(c, a.n, b.n), lambda i: ite(c, a.w(i), b.w(i)), lambda i, j: ite(c, a.ch(i, j), b.ch(i, j)))

    def __pyvc_truth__(self, it):
        return z3.Or(z(self.n) > 1, z(self.w(0)) > 0)

    def __pyvc_eq__(self, it, a, b):
        a, b = as_lines(a, None), as_lines(b, None)
        sep = a.sep or b.sep
        if a.sep is None:
            a = as_lines(a.src, sep)
        if b.sep is None:
            b = as_lines(b.src, sep)
        if a.sep != b.sep:
            raise Unsupported("comparison of strings with different separators")
        i, j = z3.Int(it.ctx.uid("i_sl")), z3.Int(it.ctx.uid("j_sl"))
        inr = z3.And(i >= 0, i < z(a.n))
        return z3.And(z(a.n) == z(b.n), z3.ForAll([i], z3.Implies(inr, z(a.w(i)) == z(b.w(i)))), z3.ForAll([i, j], z3.Implies(z3.And(inr, j >= 0, j < z(a.w(i))), z(a.ch(i, j)) == z(b.ch(i, j)))))

    def __pyvc_binop__(self, it, op, a, b):
        if op != "+" or a is not self or not isinstance(b, (str, SStr)):
            return NotImplemented
        if isinstance(b, str) and len(b) != 1:
            out = self
            for c in b:
                out = out.__pyvc_binop__(it, "+", out, c)
            return out
        w, ch, n = self.w, self.ch, self.n
        if isinstance(b, str) and b == self.sep:
            return SLines(self.sep, ops.add(it.ctx, n, 1), lambda i: ite(z(i) < z(n), z(w(i)), z3.IntVal(0)), ch)
        if not isinstance(b, str):
            it.ctx.prove("character is not the separator", z(b.code) != z(intern_str(self.sep)))
        last = z3.simplify(z(n) - 1)
        wl = w(last)
        c = code_of(b)
        return SLines(self.sep, n, lambda i: ite(z(i) == last, z(w(i)) + 1, z(w(i))), lambda i, j: ite(z3.And(z(i) == last, z(j) == z(wl)), c, z(ch(i, j))))

    def __pyvc_getitem__(self, it, k):
        ctx = it.ctx
        if isinstance(k, PySlice):
            # only s[:-1] of a string ending with the separator
            if k.lo is None and k.step is None and intval(k.hi) == -1:
                last = z3.simplify(z(self.n) - 1)
                if ctx.branch(z3.And(z(self.n) > 1, z(self.w(last)) == 0)):
                    r = SLines(self.sep, last, self.w, self.ch)
                    r.free_of = getattr(self, "free_of", ())
                    if getattr(self, "spaceless", None) is self:
                        r.spaceless = r
                    return r
            raise Unsupported("slice of a multi-line string")
        if intval(k) != -1:
            raise Unsupported("index into a multi-line string")
        last = z3.simplify(z(self.n) - 1)
        if ctx.branch(z(self.w(last)) > 0):
            c = self.ch(last, z3.simplify(z(self.w(last)) - 1))
            ctx.assume(z(c) != intern_str(self.sep))  # lines do not contain the separator
            return AChar(c)
        if not ctx.branch(z(self.n) > 1):
            pyraise("IndexError", "string index out of range")
        return self.sep

    def __pyvc_getattr__(self, it, name):
        if name == "split":
            def split(it_, a, k):
                if a != [self.sep] and tuple(a) != (self.sep,) or k:
                    raise Unsupported("split at another separator")
                return self.lines()

            return Builtin("str.split", split)
        if name == "splitlines":
            raise Unsupported("str.splitlines")
        if name == "replace":
            def rep(it_, a, k):
                if tuple(a) == (" ", ""):
                    if getattr(self, "spaceless", None) is not None:
                        return self.spaceless
                if a[0] == self.sep and isinstance(a[1], str) and len(a[1]) == 1:
                    no = getattr(self, "free_of", ())
                    if a[1] not in no:
                        raise Unsupported("replacement character may already occur")
                    return SLines(a[1], self.n, self.w, self.ch)
                raise Unsupported("str.replace")

            return Builtin("str.replace", rep)
        raise Unsupported("str." + name)


def as_lines(v, sep):
    if isinstance(v, SLines):
        return v
    if isinstance(v, SLine):
        w, ch = v.w, v.ch
        r = SLines(sep, 1, lambda i: w, lambda i, j: ch(j))
    elif isinstance(v, str):
        parts = [const_line(x) for x in (v.split(sep) if sep else [v])]

        def pick(f):
            def g(i, *j):
                out = f(parts[-1], *j)
                for k, p in enumerate(parts[:-1]):
                    out = z3.If(z(i) == k, z(f(p, *j)), z(out))
                return out

            return g

        r = SLines(sep, len(parts), pick(lambda p: p.w), pick(lambda p, j: p.ch(j)))
    else:
        raise Unsupported("string %r" % (v,))
    r.src = v
    return r


def join(it, sep, a):
    """sep.join(lines): the lines must not contain sep (they are lines)"""
    vals = it.iterate(a)
    s = it.as_seq(VList(vals) if vals is not None else a)
    if s is None:
        raise Unsupported("str.join")
    s = s.snap()

    def line(i):
        v = s.f(i)
        if isinstance(v, SLines) and not is_z3(v.n) and v.n == 1:
            v = SLine(v.w(0), lambda j: v.ch(0, j))
        if isinstance(v, str):
            v = const_line(v)
        if not isinstance(v, SLine):
            raise Unsupported("str.join of %r" % (v,))
        return v

    line(z3.Int(it.ctx.uid("i_join")))
    if not is_z3(s.n) and s.n == 0:
        return ""
    # joining nothing gives the empty string: one empty line
    n = z(s.n)
    r = SLines(sep, z3.If(n > 0, n, z3.IntVal(1)) if is_z3(s.n) else s.n, lambda i: z3.If(n > 0, z(line(i).w), z3.IntVal(0)) if is_z3(s.n) else line(i).w, lambda i, j: line(i).ch(j))
    r.free_of = ("\n", ";", " ")
    r.spaceless = r
    return r
