"""C11: commutator closure of a list of Pauli operators (mentpy/utils/lie_algebra.py)

Rows of Pauli operators are abstract identifiers (one per tableau row); `anti` says which pairs
anticommute and `mul` is the product; the methods of PauliOp are used by contract (C09)."""
import ast

from .common import *
from pyvc.core import intern_str
from pyvc.lib_py import intval
from pyvc.lib_str import SLine
from pyvc.spec import put

LA = "mentpy.utils.lie_algebra."
PO = "mentpy.operators.pauliop.PauliOp"
TRUSTED = ["methods of PauliOp (contains, equality, commutator, append, indexing) by their contracts (C09): containment and equality are those of the rows, a commutator of two single rows is their product if they anticommute and the integer 0 otherwise"]


class Alg:
    """the products and commutation relations of single Pauli operators"""

    def __init__(self, it):
        ctx = self.ctx = it.ctx
        self.it = it
        self.A, self.M = ctx.func("anti", I, I, B), ctx.func("mul", I, I, I)
        self.ident = ctx.int("identity")
        x, y = z3.Ints("x!al y!al")
        ctx.assume(z3.ForAll([x, y], self.A(x, y) == self.A(y, x), patterns=[self.A(x, y)]))
        ctx.assume(z3.ForAll([x, y], self.M(x, y) == self.M(y, x), patterns=[self.M(x, y)]))
        ctx.assume(z3.ForAll([x], z3.Not(self.A(x, x)), patterns=[self.A(x, x)]))
        ctx.trust("two Pauli operators anticommute symmetrically, none with itself; their product up to phase does not depend on the order (sum of rows over GF(2), C09)")
        self.nq = ctx.int("qubits")
        ctx.assume(self.nq >= 1)
        self.pcls = it.fn(PO)
        it.contracts[PO] = self.construct

    def construct(self, it_, a, k):
        """PauliOp("I" * n): the identity on n qubits"""
        v = list(a) + list(k.values())
        if len(v) != 1 or not isinstance(v[0], SLine):
            raise Unsupported("PauliOp of %r" % (v,))
        self.ctx.prove("the identity has the size of the operators", z(v[0].w) == self.nq)
        j = self.ctx.int("letter")
        self.ctx.prove("the operator added is the identity", Implies(rng(j, v[0].w), z(v[0].ch(j)) == intern_str("I")), assume=False)
        return self.one(self.ident)

    def one(self, x):
        return Ops(self, 1, lambda t: z(x), lambda y: z(y) == z(x))


class Mat:
    def __init__(self, shape):
        self.shape = shape

    def __pyvc_getattr__(self, it, name):
        if name == "shape":
            return self.shape
        raise Unsupported("matrix." + name)


class Ops:
    """a PauliOp: list of n rows, at(t) the t-th row, mem(x) whether x is a row"""

    def __init__(self, alg, n, at, mem, view=False):
        self.alg, self.n, self.at, self.mem, self.view = alg, n, at, mem, view
        self.pcls = alg.pcls
        self.born = birth()
        self.gone = False

    def single(self):
        return not is_z3(self.n) and self.n == 1

    def __pyvc_subst__(self, pairs):
        n = z3.substitute(z(self.n), *[(a, z(b)) for a, b in pairs]) if is_z3(self.n) else self.n
        return Ops(self.alg, n, lambda t: z3.substitute(z(self.at(t)), *[(a, z(b)) for a, b in pairs]), lambda y: z3.substitute(z(self.mem(y)), *[(a, z(b)) for a, b in pairs]), True)

    def __pyvc_ite__(self, c, a, b):
        if not (isinstance(a, Ops) and isinstance(b, Ops) and a.single() and b.single()):
            raise Unsupported("merging operators")
        return self.alg.one(z3.If(c, z(a.at(0)), z(b.at(0))))

    def row(self, t):
        r = self.alg.one(self.at(t))
        r.view = True
        return r

    def __pyvc_iter__(self, it):
        if self.gone:
            raise Unsupported("iterating an operator whose first row was changed")
        return SSeq(self.n, lambda t: self.row(t))

    def __pyvc_len__(self, it):
        return self.n

    def __pyvc_getitem__(self, it, k):
        if not (isinstance(k, (int, z3.ArithRef)) and not isinstance(k, bool)):
            raise Unsupported("slice of operators")
        if self.single():
            if k != 0:
                ops.pyraise("IndexError", k)
            return self
        if not it.ctx.branch(rng(k, self.n)):
            raise Unsupported("index out of range")
        return self.row(k)

    def __pyvc_contains__(self, it, x):
        if not isinstance(x, Ops) or not x.single():
            raise Unsupported("containment of several rows")
        return z(self.mem(x.at(0)))

    def __pyvc_eq__(self, it, a, b):
        if not all(isinstance(o, Ops) and o.single() for o in (a, b)):
            raise Unsupported("equality of several rows")
        return z(a.at(0)) == z(b.at(0))

    def __pyvc_isinstance__(self, it, t):
        if t is self.pcls:
            return True
        raise Unsupported("isinstance of an operator")

    def __pyvc_deepcopy__(self, it, memo):
        return Ops(self.alg, self.n, self.at, self.mem)

    def __pyvc_getattr__(self, it, name):
        if name == "matrix":
            return Mat((self.n, z3.simplify(2 * self.alg.nq)))
        if name == "number_of_qubits":
            return self.alg.nq
        f = getattr(self, "m_" + name, None)
        if f is None:
            raise Unsupported("PauliOp." + name)
        return Builtin(name, f)

    def m_commutator(self, it, a, k):
        o = a[0]
        if not isinstance(o, Ops) or not (o.single() and self.single()):
            raise Unsupported("commutator of several rows")
        x, y = z(self.at(0)), z(o.at(0))
        if it.ctx.branch(self.alg.A(x, y)):
            return self.alg.one(self.alg.M(x, y))
        return 0

    def m_append(self, it, a, k):
        o = a[0]
        if not isinstance(o, Ops) or not o.single():
            raise Unsupported("appending several rows")
        if self.view:
            raise Unsupported("appending to a row of another operator")
        it.write_log(self)
        n, at, mem, x = z(self.n), self.at, self.mem, o.at(0)
        self.n = z3.simplify(n + 1)
        self.at = lambda t: z3.If(z(t) < n, z(at(t)), z(x))
        self.mem = lambda y: z3.Or(z(mem(y)), z(y) == z(x))


class Pairs:
    """a set of ordered pairs of single operators"""

    def __init__(self, has):
        self.has = has
        self.born = birth()

    def pair(self, p):
        if not (isinstance(p, tuple) and len(p) == 2 and all(isinstance(x, Ops) and x.single() for x in p)):
            raise Unsupported("not a pair of operators")
        return z(p[0].at(0)), z(p[1].at(0))

    def __pyvc_contains__(self, it, p):
        return z(self.has(*self.pair(p)))

    def __pyvc_getattr__(self, it, name):
        if name == "add":
            def f(it_, a, k):
                it_.write_log(self)
                has, (x, y) = self.has, self.pair(a[0])
                self.has = lambda u, v: z3.Or(z(has(u, v)), z3.And(z(u) == x, z(v) == y))

            return Builtin("add", f)
        raise Unsupported("set." + name)


def generators(it, alg, name="gen"):
    """an arbitrary list of at least one operator; where(x) is a position of x if it is listed"""
    ctx = it.ctx
    n, g, w, mem = ctx.int(name + "_n"), ctx.func(name, I, I), ctx.func(name + "_where", I, I), ctx.func(name + "_has", I, B)
    ctx.assume(n >= 1)
    t, x = z3.Ints("t!ge x!ge")
    ctx.define(z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < n), mem(g(t))), patterns=[g(t)]))
    ctx.define(z3.ForAll([x], z3.Implies(mem(x), z3.And(w(x) >= 0, w(x) < n, g(w(x)) == x)), patterns=[mem(x)]))
    return Ops(alg, n, lambda t: g(z(t)), lambda x: mem(z(x))), g, n, mem, w


def lib_combinations(it):
    """itertools.combinations(s, 2): every pair of positions i < j, once each"""
    ctx = it.ctx

    def f(it_, a, k):
        if intval(a[1]) != 2:
            raise Unsupported("combinations")
        s = it_.as_seq(a[0])
        if s is None:
            raise Unsupported("combinations")
        s = s.snap()
        m = ctx.int("pairs")
        pi, pj, rk = ctx.func("fst", I, I), ctx.func("snd", I, I), ctx.func("rank", I, I, I)
        t, i, j = z3.Ints("t!cb i!cb j!cb")
        n = z(s.n)
        ctx.define(m >= 0)
        ctx.define(z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < m), z3.And(pi(t) >= 0, pi(t) < pj(t), pj(t) < n, rk(pi(t), pj(t)) == t)), patterns=[pi(t)]))
        ctx.define(z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < m), z3.And(pi(t) >= 0, pi(t) < pj(t), pj(t) < n)), patterns=[pj(t)]))
        ctx.define(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < n), z3.And(rk(i, j) >= 0, rk(i, j) < m, pi(rk(i, j)) == i, pj(rk(i, j)) == j)), patterns=[rk(i, j)]))
        ctx.trust("itertools.combinations(s, 2) lists every pair of positions i < j exactly once")
        it.rank = rk
        return SSeq(m, lambda q: (s.f(pi(z(q))), s.f(pj(z(q)))))

    LIB["itertools.combinations"] = Builtin("combinations", f)


def two(p):
    if not (isinstance(p, tuple) and len(p) == 2 and all(isinstance(x, Ops) and x.single() for x in p)):
        raise Unsupported("the queue holds something else than pairs of operators")
    return z(p[0].at(0)), z(p[1].at(0))


def grown(L):
    """names whose method append is called in the loop body"""
    return {n.func.value.id for n in ast.walk(ast.Module(body=L.st.body, type_ignores=[])) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.attr == "append"}


class Work:
    """the work-list loop of the closure"""

    kind = "while"

    def __init__(self, alg, g, gn, gw, gmem, distinct, Cl):
        self.alg, self.g, self.gn, self.gw, self.gmem, self.distinct, self.Cl = alg, g, gn, gw, gmem, distinct, Cl

    def bind(self, L):
        fs = L.fr.vars
        pick = lambda t, extra=lambda v: True: [n for n, v in fs.items() if isinstance(v, t) and extra(v)]
        A = [n for n in pick(Ops) if n in grown(L)]
        C = pick(VSet)
        Q = pick((SSeq, VList), lambda v: getattr(v, "born", 0) > L.fr.born)
        if len(A) != 1 or len(C) != 1 or len(Q) != 1:
            raise Unsupported("the loop does not work on one list, one queue and one set of pairs")
        self.nA, self.nC, self.nQ = A[0], C[0], Q[0]
        if len(fs[self.nC]):
            raise Unsupported("the set of treated pairs does not start empty")

    def now(self, L):
        return L.fr.vars[self.nA], L.fr.vars[self.nC], L.fr.vars[self.nQ]

    def claims(self, A, where, has, qn, qa, qp):
        """A: operators, where(x): position of a member, qp(x, y): position of a pending pair"""
        al, g = self.alg, self.g
        t, u, x, y = z3.Ints("t!w u!w x!w y!w")
        n, at, mem = z(A.n), (lambda k: z(A.at(k))), (lambda v: z(A.mem(v)))
        F = lambda vs, b, *p: z3.ForAll(vs, b, patterns=([p[0]] if len(p) == 1 else [multi(*p)]) if all(good(e) for e in p) else [])
        Mp = al.M(x, y)
        r = [
            ("size", n >= z(self.gn)),
            ("the generators come first", F([t], z3.Implies(z3.And(t >= 0, t < z(self.gn)), at(t) == g(t)), g(t))),
            ("rows are members", F([t], z3.Implies(z3.And(t >= 0, t < n), mem(at(t))), at(t))),
            ("members are rows", F([x], z3.Implies(mem(x), z3.And(where(x) >= 0, where(x) < n, at(where(x)) == x)), mem(x))),
            ("nothing outside any closed set that contains the generators", F([x], z3.Implies(mem(x), self.Cl(x)), mem(x))),
            ("treated pairs are members", F([x, y], z3.Implies(has(x, y), z3.And(mem(x), mem(y))), has(x, y))),
            ("treated pairs have their commutator", F([x, y], z3.Implies(z3.And(has(x, y), al.A(x, y)), mem(Mp)), has(x, y))),
            ("queue length", qn >= 0),
            ("queued pairs are members", F([t], z3.Implies(z3.And(t >= 0, t < qn), z3.And(mem(qa(t)[0]), mem(qa(t)[1]))), qa(t)[0])),
            ("queued pairs are members (second)", F([t], z3.Implies(z3.And(t >= 0, t < qn), mem(qa(t)[1])), qa(t)[1])),
            ("every other pair is queued", F([x, y], z3.Implies(z3.And(mem(x), mem(y), x != y, z3.Not(has(x, y)), z3.Not(has(y, x))), z3.And(qp(x, y) >= 0, qp(x, y) < qn, z3.Or(z3.And(qa(qp(x, y))[0] == x, qa(qp(x, y))[1] == y), z3.And(qa(qp(x, y))[0] == y, qa(qp(x, y))[1] == x)))), mem(x), mem(y))),
        ]
        if self.distinct:
            r.append(("no operator twice", z3.ForAll([t, u], z3.Implies(z3.And(t >= 0, t < u, u < n), at(t) != at(u)), patterns=[multi(at(t), at(u))] if good(at(t)) else [])))
        return r

    def check(self, L, k, phase):
        it, ctx = L.it, L.ctx
        A, C, Q = self.now(L)
        if isinstance(Q, VList):
            Q = it.as_seq(Q)
        qa = lambda t: two(Q.f(z(t)))
        if phase == "init":
            where, has = (lambda x: self.gw(x)), (lambda x, y: z3.BoolVal(False))
            rk = getattr(it, "rank", None)
            if rk is None:
                raise Unsupported("the queue is not made of combinations")
            qp = lambda x, y: z3.If(where(x) < where(y), rk(where(x), where(y)), rk(where(y), where(x)))
        else:
            if not isinstance(C, Pairs):
                raise Unsupported("treated pairs replaced")
            has = C.has
            S = self.S
            grew = not z3.simplify(z(A.n)).eq(z3.simplify(S["n"]))
            new = z(A.at(S["n"])) if grew else None
            where = (lambda x: z3.If(S["mem"](x), S["where"](x), S["n"])) if grew else S["where"]
            fl = it.filters[-1].filtered if grew and getattr(it, "filters", None) else None

            # taken from the end of the queue, or from its front
            last = ctx.quickly_valid(z3.Implies(S["qn"] >= 2, z3.And(qa(z3.IntVal(0))[0] == S["q1"](0), qa(z3.IntVal(0))[1] == S["q2"](0))))

            def qp(x, y):
                base = S["qp"](x, y) - (0 if last else 1)
                if fl is None:
                    return base
                o = S["qn"] - 1
                return z3.If(z3.And(S["mem"](x), S["mem"](y)), base, o + fl[1](where(z3.If(z(x) == new, z(y), z(x)))))

        for nm, f in self.claims(A, where, has, z(Q.n), qa, qp):
            ctx.prove("%s/%s: %s" % (L.where, phase, nm), f)

    def havoc(self, L, k):
        ctx = L.ctx
        A, C, Q = self.now(L)
        n, at, mem, where = ctx.int("size"), ctx.func("op", I, I), ctx.func("member", I, B), ctx.func("where", I, I)
        A.n, A.at, A.mem = n, (lambda t: at(z(t))), (lambda x: mem(z(x)))
        L.covered.append(A)
        has = ctx.func("treated", I, I, B)
        new = Pairs(lambda x, y: has(z(x), z(y)))
        if C.born <= L.fr.born:
            raise Unsupported("the set is the caller's")
        L.fr.vars[self.nC] = new
        L.covered.append(new)
        qn, q1, q2, qp = ctx.int("queue"), ctx.func("q1", I, I), ctx.func("q2", I, I), ctx.func("pending", I, I, I)
        put(L, self.nQ, SSeq(qn, lambda t: (self.alg.one(q1(z(t))), self.alg.one(q2(z(t))))))
        self.S = dict(n=n, at=at, mem=mem, where=where, has=has, qn=qn, qp=qp, q1=q1, q2=q2)
        it = L.it
        if getattr(it, "filters", None):
            it.filters.clear()
        for nm in L.assigned:
            cur = L.fr.vars.get(nm)
            if isinstance(cur, int) and not isinstance(cur, bool) or isinstance(cur, z3.ArithRef):
                L.fr.vars[nm] = ctx.int(nm)
                L.carried.add(nm)
        for nm, f in self.claims(A, where, has, qn, lambda t: (q1(z(t)), q2(z(t))), qp):
            ctx.assume(f)

    def enter(self, L, k):
        pass

    def on_break(self, L, k):
        raise Unsupported("break")

    def on_exit(self, L, n):
        pass


def good(p):
    """usable as a pattern: an uninterpreted application"""
    return z3.is_app(p) and p.decl().kind() == z3.Z3_OP_UNINTERPRETED and p.num_args() > 0


def t_completion(it):
    ctx = it.ctx
    al = Alg(it)
    G, g, gn, gmem, gw = generators(it, al)
    distinct = ctx.choose(2)
    t, u, x, y = z3.Ints("t!co u!co x!co y!co")
    if distinct:
        ctx.assume(z3.ForAll([t, u], z3.Implies(z3.And(t >= 0, t < u, u < gn), g(t) != g(u)), patterns=[multi(g(t), g(u))]))
    Cl = ctx.func("closed_set", I, B)
    ctx.assume(z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < gn), Cl(g(t))), patterns=[g(t)]))
    ctx.assume(z3.ForAll([x, y], z3.Implies(z3.And(Cl(x), Cl(y), al.A(x, y)), Cl(al.M(x, y))), patterns=[al.M(x, y)]))
    q = LA + "lie_algebra_completion"
    lib_combinations(it)
    it.loop_specs[(q, 0)] = Work(al, g, gn, gw, gmem, distinct, Cl)
    mi = ctx.int("max_iter")
    r = unwritten(it, "post: the generators are not modified", [G], lambda: attempt(it, lambda: it.call(it.fn(q), [G], {"max_iter": mi})))
    if r[0] == "exc":
        ctx.prove("post: the only error is the ValueError of the iteration limit", r[1] == "ValueError")
        return
    A = r[1]
    if not isinstance(A, Ops):
        raise Unsupported("the result is not an operator list")
    at = lambda k: z(A.at(k))
    n = z(A.n)
    a, b, c = ctx.int("a"), ctx.int("b"), ctx.int("c")
    ctx.prove("post: another object than the generators", A is not G)
    ctx.prove("post: contains every generator", Implies(rng(a, gn), And(a < n, at(a) == g(a))), assume=False)
    mem = lambda v: z(A.mem(v))
    ctx.prove("post: contains the identity", mem(al.ident), assume=False)
    ctx.prove("post: every row is a member and nothing else", Implies(rng(a, n), mem(at(a))), assume=False)
    # the identity commutes with everything
    ctx.assume(z3.ForAll([x], z3.Not(al.A(x, al.ident)), patterns=[al.A(x, al.ident)]))
    ctx.prove("post: closed under commutators", Implies(And(mem(b), mem(c), al.A(b, c)), mem(al.M(b, c))), assume=False)
    ctx.prove("post: nothing but the generated operators and the identity", Implies(mem(b), Or(Cl(b), b == al.ident)), assume=False)
    if distinct:
        ctx.prove("post: no operator twice", Implies(And(rng(a, n), rng(b, n), a < b), at(a) != at(b)), assume=False)


def first_places(it, g, n):
    """fp(x): the first position of x in the list, n if there is none"""
    ctx = it.ctx
    fp = ctx.func("first", I, I)
    t, x = z3.Ints("t!fp x!fp")
    ctx.define(z3.ForAll([x], z3.And(fp(x) >= 0, fp(x) <= n, z3.Implies(fp(x) < n, g(fp(x)) == x)), patterns=[fp(x)]))
    ctx.define(z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < n), fp(g(t)) <= t), patterns=[g(t)]))
    ctx.trust("least number principle: a value that occurs in a list has a first position")
    return fp


class Firsts:
    """after k elements: the first occurrences among them (the first element from the start)"""

    kind = "for"

    def __init__(self, al, g, n, fp, F):
        self.al, self.g, self.n, self.fp, self.F = al, g, n, fp, F

    def bind(self, L):
        fs = L.fr.vars
        A = [nm for nm, v in fs.items() if isinstance(v, Ops) and nm in grown(L)]
        if len(A) != 1:
            raise Unsupported("the loop does not grow one list")
        self.nA = A[0]

    def want(self, k):
        k = z(k)
        F, g, fp = self.F, self.g, self.fp
        kk = z3.If(k >= 1, k, z3.IntVal(1))
        return z3.If(k >= 1, F.cnt(k), z3.IntVal(1)), (lambda t: g(F.at(z(t)))), (lambda x: fp(z(x)) < kk)

    def check(self, L, k, phase):
        ctx = L.ctx
        U = L.fr.vars[self.nA]
        if phase == "preserve":
            self.F.step(z3.simplify(z(k) - 1))
        n, at, mem = self.want(k)
        w = "%s/%s: " % (L.where, phase)
        ctx.prove(w + "number of first occurrences", z(U.n) == n)
        t, x = ctx.int("t"), ctx.int("x")
        ctx.prove(w + "the first occurrences in order", Implies(rng(t, n), z(U.at(t)) == at(t)), assume=False)
        ctx.prove(w + "members", Iff(z(U.mem(x)), mem(x)), assume=False)

    def havoc(self, L, k):
        U = L.fr.vars[self.nA]
        U.n, U.at, U.mem = self.want(k)
        L.covered.append(U)

    def enter(self, L, k):
        pass

    def on_break(self, L, k):
        raise Unsupported("break")

    def on_exit(self, L, n):
        pass


def t_remove(it):
    ctx = it.ctx
    al = Alg(it)
    G, g, gn, gmem, gw = generators(it, al)
    q = LA + "remove_repeated_ops"
    if ctx.choose(2):
        ctx.assume(gn == 1)
        G.n = 1
        r = unwritten(it, "post: the operators passed in are not modified", [G], lambda: it.call(it.fn(q), [G]))
        if not isinstance(r, Ops):
            raise Unsupported("result")
        ctx.prove("post: a single operator is returned as it is", And(z(r.n) == 1, z(r.at(0)) == g(0)))
        return
    ctx.assume(gn >= 2)
    fp = first_places(it, g, gn)
    F = Filtered(it, "distinct", gn, lambda i: fp(g(z(i))) == z(i), lambda i: g(i))
    F.step(z3.IntVal(0))
    ctx.assume(g(0) == g(0))
    ctx.prove("lemma: the first element is a first occurrence", And(fp(g(0)) == 0, F.cnt(z3.IntVal(1)) == 1, F.at(0) == 0))
    row = Ops.row
    made = []

    # ops[0] is an object of its own (a row kept by `ops`); appending to it does not change `ops`,
    # which is only iterated afterwards: element 0 is looked at before anything is appended
    def row0(self, t):
        o = row(self, t)
        if self.copied and not is_z3(t) and t == 0:
            o.view = False
            made.append(o)
        return o

    class Copy(Ops):
        copied = True
        row = row0

    def dc(it_, memo):
        return Copy(al, G.n, G.at, G.mem)

    G.__pyvc_deepcopy__ = dc
    it.loop_specs[(q, 0)] = Firsts(al, g, gn, fp, F)
    r = unwritten(it, "post: the operators passed in are not modified", [G], lambda: it.call(it.fn(q), [G]))
    if not isinstance(r, Ops):
        raise Unsupported("result")
    n, at = z(r.n), (lambda k: z(r.at(k)))
    a, b = ctx.int("a"), ctx.int("b")
    ctx.prove("post: every operator of the result was given", Implies(rng(a, n), gmem(at(a))), assume=False)
    ctx.prove("post: no operator twice, in the order of first occurrence", Implies(And(rng(a, n), rng(b, n), a < b), And(at(a) != at(b), fp(at(a)) < fp(at(b)))), assume=False)
    p = F.cnt(fp(g(a)))
    ctx.prove("post: every given operator is in the result", Implies(rng(a, gn), And(rng(p, n), at(p) == g(a))), assume=False)


def t_algebra(it):
    ctx = it.ctx
    al = Alg(it)
    state, mi = Opaque("the circuit"), ctx.int("max_iter")
    G, _, _, _, _ = generators(it, al)
    R = al.one(ctx.int("result"))
    calls = []

    def gens(it_, a, k):
        b = it_.bind(it_.fn(LA + "calculate_gens_lie_algebra"), a, k)
        ctx.prove("post: the generators are those of the circuit", b["state"] is state)
        return G

    def compl(it_, a, k):
        b = list(it_.bind(it_.fn(LA + "lie_algebra_completion"), a, k).values())
        ctx.prove("post: the generators are completed", b[0] is G)
        ctx.prove("post: with the given limit", z(b[1]) == (mi if calls[-1] else z(default)))
        return R

    it.contracts[LA + "calculate_gens_lie_algebra"] = gens
    it.contracts[LA + "lie_algebra_completion"] = compl
    default = it.bind(it.fn(LA + "calculate_lie_algebra"), [state], {})["max_iter"]
    give = ctx.choose(2)
    calls.append(give)
    r = it.call(it.fn(LA + "calculate_lie_algebra"), [state], {"max_iter": mi} if give else {})
    ctx.prove("post: the completion is returned", r is R)


UNITS = [
    Unit("lie_algebra_completion: exactly the commutator closure and the identity", t_completion, [LA + "lie_algebra_completion"]),
    Unit("remove_repeated_ops: the distinct operators in order", t_remove, [LA + "remove_repeated_ops"]),
    Unit("calculate_lie_algebra: completion of the circuit's generators", t_algebra, [LA + "calculate_lie_algebra"]),
]
