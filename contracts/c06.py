"""C06: circuit bookkeeping (mentpy/mbqc/mbqcircuit.py)"""
from .common import *
from .c03 import AGraph
from .c05 import circuit, rel, by_contract, no_inversion, CK
from pyvc.lib_nx import SGraph
from pyvc.spec import put
from pyvc.core import multi

MB = "mentpy.mbqc.mbqcircuit."
MC = MB + "MBQCircuit."
PLANES = ("X", "Y", "Z", "XY", "XZ", "YZ", "XYZ", "")
NOTHING = z3.IntVal(-1)


class Th:
    """measurements by content (an integer; -1 is None): what the bookkeeping asks about them"""

    def __init__(self, it):
        ctx = self.ctx = it.ctx
        self.train, self.ctrl, self.ment = (ctx.func(n, I, B) for n in ("trainable", "controlled", "is_ment"))
        self.pl = ctx.func("plane", I, I)
        m = z3.Int("m!th")
        ctx.assume(z3.ForAll([m], z3.Or(*[self.pl(m) == z(p) for p in PLANES]), patterns=[self.pl(m)]))
        ctx.assume(z3.ForAll([m], z3.Implies(z3.Or(self.ctrl(m), self.train(m)), self.ment(m)), patterns=[self.ctrl(m)]))
        ctx.assume(z3.Not(self.ment(NOTHING)))

    def trains(self, m):
        return And(z(m) != NOTHING, self.train(z(m)))

    def controls(self, m):
        return And(z(m) != NOTHING, self.ctrl(z(m)))

    def plane(self, m):
        return SStr(z3.If(z(m) == NOTHING, z(""), self.pl(z(m))), PLANES)


class MV:
    """a measurement object or None; own: made by this operation (may be written)"""

    def __init__(self, th, mid, nid, own=False, slot=None):
        self.th, self.mid, self.nid, self.own, self.slot = th, z(mid), z(nid), own, slot
        self.born = birth()

    def __pyvc_is__(self, it, a, b):
        o = b if a is self else a
        if o is None:
            return self.mid == NOTHING
        if isinstance(o, MV):
            if a is b:
                return True
            raise Unsupported("identity of measurements")
        return False

    def __pyvc_eq__(self, it, a, b):
        return self.__pyvc_is__(it, a, b)

    def __pyvc_truth__(self, it):
        return self.mid != NOTHING

    def __pyvc_isinstance__(self, it, t):
        if isinstance(t, Cls):
            if t.name == "ControlMent":
                return self.th.controls(self.mid)
            if t.name == "Ment":
                return And(self.mid != NOTHING, self.th.ment(self.mid))
        return False

    def __pyvc_deepcopy__(self, it, memo):
        return MV(self.th, self.mid, self.nid, True)

    def __pyvc_getattr__(self, it, name):
        if not it.ctx.branch(self.mid != NOTHING):
            ops.pyraise("AttributeError", "NoneType has no " + name)
        if name == "is_trainable":
            return Builtin(name, lambda it_, a, k: self.th.train(self.mid))
        if name == "plane":
            return self.th.plane(self.mid)
        if name == "node_id":
            return self.nid
        raise Unsupported("measurement." + name)

    def __pyvc_setattr__(self, it, name, v):
        if name != "node_id":
            raise Unsupported("measurement.%s = .." % name)
        it.ctx.prove("only own copies of measurements are written", And(self.own, self.mid != NOTHING))
        self.nid = z(v)
        if self.slot:
            self.slot[0].set_nid(it, self.slot[1], v)

    def __pyvc_ite__(self, c, a, b):
        f = lambda x: self.none() if x is None else x
        a, b = f(a), f(b)
        return MV(self.th, ite(c, a.mid, b.mid), ite(c, a.nid, b.nid), And(a.own, b.own))

    def none(self):
        return MV(self.th, NOTHING, NOTHING)

    def __pyvc_subst__(self, pairs):
        return MV(self.th, subst(self.mid, pairs), subst(self.nid, pairs), subst(self.own, pairs))


class MD:
    """dictionary node -> measurement or None.  own(v): the object in the slot was copied by this
    operation; nid(v): the node it believes to be on"""

    def __init__(self, th, keys, mid, own, nid):
        self.born = birth()
        self.th, self.keys, self.mid, self.own, self.nid = th, keys, mid, own, nid

    @staticmethod
    def of(it, th, keys, name):
        mid, nid = it.ctx.func(name, I, I), it.ctx.func(name + "_node", I, I)
        return MD(th, keys, lambda v: mid(z(v)), lambda v: False, lambda v: nid(z(v)))

    def has(self, v):
        return z(self.keys.mem(v))

    def slot(self, it, v):
        return MV(self.th, self.mid(v), self.nid(v), self.own(v), (self, v))

    def __pyvc_len__(self, it):
        return self.keys.n

    def __pyvc_contains__(self, it, v):
        return self.has(v)

    def __pyvc_iter__(self, it):
        return self.keys.snap()

    def __pyvc_getitem__(self, it, v):
        if not is_num(v) or not it.ctx.branch(self.has(v)):
            ops.pyraise("KeyError", v)
        return self.slot(it, v)

    def __pyvc_setitem__(self, it, k, v):
        it.write_log(self)
        if v is None:
            v = MV(self.th, NOTHING, NOTHING)
        if not isinstance(v, MV):
            raise Unsupported("dictionary of other values")
        if not it.ctx.quickly_valid(self.has(k)):
            if it.ctx.branch(self.has(k)):
                pass
            else:
                ks = self.keys
                self.keys = SSeq(z3.simplify(z(ks.n) + 1), lambda i: ite(z(i) < z(ks.n), ks.f(i), k))
                m0, x0 = ks.mem, ks.index_of
                self.keys.mem = lambda t: Or(z(m0(t)), z(t) == z(k))
                self.keys.index_of = lambda t: ite(z(t) == z(k), ks.n, x0(t))
        m, o, n = self.mid, self.own, self.nid
        self.mid = lambda t: z3.If(z(t) == z(k), v.mid, z(m(t)))
        self.own = lambda t: z3.If(z(t) == z(k), z(v.own), z(o(t)))
        self.nid = lambda t: z3.If(z(t) == z(k), v.nid, z(n(t)))
        v.slot = (self, k)

    def set_nid(self, it, k, x):
        it.write_log(self)
        n = self.nid
        self.nid = lambda t: z3.If(z(t) == z(k), z(x), z(n(t)))

    def __pyvc_dict__(self, it):
        # a new dictionary with the same objects: nobody's own any more
        return MD(self.th, self.keys.snap(), self.mid, lambda v: False, self.nid)

    def __pyvc_getattr__(self, it, name):
        ks = self.keys.snap
        if name == "keys":
            return Builtin(name, lambda it_, a, k: ks())
        if name == "values":
            return Builtin(name, lambda it_, a, k: SSeq(self.keys.n, lambda i: self.slot(it, self.keys.f(i))))
        if name == "items":
            return Builtin(name, lambda it_, a, k: SSeq(self.keys.n, lambda i: (self.keys.f(i), self.slot(it, self.keys.f(i)))))
        if name == "copy":
            return Builtin(name, lambda it_, a, k: self.__pyvc_dict__(it))
        if name == "get":
            return Builtin(name, lambda it_, a, k: self.slot(it, a[0]) if it.ctx.branch(self.has(a[0])) else (a[1] if len(a) > 1 else None))
        raise Unsupported("dict." + name)


def any_order(it, g):
    """every node once, in an arbitrary order (a dictionary written by the user)"""
    ctx = it.ctx
    f, x = ctx.func("entry", I, I), ctx.func("entry_at", I, I)
    i, v = z3.Ints("i!ao v!ao")
    ctx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < g.n), z3.And(z(g.isnode(f(i))), x(f(i)) == i)), patterns=[f(i)]))
    ctx.assume(z3.ForAll([v], z3.Implies(z(g.isnode(v)), z3.And(x(v) >= 0, x(v) < g.n, f(x(v)) == v)), patterns=[x(v)]))
    s = SSeq(g.n, lambda k: f(z(k)))
    s.mem = lambda t: z(g.isnode(t))
    s.index_of = lambda t: x(z(t))
    return s


class Upd(Inv):
    """loop over the entries: bookkeeping of those handled so far"""

    def __init__(self, D, Ts, Cs, planes, mid0):
        Inv.__init__(self, exact={"trainable_nodes": lambda L, k: Ts.upto(k), "controlled_nodes": lambda L, k: Cs.upto(k), "planes": planes})
        self.D, self.fl, self.mid0 = D, (Ts, Cs), mid0

    def bind(self, L):
        Inv.bind(self, L)
        self.D0 = MD(self.D.th, self.D.keys, self.D.mid, self.D.own, self.D.nid)

    def done(self, k):
        return lambda v: And(self.D0.has(v), z(self.D0.keys.index_of(v)) < z(k), z(self.mid0(v)) != NOTHING)

    def check(self, L, k, phase):
        if phase == "preserve":
            for f in self.fl:
                f.step(z3.simplify(z(k) - 1))
        Inv.check(self, L, k, phase)
        D, v, pre, d = self.D, L.ctx.int("v"), "%s/%s: " % (L.where, phase), self.done(k)
        L.ctx.prove(pre + "same entries", Iff(D.has(v), self.D0.has(v)), assume=False)
        L.ctx.prove(pre + "measurement contents unchanged", z(D.mid(v)) == z(self.mid0(v)), assume=False)
        L.ctx.prove(pre + "entries handled are own copies that know their node", Implies(d(v), And(D.own(v), z(D.nid(v)) == v)), assume=False)

    def havoc(self, L, k):
        Inv.havoc(self, L, k)
        D, D0, d = self.D, self.D0, self.done(k)
        o2, n2 = L.ctx.func("own_rest", I, B), L.ctx.func("node_rest", I, I)
        D.keys, D.mid = D0.keys, self.mid0
        D.own = lambda v: Or(d(v), o2(z(v)))
        D.nid = lambda v: z3.If(z(d(v)), z(v), n2(z(v)))
        # objects not handled yet may be anybody's
        x = z3.Int("x!up")
        L.covered.append(D)


def entries(it, th, D, outs):
    """bookkeeping determined by the content of D"""
    K = D.keys
    mid = D.mid
    key = lambda i: K.f(z(i))
    Ts = Filtered(it, "train_list", K.n, lambda i: th.trains(mid(key(i))), key)
    Cs = Filtered(it, "ctrl_list", K.n, lambda i: th.controls(mid(key(i))), key)
    return Ts, Cs


def prove_filter(it, name, got, n, key, idx, mem, want):
    """got = [key(i) for i < n if want(key(i))]; mem, idx: membership and position in the source list"""
    ctx = it.ctx
    m = z(ops.seq_len(got))
    a, b, v = ctx.int("a"), ctx.int("b"), ctx.int("v")
    el = lambda q: z(ops.seq_get(got, q))
    if isinstance(got, VList) and not got:
        ctx.prove(name + ": nothing is missing", Implies(And(mem(v), want(v)), False), assume=False)
        return
    ctx.prove(name + ": only such nodes", Implies(rng(a, m), And(mem(el(a)), want(el(a)))), assume=False)
    ctx.prove(name + ": in order, no repetition", Implies(And(rng(a, m), rng(b, m), a < b), z(idx(el(a))) < z(idx(el(b)))), assume=False)
    p = z3.Int("p!pf")
    ctx.prove(name + ": nothing is missing", Implies(And(mem(v), want(v)), z3.Exists([p], z3.And(p >= 0, p < m, el(p) == v))), assume=False)


def t_update(it):
    ctx = it.ctx
    g = AGraph(it)
    th = Th(it)
    outs = sublist(it, "outputs", g)
    D = MD.of(it, th, any_order(it, g), "content")
    mid0 = D.mid
    calls = []
    c = circuit(it, g, _output_nodes=outs, _measurements=D, _partial_order=("old",))
    ok = ctx.choose(2)

    def po(it_, a, kw):
        calls.append(dict(c.fields))
        if not ok:
            ops.pyraise("ValueError", "condition")

    it.contracts[MC + "_update_partial_order"] = po
    Ts, Cs = entries(it, th, D, outs)
    D0keys = D.keys
    plane = lambda L, k: SDict(lambda v: And(g.V(z(v)), z(D0keys.index_of(v)) < z(k)), lambda v: th.plane(mid0(v)))
    q = MC + "_update_attributes"
    it.loop_specs[(q, 0)] = Upd(D, Ts, Cs, plane, mid0)
    r = attempt(it, lambda: it.call(it.fn(q), [c]))
    ctx.prove("post: fails only if the conditions contradict the flow", r == (("val", None) if ok else ("exc", "ValueError")))
    ctx.prove("post: the order is updated once, after the controlled nodes", len(calls) == 1 and calls[0].get("_controlled_nodes") is c.fields.get("_controlled_nodes"))
    ctx.prove("post: the entries stay in the same dictionary", c.fields["_measurements"] is D)
    v = ctx.int("v")
    ctx.prove("post: every node keeps its entry and its measurement", And(Iff(D.has(v), g.V(v)), z(D.mid(v)) == z(mid0(v))), assume=False)
    ctx.prove("post: every stored measurement is the circuit's own copy and knows its node", Implies(And(g.V(v), z(mid0(v)) != NOTHING), And(D.own(v), z(D.nid(v)) == v)), assume=False)
    get = lambda n: it.getattr(c, n)
    prove_filter(it, "post: trainable_nodes", get("trainable_nodes"), g.n, D0keys.f, D0keys.index_of, g.isnode, lambda x: th.trains(mid0(x)))
    prove_filter(it, "post: controlled_nodes", get("controlled_nodes"), g.n, D0keys.f, D0keys.index_of, g.isnode, lambda x: th.controls(mid0(x)))
    isout = lambda x: z(outs.mem(x))
    prove_filter(it, "post: quantum_output_nodes", get("quantum_output_nodes"), outs.n, outs.f, outs.index_of, isout, lambda x: z(mid0(x)) == NOTHING)
    prove_filter(it, "post: classical_output_nodes", get("classical_output_nodes"), outs.n, outs.f, outs.index_of, isout, lambda x: z(mid0(x)) != NOTHING)
    prove_eq(it, "post: planes", get("planes"), SDict(g.isnode, lambda x: th.plane(mid0(x))))


# ------------------------------------------------------------------ operations


class Att:
    """value of a derived attribute: a function of the measurement contents"""

    def __init__(self, name, mid):
        self.name, self.mid = name, mid


DERIVED = ("_trainable_nodes", "_controlled_nodes", "_planes", "_quantum_output_nodes", "_classical_output_nodes")


class Step:
    """a circuit in a consistent state, its operations by contract:
    _update_attributes derives every attribute from the contents (unit above); it fails, after the
    lists were derived and before the order is, exactly when the contents' conditions contradict
    the flow"""

    def __init__(self, it, good=None):
        ctx = self.ctx = it.ctx
        self.it = it
        self.g = AGraph(it)
        self.th = Th(it)
        self.outs = sublist(it, "outputs", self.g)
        self.D = MD.of(it, self.th, any_order(it, self.g), "content")
        self.mid0 = self.D.mid
        self.good = good
        self.flow = ctx.choose(2)
        self.valid_order = {}
        self.deft = MV(self.th, ctx.int("default"), -1)
        ctx.assume(And(self.deft.mid != NOTHING, self.th.ment(self.deft.mid)))
        self.order0 = ("order",)
        self.c = circuit(it, self.g, _output_nodes=self.outs, _measurements=self.D, _default_measurement=self.deft, _relabel_indices=True, _input_nodes=sublist(it, "inputs", self.g))
        self.derive(self.c, self.mid0)
        self.c.fields["_partial_order"] = Att("_partial_order", self.mid0) if self.flow else None
        self.c.fields["_measurement_order"] = self.order0
        self.results = {}
        self.updates = []
        self.checks = []
        oc = sublist(it, "outputc", self.g)
        v = z3.Int("v!oc")
        ctx.assume(z3.ForAll([v], z(oc.mem(v)) == z3.And(self.g.V(v), z3.Not(z(self.outs.mem(v)))), patterns=[z(oc.mem(v))]))
        self.c.fields["outputc"] = oc
        it.contracts[MC + "_update_attributes"] = self.update
        it.contracts[CK] = self.check
        it.contracts[MC + "calculate_order"] = self.calc

    def derive(self, c, mid):
        for n in DERIVED:
            c.fields[n] = Att(n, mid)

    def update(self, it, a, kw):
        c = a[0]
        D = c.fields["_measurements"]
        if not isinstance(D, MD):
            raise Unsupported("measurements are not kept in a dictionary")
        v = self.ctx.int("v")
        self.ctx.prove("call of _update_attributes: every node, and nothing else, has an entry", Iff(D.has(v), self.g.V(v)), assume=False)
        mid = D.mid
        self.updates.append(mid)
        it.write_log(D)
        D.own = lambda t: True
        D.nid = lambda t: z3.If(mid(t) == NOTHING, NOTHING, z(t))
        self.derive(c, mid)
        if mid is self.mid0 or self.good and self.good(it, mid):
            ok = 1
        else:
            ok = self.ctx.choose(2)
        if not ok:
            ops.pyraise("ValueError", "condition")
        c.fields["_partial_order"] = Att("_partial_order", mid) if self.flow else None

    def check(self, it, a, kw):
        order, po = a[0], a[1]
        if self.flow and (order is self.order0 or isinstance(order, Att)) and isinstance(po, Att):
            key = (id(order), id(po.mid))
            if key not in self.results:
                self.results[key] = (self.ctx.fresh("order_fits", B), order, po)
            return self.results[key][0]
        raise Unsupported("_check_measurement_order(%r, %r)" % (order, po))

    def calc(self, it, a, kw):
        po = a[0].fields["_partial_order"]
        if not isinstance(po, Att):
            raise Unsupported("calculate_order without an order")
        return Att("order", po.mid)

    def post(self, want, D=None, failed=False):
        """the circuit is consistent and holds the contents `want`"""
        ctx, c = self.ctx, self.c
        D = c.fields["_measurements"]
        if not isinstance(D, MD):
            raise Unsupported("measurements are not kept in a dictionary")
        v = ctx.int("v")
        ctx.prove("post: every node, and nothing else, has an entry", Iff(D.has(v), self.g.V(v)), assume=False)
        ctx.prove("post: the measurements are the expected ones", Implies(self.g.V(v), z(D.mid(v)) == z(want(v))), assume=False)
        for n in DERIVED + (("_partial_order",) if self.flow else ()):
            t = c.fields[n]
            if not isinstance(t, Att) or t.name != n:
                ctx.prove("post: %s is derived" % n, False)
                continue
            ctx.prove("post: %s belongs to the current measurements" % n, Implies(self.g.V(v), z(t.mid(v)) == z(want(v))), assume=False)
        ctx.prove("post: graph, inputs, outputs unchanged", c.fields["_graph"] is self.g and c.fields["_output_nodes"] is self.outs)
        o = c.fields["_measurement_order"]
        if self.flow:
            po = c.fields["_partial_order"]
            if isinstance(o, Att):
                ctx.prove("post: the measurement order was computed for the current order", o.mid is po.mid)
            elif po.mid is self.mid0 or failed:
                ctx.prove("post: the measurement order is the old one", o is self.order0)
            else:
                r = self.results.get((id(o), id(po.mid)))
                ctx.prove("post: the measurement order fits the current order", r[0] if r else False)


def t_setitem(it):
    ctx = it.ctx
    S = Step(it)
    key = ctx.int("key")
    kind = ctx.choose(4)
    val = [MV(S.th, ctx.int("value"), ctx.int("value_node")), 3, None, "XY"][kind]
    isment = And(val.mid != NOTHING, S.th.ment(val.mid)) if kind == 0 else False
    old = S.D
    r = attempt(it, lambda: it.setitem(S.c, key, val))
    if r[0] == "val":
        ctx.prove("post: accepted only for a node and a measurement", And(S.g.V(key), isment))
        S.post(lambda v: z3.If(z(v) == key, val.mid, S.mid0(v)))
    else:
        ctx.prove("post: rejection is a ValueError", r[1] == "ValueError")
        S.post(S.mid0, failed=True)
        if not S.updates:
            ctx.prove("post: rejected without a try only for a stranger or a wrong value", Not(And(S.g.V(key), isment)))


def t_setitem_bad(it):
    ctx = it.ctx
    S = Step(it)
    must_raise(it, "post: a label that is no node is rejected", lambda: it.setitem(S.c, nonode(it, S), MV(S.th, S.deft.mid, -1)), "ValueError")
    S.post(S.mid0, failed=True)


def nonode(it, S):
    k = it.ctx.int("stranger")
    it.ctx.assume(z3.Not(S.g.V(k)))
    return k


def t_getitem(it):
    ctx = it.ctx
    S = Step(it)
    key = ctx.int("key")
    r = attempt(it, lambda: it.getitem(S.c, key))
    if r[0] == "val":
        ctx.prove("post: the measurement of that node", And(S.g.V(key), isinstance(r[1], MV) and r[1].mid == S.mid0(key)))
    else:
        ctx.prove("post: only strangers are rejected", And(r[1] == "ValueError", Not(S.g.V(key))))


def t_delitem(it):
    ctx = it.ctx
    # conditions of fewer measurements are fewer: deleting keeps the order consistent
    S = Step(it, good=lambda it_, mid: ctx.quickly_valid(z3.ForAll([z3.Int("v!dl")], z3.Or(mid(z3.Int("v!dl")) == NOTHING, mid(z3.Int("v!dl")) == S.mid0(z3.Int("v!dl"))))))
    ctx.trust("deleting a measurement removes conditions, and a relation contained in an acyclic one is acyclic")
    key = ctx.int("key")
    r = attempt(it, lambda: it.delitem(S.c, key))
    if r[0] == "exc":
        ctx.prove("post: only strangers are rejected", And(r[1] == "ValueError", Not(S.g.V(key))))
        S.post(S.mid0, failed=True)
        return
    ctx.prove("post: deleted only for a node", S.g.V(key))
    want = lambda v: z3.If(z(v) == key, NOTHING, S.mid0(v))
    D = S.c.fields["_measurements"]
    v = ctx.int("v")
    ctx.prove("post: every node, and nothing else, has an entry", Iff(D.has(v), S.g.V(v)), assume=False)
    ctx.prove("post: the measurements are the expected ones", z(D.mid(v)) == z(want(v)), assume=False)
    for n in DERIVED + (("_partial_order",) if S.flow else ()):
        t = S.c.fields[n]
        ctx.prove("post: %s belongs to the current measurements" % n, isinstance(t, Att) and z(t.mid(v)) == z(want(v)), assume=False)
    ctx.prove("post: the measurement order is the old one (fewer conditions)", S.c.fields["_measurement_order"] is S.order0)


def t_setall(it):
    ctx = it.ctx
    S = Step(it)
    n = ctx.int("new_n")
    ctx.assume(n >= 0)
    f, x, mem = ctx.func("new_key", I, I), ctx.func("new_pos", I, I), ctx.func("new_has", I, B)
    i, v = z3.Ints("i!sa v!sa")
    ctx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(mem(f(i)), x(f(i)) == i)), patterns=[f(i)]))
    ctx.assume(z3.ForAll([v], z3.Implies(mem(v), z3.And(x(v) >= 0, x(v) < n, f(x(v)) == v)), patterns=[mem(v)]))
    keys = SSeq(n, lambda k: f(z(k)))
    keys.mem, keys.index_of = (lambda t: mem(z(t))), (lambda t: x(z(t)))
    New = MD.of(it, S.th, keys, "new_content")
    m0 = New.mid
    q = MC + "measurements"
    fill = lambda v: z3.If(mem(v), m0(v), z3.If(z(S.outs.mem(v)), NOTHING, S.deft.mid))
    S.fill = fill

    class Fill(Inv):
        """after k nodes: those without an entry got the default (outputs: None)"""

        def bind(self, L):
            self.D = L.v("measurements")
            if not isinstance(self.D, MD):
                raise Unsupported("measurements are not kept in a dictionary")
            self.mid1 = self.D.mid

        def done(self, k):
            return lambda v: And(S.g.V(z(v)), S.g.idx(v) < z(k))

        def check(self, L, k, phase):
            D, v, pre = L.v("measurements"), L.ctx.int("v"), "%s/%s: " % (L.where, phase)
            L.ctx.prove(pre + "entries so far", Iff(D.has(v), Or(mem(v), self.done(k)(v))), assume=False)
            L.ctx.prove(pre + "contents so far", Implies(D.has(v), z(D.mid(v)) == fill(v)), assume=False)

        def havoc(self, L, k):
            D = L.v("measurements")
            o, nid, km, kx, kf, kn = L.ctx.func("own_f", I, B), L.ctx.func("nid_f", I, I), L.ctx.func("mid_f", I, I), L.ctx.func("kx_f", I, I), L.ctx.func("kf_f", I, I), L.ctx.int("kn_f")
            d = self.done(k)
            vv = z3.Int("v!ff")
            L.ctx.assume(z3.ForAll([vv], z3.Implies(z(Or(mem(vv), d(vv))), km(vv) == fill(vv)), patterns=[km(vv)]))
            ks = SSeq(kn, lambda t: kf(z(t)))
            ks.mem = lambda t: Or(mem(z(t)), d(z(t)))
            ks.index_of = lambda t: kx(z(t))
            D.keys, D.mid, D.own, D.nid = ks, (lambda t: km(z(t))), (lambda t: o(z(t))), (lambda t: nid(z(t)))
            L.covered.append(D)

    it.loop_specs[(q, 0)] = Fill()
    r = attempt(it, lambda: it.setattr(S.c, "measurements", New))
    w = ctx.int("w")
    ctx.prove("post: the caller's dictionary is not modified", And(Iff(New.has(w), mem(w)), New.mid is m0), assume=False)
    strange = z3.Exists([v], z3.And(mem(v), z3.Not(S.g.V(v))))
    wrong = z3.Exists([v], z3.And(mem(v), m0(v) != NOTHING, z3.Not(S.th.ment(m0(v)))))
    if r[0] == "val":
        ctx.prove("post: accepted only if all labels are nodes", Not(strange))
        ctx.prove("post: accepted only if all values are measurements or None", Not(wrong))
        S.post(fill)
    else:
        ctx.prove("post: rejection is a ValueError", r[1] == "ValueError")
        S.post(S.mid0, failed=True)
        if not S.updates:
            ctx.prove("post: rejected without a try only for strangers or wrong values", Or(strange, wrong))


# ------------------------------------------------------------------ adding edges


class MGraph(AGraph):
    """graph that can be copied and extended"""

    def __init__(self, it, name="g"):
        AGraph.__init__(self, it, name)
        self.born = birth()

    def clone(self):
        c = object.__new__(MGraph)
        c.__dict__.update(self.__dict__)
        c.born = birth()
        return c

    def link(self, it, u, v):
        it.write_log(self)
        V0, E0 = self.isnode, self.adj
        u, v = z(u), z(v)
        self.isnode = lambda x: Or(V0(x), z(x) == u, z(x) == v)
        self.adj = lambda x, y: Or(E0(x, y), And(z(x) == u, z(y) == v), And(z(x) == v, z(y) == u))

    def __pyvc_getattr__(self, it, name):
        if name == "copy":
            return Builtin("copy", lambda it_, a, k: self.clone())
        if name == "add_edge":
            return Builtin("add_edge", lambda it_, a, k: self.link(it, a[0], a[1]))
        if name == "add_edges_from":
            def f(it_, a, k):
                vals = it.iterate(a[0])
                if vals is not None:
                    for e in vals:
                        self.link(it, *it.unpack(e, 2))
                    return
                s = it.as_seq(a[0])
                if s is None or not isinstance(s.f(z3.Int("p!ae")), tuple):
                    raise Unsupported("add_edges_from")
                s = s.snap()
                it.write_log(self)
                V0, E0, i = self.isnode, self.adj, z3.Int("i!ae")
                a0, b0 = (lambda t: z(s.f(t)[0])), (lambda t: z(s.f(t)[1]))
                some = lambda P: z3.Exists([i], z3.And(i >= 0, i < z(s.n), P(i)))
                self.isnode = lambda x: Or(V0(x), some(lambda t: z3.Or(a0(t) == z(x), b0(t) == z(x))))
                self.adj = lambda x, y: Or(E0(x, y), some(lambda t: z3.Or(z3.And(a0(t) == z(x), b0(t) == z(y)), z3.And(a0(t) == z(y), b0(t) == z(x)))))

            return Builtin("add_edges_from", f)
        return AGraph.__pyvc_getattr__(self, it, name)


def t_edges(many):
    def unit(it):
        ctx = it.ctx
        S = Step(it)
        g = S.g = MGraph(it, "h")
        V0, E0 = g.isnode, g.adj
        c = S.c
        c.fields["_graph"] = g
        c.fields["_relabel_indices"] = rel = bool(ctx.choose(2))
        D = S.D
        before = dict(c.fields)
        calls = []

        def init(it_, a, kw):
            b = it.bind(it.fn(MC + "__init__"), a, kw)
            calls.append(b)
            b["mid"] = b["measurements"].mid if isinstance(b["measurements"], MD) else None
            if ctx.choose(2):
                ops.pyraise("ValueError", "no flow")
            b["self"].fields["made"] = b
            b["self"].fields["_graph"] = b["graph"]

        it.contracts[MC + "__init__"] = init
        if many:
            n = ctx.int("edges_n")
            ctx.assume(n >= 0)
            p, q = ctx.func("edge_from", I, I), ctx.func("edge_to", I, I)
            es = SSeq(n, lambda k: (p(z(k)), q(z(k))))
            i = z3.Int("i!te")
            some = lambda P: z3.Exists([i], z3.And(i >= 0, i < n, P(i)))
            nodes = lambda x: Or(V0(x), some(lambda t: z3.Or(p(t) == x, q(t) == x)))
            edges = lambda x, y: Or(E0(x, y), some(lambda t: z3.Or(z3.And(p(t) == x, q(t) == y), z3.And(p(t) == y, q(t) == x))))
            run = lambda: it.call(it.getattr(c, "add_edges_from"), [es])
        else:
            u, v = ctx.int("u"), ctx.int("v")
            nodes = lambda x: Or(V0(x), x == u, x == v)
            edges = lambda x, y: Or(E0(x, y), And(x == u, y == v), And(x == v, y == u))
            run = lambda: it.call(it.getattr(c, "add_edge"), [u, v])
        r = attempt(it, run)
        ctx.prove("post: the circuit is rebuilt once", len(calls) == 1)
        if len(calls) != 1:
            return
        b = calls[0]
        G2 = b["graph"]
        x, y = ctx.int("x"), ctx.int("y")
        if not isinstance(G2, MGraph):
            raise Unsupported("rebuilt on another kind of graph")
        ctx.prove("post: rebuilt on a graph of its own", G2 is not g)
        ctx.prove("post: rebuilt with the old nodes and the ends of the new edges", Iff(G2.isnode(x), nodes(x)), assume=False)
        ctx.prove("post: rebuilt with the old edges and exactly the new ones", Iff(G2.adj(x, y), edges(x, y)), assume=False)
        ctx.prove("post: same inputs and outputs", b["input_nodes"] is before["_input_nodes"] and b["output_nodes"] is before["_output_nodes"])
        ctx.prove("post: all measurements are kept", And(b["mid"] is not None, b["mid"](x) == S.mid0(x) if b["mid"] else False), assume=False)
        ctx.prove("post: same default measurement and labelling", b["default_measurement"] is S.deft and b["relabel_indices"] is rel)
        ctx.prove("post: flow and order are recomputed", all(b.get(n) is None for n in ("flow", "partial_order", "measurement_order")))
        ctx.prove("post: the old graph is not modified", And(Iff(g.isnode(x), V0(x)), Iff(g.adj(x, y), E0(x, y))), assume=False)
        if r[0] == "val":
            ctx.prove("post: the circuit is the rebuilt one", c.fields.get("made") is b and c.fields["_graph"] is G2)
        else:
            ctx.prove("post: failure is a ValueError", r[1] == "ValueError")
            ctx.prove("post: failure changes nothing", c.fields == before and c.fields["_graph"] is g and D.mid is S.mid0)

    return unit


# ------------------------------------------------------------------ construction


def positions(it, s, name):
    """membership in a list of numbers and the first position of a member (definitional)"""
    ctx = it.ctx
    mem, first = ctx.func(name + "_has", I, B), ctx.func(name + "_first", I, I)
    i, v = z3.Ints("i!ps v!ps")
    f = lambda t: z(s.f(t))
    n = z(s.n)
    ctx.define(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(mem(f(i)), first(f(i)) <= i, first(f(i)) >= 0, f(first(f(i))) == f(i))), patterns=[f(i)]))
    ctx.define(z3.ForAll([v], z3.Implies(mem(v), z3.And(first(v) >= 0, first(v) < n, f(first(v)) == v)), patterns=[mem(v)]))
    return mem, first


class Built(AGraph):
    """graph assembled by the code under test"""

    def __init__(self, it):
        self.it, self.ctx = it, it.ctx
        self.born = birth()
        self.n = 0
        self.node = self.idx = lambda k: z(k)
        self.isnode = lambda v: z3.BoolVal(False)
        self.adj = lambda u, v: z3.BoolVal(False)

    def nodes(self):
        s = SSeq(self.n, lambda i: self.node(i))
        s.mem, s.index_of, s.setlike = self.isnode, (lambda v: self.idx(v)), True
        return s

    def __pyvc_getattr__(self, it, name):
        if name == "add_nodes_from":
            def f(it_, a, k):
                s = it.as_seq(a[0])
                if s is None or s.kind != "range" or z(self.n).eq(z3.IntVal(0)) is False:
                    raise Unsupported("add_nodes_from")
                q = it.ctx.int("q")
                if not it.ctx.valid(Implies(rng(q, s.n), z(s.f(q)) == q)):
                    raise Unsupported("add_nodes_from a range that does not start at 0")
                it.write_log(self)
                n = self.n = s.n
                self.isnode = lambda v: And(z(v) >= 0, z(v) < z(n))

            return Builtin(name, f)
        if name == "update":
            def f(it_, a, k):
                o = a[0]
                x = it.ctx.int("x")
                if not it.ctx.valid(Implies(o.isnode(x), self.isnode(x))):
                    raise Unsupported("update adds nodes")
                it.write_log(self)
                E0, E1 = self.adj, o.adj
                self.adj = lambda u, v: Or(E0(u, v), E1(u, v))

            return Builtin(name, f)
        return AGraph.__pyvc_getattr__(self, it, name)


class RGraph(AGraph):
    """the caller's graph"""

    def __pyvc_getattr__(self, it, name):
        if name == "__class__":
            return Builtin("class", lambda it_, a, k: Built(it))
        return AGraph.__pyvc_getattr__(self, it, name)


class Image:
    """networkx.relabel_nodes(g, mapping) for a mapping defined on all nodes"""

    def __init__(self, g, m):
        u, v = z3.Ints("u!im v!im")
        self.isnode = lambda x: z3.Exists([u], z3.And(g.V(u), z(m.get(u)) == z(x)))
        self.adj = lambda x, y: z3.Exists([u, v], z3.And(g.E(u, v), z(m.get(u)) == z(x), z(m.get(v)) == z(y)))


class Entries(Inv):
    """dictionary under construction: has(k), mid(k) after k nodes"""

    def __init__(self, th, has, mid, start=None, hint=None):
        Inv.__init__(self)
        self.th, self.has, self.mid, self.start, self.hint = th, has, mid, start, hint

    def bind(self, L):
        if self.start:
            self.start(L)
        L.v("measurements")
        s = L.seq
        if getattr(s, "index_of", None) is None:
            self.m, self.x = positions(L.it, s, "listed")
        else:
            self.m, self.x = s.mem, s.index_of
        self.done = lambda k: lambda v: And(z(self.m(z(v))), z(self.x(z(v))) < z(k))

    def view(self, d):
        if isinstance(d, MD):
            return d.has, lambda v: z(d.mid(v))
        d = lib_py.to_sdict(d)

        def mid(v):
            x = d.get(v)
            return NOTHING if x is None else x.mid

        return (lambda v: z(d.has(v))), mid

    def check(self, L, k, phase):
        v, pre = L.ctx.int("v"), "%s/%s: " % (L.where, phase)
        has, mid = self.view(L.v("measurements"))
        d = self.done(k)
        if self.hint and phase == "init":
            self.hint(pre, v)
        L.ctx.prove(pre + "entries so far", Iff(has(v), self.has(d, v)), assume=False)
        L.ctx.prove(pre + "contents so far", Implies(self.has(d, v), mid(v) == self.mid(d, v)), assume=False)

    def havoc(self, L, k):
        ctx = L.ctx
        d = self.done(k)
        mid, n, f, x, nid = ctx.func("mid_f", I, I), ctx.int("kn_f"), ctx.func("kf_f", I, I), ctx.func("kx_f", I, I), ctx.func("nid_f", I, I)
        v = z3.Int("v!en")
        ctx.assume(z3.ForAll([v], z3.Implies(z(self.has(d, v)), mid(v) == self.mid(d, v)), patterns=[mid(v)]))
        ks = SSeq(n, lambda t: f(z(t)))
        ks.mem = lambda t: self.has(d, z(t))
        ks.index_of = lambda t: x(z(t))
        D = MD(self.th, ks, lambda t: mid(z(t)), lambda t: False, lambda t: nid(z(t)))
        fr = L.fr
        while "measurements" not in fr.vars:
            fr = fr.parent
        cur = fr.vars["measurements"]
        if getattr(cur, "born", 0) <= fr.born:
            ctx.prove(L.where + ": the caller's dictionary is not written", False)
        fr.vars["measurements"] = D
        L.covered.append(D)


def t_init(given, relabel):
    def unit(it):
        ctx = it.ctx
        th = Th(it)
        g = RGraph(it)
        g.born = birth()
        ins, outs = sublist(it, "inputs", g), sublist(it, "outputs", g)
        deft = MV(th, ctx.int("default"), -1)
        ctx.assume(And(deft.mid != NOTHING, th.ment(deft.mid)))
        kw = dict(input_nodes=ins, output_nodes=outs, default_measurement=deft, relabel_indices=relabel)
        if given:
            keys = sublist(it, "given", g)
            D = MD.of(it, th, keys, "given_content")
            m0 = D.mid
            v = z3.Int("v!gv")
            ctx.assume(z3.ForAll([v], z3.Implies(z(keys.mem(v)), z3.Or(m0(v) == NOTHING, th.ment(m0(v)))), patterns=[z(m0(v))]))
            kw["measurements"] = D
            kmem = lambda v: z(keys.mem(v))
        LIB["networkx.relabel_nodes"] = Builtin("networkx.relabel_nodes", lambda it_, a, k: relabelled(it, g, a))
        log = {}
        C = {}

        def outputc(it_, a, k):
            o = a[0].fields["_output_nodes"]
            if id(o) not in C:
                G2 = a[0].fields["_graph"]
                if getattr(o, "mem", None) is None:
                    m, x = positions(it, o, "outs2")
                else:
                    m = o.mem
                s = sublist(it, "outputc2", G2)
                w = z3.Int("w!oc")
                ctx.assume(z3.ForAll([w], z(s.mem(w)) == z3.And(z(G2.isnode(w)), z3.Not(z(m(w)))), patterns=[z(s.mem(w))]))
                C[id(o)] = (s, o, m)
            r = C[id(o)][0].snap()
            return r

        it.contracts[MC + "outputc"] = outputc
        steps = []

        def update(it_, a, k):
            steps.append(("attributes", a[0].fields["_measurements"]))
            if a[0].fields.get("_flow_partial_order", 0) is not None:
                ctx.prove("attributes are first derived without an order", False)
            for n in DERIVED:
                a[0].fields[n] = Att(n, a[0].fields["_measurements"].mid)
            a[0].fields["_partial_order"] = None

        found = ctx.choose(2)
        F, P_ = HostFn(None), HostFn(None)

        def cflow(it_, a, k):
            log["cflow"] = list(it.bind(it.fn("mentpy.mbqc.flow.find_cflow"), a, k).values())
            return (F, P_, 1, Opaque("layers")) if found else (None, None, None, None)

        def flow(it_, a, k):
            log["gflow"] = list(it.bind(it.fn("mentpy.mbqc.flow.Flow.__init__"), a, k).values())[1:]

        def upd_order(it_, a, k):
            steps.append(("order", a[0].fields.get("_flow_partial_order"), a[0].fields.get("_flow")))
            a[0].fields["_partial_order"] = Att("_partial_order", None) if a[0].fields.get("_flow_partial_order") is not None else None

        order = ("order",)

        def calc(it_, a, k):
            steps.append(("calculate", a[0].fields.get("_partial_order")))
            return order

        def setter(it_, a, k):
            if len(a) == 1:
                return a[0].fields["_measurement_order"]
            steps.append(("assign", a[1]))
            a[0].fields["_measurement_order"] = a[1]

        it.contracts[MC + "_update_attributes"] = update
        it.contracts["mentpy.mbqc.flow.find_cflow"] = cflow
        it.contracts["mentpy.mbqc.flow.Flow.__init__"] = flow
        it.contracts[MC + "_update_partial_order"] = upd_order
        it.contracts[MC + "calculate_order"] = calc
        it.contracts[MC + "measurement_order"] = setter
        q = MC + "__init__"
        box = {}
        if not given:
            # outputs handled so far are unmeasured
            it.loop_specs[(q, 0)] = Entries(th, lambda d, v: Or(box_outc(C, v), d(v)), lambda d, v: z3.If(z(d(v)), NOTHING, deft.mid))
        else:
            def base(v):
                if not relabel:
                    return kmem(v), z(m0(v))
                u = box_inv(box, v)
                return z3.And(u[0], kmem(u[1])), z(m0(u[1]))

            fill = lambda v: z3.If(base(v)[0], base(v)[1], z3.If(z(box_outc(C, v)), deft.mid, NOTHING))


            def hint(pre, v):
                ok, u = box_inv(box, v)
                i = z(keys.index_of(u))
                mp, so = box["map"], box["sorted"]
                w = ctx.int("w")
                ctx.prove(pre + "labels", Implies(rng(w, g.n), And(mp.has(so.f(w)), z(mp.get(so.f(w))) == w)))
                ctx.prove(pre + "labels 1", Implies(And(ok, kmem(u)), z(mp.get(u)) == v))
                ctx.prove(pre + "position of a given entry", Implies(And(ok, kmem(u)), And(rng(i, keys.n), z(keys.f(i)) == u, z(box["map"].get(keys.f(i))) == v)))

            it.loop_specs[(q, 1)] = Entries(th, lambda d, v: Or(base(v)[0], d(v)), lambda d, v: fill(v), lambda L: it.getattr(L.v("self"), "outputc"), hint if relabel else None)
        it.initbox = box
        cls = it.fn(MB + "MBQCircuit")
        r = attempt(it, lambda: it.call(cls, [g], kw))
        ctx.prove("post: valid arguments are accepted", r[0] == "val")
        if r[0] != "val":
            return
        c = r[1]
        G2 = c.fields["_graph"]
        x, y, i = ctx.int("x"), ctx.int("y"), ctx.int("i")
        ctx.assume(And(g.V(x), g.V(y)))
        m = (lambda v: z(box["map"].get(v))) if relabel else (lambda v: z(v))
        if relabel:
            ctx.prove("post: the circuit has a graph of its own", isinstance(G2, Built))
            if not isinstance(G2, Built):
                return
            ctx.prove("post: nodes are 0 .. n-1 in order", And(z(G2.n) == g.n, Iff(G2.isnode(i), rng(i, g.n)), z(G2.node(i)) == i))
            ctx.prove("post: labels keep their order", Iff(m(x) < m(y), x < y))
            ctx.prove("post: every new label stands for one node", And(rng(m(x), g.n), Iff(m(x) == m(y), x == y)))
            ctx.prove("post: the edges are the same", Iff(G2.adj(m(x), m(y)), g.E(x, y)))
        else:
            ctx.prove("post: the graph is the given one", G2 is g)
        for n, s in (("_input_nodes", ins), ("_output_nodes", outs)):
            t = c.fields[n]
            ctx.prove("post: %s: as many" % n, z(ops.seq_len(t)) == s.n)
            with ctx.scope(rng(i, s.n)):
                if ctx.feasible(z3.BoolVal(True)):
                    ctx.prove("post: %s: in the given order" % n, z(ops.seq_get(t, i)) == m(s.f(i)), assume=False)
        D2 = c.fields["_measurements"]
        if not isinstance(D2, MD):
            raise Unsupported("measurements are not kept in a dictionary")
        ctx.prove("post: every node, and nothing else, has an entry", Iff(D2.has(i), G2.isnode(i)), assume=False)
        dflt = z3.If(z(outs.mem(x)), NOTHING, deft.mid)
        want = z3.If(kmem(x), z(m0(x)), dflt) if given else dflt
        ctx.prove("post: measurement of a node: the given one, else the default, outputs unmeasured", z(D2.mid(m(x))) == want, assume=False)
        ctx.prove("post: attributes derived from these entries", bool(steps) and steps[0][0] == "attributes" and steps[0][1] is D2)
        same = lambda a: len(a) == 3 and a[0] is G2 and same_list(a[1], c.fields["_input_nodes"]) and same_list(a[2], c.fields["_output_nodes"])
        ctx.prove("post: flow searched on the circuit's graph, inputs and outputs", "cflow" in log and same(log["cflow"]) and "gflow" in log and same(log["gflow"]))
        fl = F if found else None
        ctx.prove("post: flow and its order are the ones found", c.fields["_flow"] is fl and c.fields["_flow_partial_order"] is (P_ if found else None))
        rest = [s[0] for s in steps[1:]]
        ctx.prove("post: order extended by the conditions after the flow is known, then a measurement order computed and checked if there is a flow", rest == (["order", "calculate", "assign"] if found else ["order"]) and (not found or steps[1][1] is P_ and isinstance(steps[2][1], Att)))
        ctx.prove("post: measurement order", c.fields["_measurement_order"] is (order if found else None))
        if given:
            ctx.prove("post: the caller's dictionary is not modified", D.mid is m0 and D.keys is keys)

    return unit


def same_list(a, b):
    return a is b or isinstance(a, SSeq) and isinstance(b, SSeq) and a.f is b.f


def box_outc(C, v):
    if len(C) != 1:
        raise Unsupported("outputc was not used")
    return z(list(C.values())[0][0].mem(z(v)))


def relabelled(it, g, a):
    if a[0] is not g or len(a) != 2 or not isinstance(a[1], SDict):
        raise Unsupported("relabel_nodes")
    m = a[1]
    v = it.ctx.int("v")
    it.ctx.prove("relabelling is defined on every node", Implies(g.V(v), m.has(v)), assume=False)
    it.initbox["map"] = m
    it.initbox["sorted"] = it.sorted_keys
    it.ctx.trust("networkx.relabel_nodes: image of nodes and edges under the mapping, in a new graph")
    return Image(g, m)


def box_inv(box, v):
    s = box["sorted"]
    return And(z(v) >= 0, z(v) < z(s.n)), z(s.f(z(v)))


def t_init_bad(it):
    ctx = it.ctx
    th = Th(it)
    g = RGraph(it)
    ins, outs = sublist(it, "inputs", g), sublist(it, "outputs", g)
    which = ctx.choose(3)
    kw = dict(input_nodes=ins, output_nodes=outs, default_measurement=MV(th, ctx.int("default"), -1), relabel_indices=False)
    if which < 2:
        s = ctx.int("stranger")
        ctx.assume(z3.Not(g.V(s)))
        n, f, at = ctx.int("n"), ctx.func("some", I, I), ctx.int("at")
        ctx.assume(And(n >= 1, rng(at, n), f(at) == s))
        kw[("input_nodes", "output_nodes")[which]] = SSeq(n, lambda k: f(z(k)))
        name = "post: %s that are no nodes are rejected" % ("inputs", "outputs")[which]
    else:
        kw["default_measurement"] = [3, "XY", None][ctx.choose(3)]
        name = "post: a default that is no measurement is rejected"
    must_raise(it, name, lambda: it.call(it.fn(MB + "MBQCircuit"), [g], kw), "ValueError")


UNITS = [
    Unit("_update_attributes: lists, planes and node ids follow the measurements", t_update, [MC + "_update_attributes"]),
    Unit("circuit[node] = measurement: replaces exactly that entry or changes nothing", t_setitem, [MC + "__setitem__", MC + "_update_or_restore"]),
    Unit("circuit[node]: reads exactly that entry", t_getitem, [MC + "__getitem__"]),
    Unit("del circuit[node]: clears exactly that entry", t_delitem, [MC + "__delitem__"]),
    Unit("circuit.measurements = ..: fills in defaults, or changes nothing", t_setall, [MC + "measurements", MC + "_update_or_restore"]),
    Unit("add_edge: rebuilds with exactly one more edge or changes nothing", t_edges(False), [MC + "add_edge", MC + "_reset_with_graph"]),
    Unit("add_edges_from: rebuilds with exactly these edges more or changes nothing", t_edges(True), [MC + "add_edges_from", MC + "_reset_with_graph"]),
    Unit("MBQCircuit(..): relabelled copy of the graph, default measurements", t_init(False, True), [MC + "__init__"]),
    Unit("MBQCircuit(..): given graph kept without relabelling, default measurements", t_init(False, False), [MC + "__init__"]),
    Unit("MBQCircuit(.., measurements): relabelled copy, given measurements completed", t_init(True, True), [MC + "__init__"]),
    Unit("MBQCircuit(.., measurements): given graph, given measurements completed", t_init(True, False), [MC + "__init__"]),
    Unit("MBQCircuit(..): strangers and non-measurements rejected", t_init_bad, [MC + "__init__"]),
]
