"""C24: drawing: colours, labels and flow arrows (mentpy/mbqc/view.py)"""
from .common import *
from pyvc.lib_nx import SGraph
from pyvc.interp import Bound

VW = "mentpy.mbqc.view."
CONST = dict(c="CONTROLLED_NODE_COLOR", o="OUTPUT_NODE_COLOR", u="UNTRAINABLE_NODE_COLOR", d="DEFAULT_NODE_COLOR", i="INPUT_NODE_COLOR")
PLANES = ("X", "Y", "Z", "XY", "XZ", "YZ", "XYZ", "")


class Ment:
    """measurement of a node: angle is a number, None or a triple of numbers"""

    def __init__(self, S, node):
        self.S, self.node = S, node

    def __pyvc_getattr__(self, it, name):
        S, v = self.S, z(self.node)
        if name == "angle":
            if it.ctx.branch(S.has_angle(v)):
                if it.ctx.branch(S.triple(v)):
                    return (S.angle(v), S.angle2(v), S.angle3(v))
                return S.angle(v)
            return None
        if name == "plane":
            return S.plane(self.node)
        raise Unsupported("Ment." + name)


class Get:
    """mapping node -> f(node), defined on the nodes of the graph"""

    def __init__(self, S, f):
        self.S, self.f = S, f

    def __pyvc_getitem__(self, it, k):
        if not it.ctx.branch(self.S.g.isnode(k)):
            ops.pyraise("KeyError", k)
        return self.f(it, k)

    def __pyvc_call__(self, it, a, k):
        return self.f(it, a[0])


class State:
    """what the drawing code may ask a circuit for: independent, arbitrary answers"""

    def __init__(self, it):
        ctx = self.ctx = it.ctx
        g = self.g = SGraph(it)
        self.lists = {n: sublist(it, n, g) for n in ("controlled_nodes", "quantum_output_nodes", "trainable_nodes", "input_nodes", "output_nodes", "outputc", "inputc", "classical_output_nodes")}
        # a node is an output or in outputc
        self.succ = ctx.func("successor", I, I)
        self.hasment, self.has_angle, self.triple = (ctx.func(n, I, B) for n in ("measured", "has_angle", "triple"))
        self.angle, self.angle2, self.angle3 = (ctx.func(n, I, R) for n in ("angle", "angle2", "angle3"))
        self.pl = ctx.func("plane", I, I)
        self.plane = lambda v: SStr(self.pl(z(v)), PLANES)
        v = z3.Int("v!s")
        ctx.assume(z3.ForAll([v], z3.Or(*[self.pl(v) == z(p) for p in PLANES]), patterns=[self.pl(v)]))

    def ctrl(self, v):
        return self.lists["controlled_nodes"].mem(v)

    def __pyvc_getattr__(self, it, name):
        if name == "graph":
            return self.g
        if name == "nodes":
            return Builtin("nodes", lambda it_, a, k: self.g.nodes())
        if name in self.lists:
            s = self.lists[name]
            r = s.snap()
            r.mem, r.index_of = s.mem, s.index_of
            return r
        if name == "planes":
            return Get(self, lambda it_, v: self.plane(v))
        if name == "measurements":
            return Get(self, lambda it_, v: Ment(self, v) if it.ctx.branch(self.hasment(z(v))) else None)
        if name == "flow":
            return Get(self, lambda it_, v: self.succ(z(v)))
        raise Unsupported("circuit attribute " + name)

    # expected colour under the rules of the property
    def colour(self, it, style, v):
        M = {k: it.fn(VW + n) for k, n in CONST.items()}
        L = self.lists
        c = ite(L["controlled_nodes"].mem(v), M["c"], ite(L["quantum_output_nodes"].mem(v), M["o"], ite(Not(L["trainable_nodes"].mem(v)), M["u"], M["d"])))
        if style == "black_and_white":
            return "#FFFFFF"
        if style == "blue_inputs":
            return ite(L["input_nodes"].mem(v), M["i"], c)
        return c


def part(base, extra, k, val, s):
    """dict `base` with the first k elements of list s set to val"""
    seen = lambda v: And(s.mem(v), z(s.index_of(v)) < z(k))
    return SDict(lambda v: Or(base.has(v), seen(v)), lambda v: ite(z3.simplify(z(seen(v))), val(v), base.get(v)))


def nodes_upto(g, k, val):
    return SDict(lambda v: And(g.isnode(v), z(g.idx(v)) < z(k)), val)


def t_colors(style):
    def unit(it):
        ctx = it.ctx
        S = State(it)
        g = S.g
        q = VW + "get_node_colors"
        base = lambda v: S.colour(it, "default", v)
        it.loop_specs[(q, 0)] = Inv(exact={"node_colors": lambda L, k: nodes_upto(g, k, base)})
        inp = S.lists["input_nodes"]
        full = SDict(g.isnode, base)
        it.loop_specs[(q, 1)] = Inv(exact={"node_colors": lambda L, k: part(full, None, k, lambda v: it.fn(VW + CONST["i"]), inp)})
        kw = {} if style is None else {"style": style}
        d = it.call(it.fn(q), [S], kw)
        ok = isinstance(d, SDict)
        ctx.prove("post: returns a dictionary", ok)
        if ok:
            v = ctx.int("v")
            ctx.prove("post: exactly the nodes are coloured", Iff(d.has(v), g.isnode(v)))
            ctx.assume(g.isnode(v))
            prove_eq(it, "post: colour of a node", d.get(v), S.colour(it, style or "default", v))

    return unit


def t_badstyle(it):
    S = State(it)
    st = "something else"
    must_raise(it, "post: unknown style rejected", lambda: it.call(it.fn(VW + "get_node_colors"), [S], {"style": st}), "AssertionError")


ARROW = {"X": r"$\uparrow$", "Y": r"$\rightarrow$", "XY": r"$\nearrow$", "Z": r"$\cdot$", "XZ": r"$\nwarrow$", "YZ": r"$\nwarrow$", "XYZ": r"$\nwarrow \nearrow$", "": ""}


def labels(it, S, opt):
    return it.call(it.fn(VW + "process_labels"), [S, VDict({"label": opt})])


def t_planes(opt):
    def unit(it):
        ctx = it.ctx
        S = State(it)
        g, c = S.g, S.lists["controlled_nodes"]
        q = VW + "process_labels"
        arrow = opt.startswith("arrow")

        def want(v):
            if not arrow:
                return S.plane(v)
            out = ARROW[""]
            for p in PLANES[:-1]:
                out = ite(S.pl(z(v)) == z(p), ARROW[p], out)
            return out

        base = SDict((lambda v: And(g.isnode(v), Not(S.ctrl(v)))) if arrow else g.isnode, want)
        spec = Inv(exact={"labels": lambda L, k: part(base, None, k, lambda v: "Ctrl", c)})
        for i in range(4):
            it.loop_specs[(q, i)] = spec
        d = labels(it, S, opt)
        ok = isinstance(d, SDict)
        ctx.prove("post: returns a dictionary", ok)
        if ok:
            v = ctx.int("v")
            ctx.prove("post: exactly the nodes are labelled", Iff(d.has(v), g.isnode(v)))
            ctx.assume(g.isnode(v))
            prove_eq(it, "post: label of a node", d.get(v), ite(S.ctrl(v), "Ctrl", want(v)))

    return unit


class LabelOf:
    """the angle label the property asks for (a function of the node)"""

    def __init__(self, S, v):
        self.S, self.v = S, v

    def __pyvc_ite__(self, c, a, b):
        return Choice(c, a, b)


class Choice:
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __pyvc_ite__(self, c, a, b):
        return Choice(c, a, b)


def resolve(ctx, x):
    while isinstance(x, Choice):
        x = x.a if ctx.branch(x.c) else x.b
    return x


def is_label(it, S, name, got, v):
    """`got` is the label of node v: Ctrl / rounded angle / theta / empty"""
    ctx = it.ctx
    v = z(v)
    got = resolve(ctx, got)
    if isinstance(got, LabelOf):
        ctx.prove(name, z(got.v) == v)
        return
    r3 = lambda x, w: isinstance(x, Opaque) and x.what == "rounded" and x.digits == 3 and is_num(x.arg) and ops.compare(ctx, "==", x.arg, w)
    if ctx.branch(S.ctrl(v)):
        ctx.prove(name + " (controlled)", got == "Ctrl" if isinstance(got, str) else False)
    elif not ctx.branch(S.hasment(v)):
        ctx.prove(name + " (no measurement)", got == "" if isinstance(got, str) else False)
    elif not ctx.branch(S.has_angle(v)):
        ctx.prove(name + " (no angle)", got == r"$\theta$" if isinstance(got, str) else False)
    elif ctx.branch(S.triple(v)):
        ws = (S.angle(v), S.angle2(v), S.angle3(v))
        ok = isinstance(got, (tuple, VList)) and len(got) == 3
        ctx.prove(name + " (three angles)", And(*[r3(x, w) for x, w in zip(got, ws)]) if ok else False)
    else:
        ctx.prove(name + " (angle)", r3(got, S.angle(v)))


class Angles:
    """after k nodes: labels of exactly the first k nodes, each as the property asks"""

    kind = "for"

    def __init__(self, S):
        self.S = S

    def bind(self, L):
        L.v("labels")

    def want(self, k):
        return nodes_upto(self.S.g, k, lambda v: LabelOf(self.S, v))

    def check(self, L, k, phase):
        ctx, S = L.ctx, self.S
        d = L.v("labels")
        if phase == "init":
            ctx.prove(L.where + "/init: no labels yet", isinstance(d, VDict) and not d)
            return
        w = self.want(k)
        v = ctx.int("any_node")
        ctx.prove(L.where + "/preserve: labelled nodes", Iff(d.has(v), w.has(v)), assume=False)
        ctx.assume(w.has(v))
        if ctx.branch(v == S.g.node(z3.simplify(z(k) - 1))):
            is_label(L.it, S, L.where + "/preserve: label of this node", d.get(S.g.node(z3.simplify(z(k) - 1))), v)
        else:
            is_label(L.it, S, L.where + "/preserve: label of an earlier node", d.get(v), v)

    def havoc(self, L, k):
        from pyvc.spec import put

        put(L, "labels", self.want(k))

    def enter(self, L, k):
        pass

    def on_break(self, L, k):
        raise Unsupported("break")

    def on_exit(self, L, n):
        pass


def t_angles(opt):
    def unit(it):
        ctx = it.ctx
        S = State(it)
        q = VW + "process_labels"
        for i in range(4):
            it.loop_specs[(q, i)] = Angles(S)
        d = labels(it, S, opt)
        ok = isinstance(d, SDict)
        ctx.prove("post: returns a dictionary", ok)
        if ok:
            v = ctx.int("v")
            ctx.prove("post: exactly the nodes are labelled", Iff(d.has(v), S.g.isnode(v)))
            ctx.assume(S.g.isnode(v))
            is_label(it, S, "post: label of a node", d.get(v), v)

    return unit


def t_badlabel(it):
    S = State(it)
    must_raise(it, "post: unknown label option rejected", lambda: labels(it, S, "something else"), "ValueError")


class DiGraph:
    """networkx.DiGraph restricted to add_nodes_from / add_edge"""

    def __init__(self):
        self.born = birth()
        self.nodes, self.edge = (lambda v: False), (lambda u, v: False)

    def __pyvc_getattr__(self, it, name):
        if name == "add_nodes_from":
            def f(it_, a, k):
                it.write_log(self)
                s = it.as_seq(a[0])
                if getattr(s, "mem", None) is None:
                    raise Unsupported("nodes without membership")
                old, m = self.nodes, s.mem
                self.nodes = lambda v: Or(old(v), m(v))

            return Builtin(name, f)
        if name == "add_edge":
            def f(it_, a, k):
                it.write_log(self)
                u, w = z(a[0]), z(a[1])
                old, en = self.nodes, self.edge
                self.nodes = lambda v: Or(old(v), z(v) == u, z(v) == w)
                self.edge = lambda x, y: Or(en(x, y), And(z(x) == u, z(y) == w))

            return Builtin(name, f)
        raise Unsupported("DiGraph." + name)


class Arrows:
    kind = "for"

    def __init__(self, S):
        self.S = S

    def find(self, L):
        ds = [(n, v) for n, v in L.fr.vars.items() if isinstance(v, DiGraph)]
        if len(ds) != 1:
            raise Unsupported("the arrow graph is not one local variable")
        return ds[0][1]

    def bind(self, L):
        self.find(L)

    def edges(self, k):
        s = self.S.lists["outputc"]
        return lambda u, v: And(s.mem(u), z(s.index_of(u)) < z(k), z(v) == self.S.succ(z(u)))

    def check(self, L, k, phase):
        ctx, d = L.ctx, self.find(L)
        u, v = ctx.int("u"), ctx.int("v")
        ctx.prove("%s/%s: arrows" % (L.where, phase), Iff(d.edge(u, v), self.edges(k)(u, v)))
        ctx.prove("%s/%s: nodes" % (L.where, phase), Iff(d.nodes(v), self.S.g.isnode(v)))

    def havoc(self, L, k):
        d = self.find(L)
        d.nodes, d.edge = self.S.g.isnode, self.edges(k)
        L.covered.append(d)

    def enter(self, L, k):
        pass

    def on_break(self, L, k):
        raise Unsupported("break")

    def on_exit(self, L, n):
        pass


def t_arrows(it):
    from pyvc.interp import LIB

    ctx = it.ctx
    S = State(it)
    LIB["networkx.DiGraph"] = Builtin("networkx.DiGraph", lambda it_, a, k: DiGraph())
    s = S.lists["outputc"]
    v = z3.Int("v!f")
    ctx.assume(z3.ForAll([v], z3.Implies(z(s.mem(v)), S.g.isnode(S.succ(v))), patterns=[S.succ(v)]))  # flow maps into the graph (C03)
    q = VW + "_graph_with_flow"
    it.loop_specs[(q, 0)] = Arrows(S)
    d = it.call(it.fn(q), [S])
    ok = isinstance(d, DiGraph)
    ctx.prove("post: returns the arrow graph", ok)
    if ok:
        u, w = ctx.int("u"), ctx.int("w")
        ctx.prove("post: arrows are node -> successor for the non-output nodes", Iff(d.edge(u, w), And(s.mem(u), w == S.succ(u))))
        ctx.prove("post: all nodes, no others", Iff(d.nodes(w), S.g.isnode(w)))


UNITS = (
    [Unit("get_node_colors (%s)" % (st or "no style given"), t_colors(st), [VW + "get_node_colors"]) for st in (None, "default", "black_and_white", "blue_inputs")]
    + [Unit("get_node_colors (unknown style)", t_badstyle, [VW + "get_node_colors"])]
    + [Unit("process_labels (%s)" % o, t_planes(o), [VW + "process_labels"]) for o in ("plane", "planes", "arrow", "arrows")]
    + [Unit("process_labels (%s)" % o, t_angles(o), [VW + "process_labels"]) for o in ("angle", "angles")]
    + [Unit("process_labels (unknown option)", t_badlabel, [VW + "process_labels"]), Unit("_graph_with_flow", t_arrows, [VW + "_graph_with_flow"])]
)
BOUNDED = ["draw (matplotlib, spring layout): that it passes these colours, labels and arrows to the drawing calls"]
ASSUMES = [
    "the circuit is represented by arbitrary, mutually independent node lists, planes, measurements and flow (the accessors of MBQCircuit; their mutual consistency is C06); lists hold distinct nodes",
    "planes are one of X, Y, Z, XY, XZ, YZ, XYZ or empty; angles are None, a number or a triple of numbers",
    "the flow maps every non-output node to a node (C03)",
    "networkx.DiGraph: add_nodes_from/add_edge add exactly those nodes and edges",
]
