"""C23: stabilisers of graph states (mentpy/mbqc/states/graphstate.py)"""
from .common import *
from pyvc.lib_nx import SGraph

GS = "mentpy.mbqc.states.graphstate."
PO = "mentpy.operators.pauliop.PauliOp"
WALL = 100


def tableau(it, g):
    """the tableau handed to PauliOp by the real code"""
    got = []

    def con(it_, a, k):
        got.append(a[0] if a else k.get("op"))
        o = Obj(it.fn(PO))
        o.fields["matrix"] = SArr(got[-1].shape, got[-1].snap(), "gf2")
        return o

    it.contracts[PO] = con
    r = it.call(it.fn(GS + "GraphState.stabilizers"), [g])
    ok = len(got) == 1 and isinstance(got[0], SArr) and isinstance(r, Obj) and r.cls is it.fn(PO)
    it.ctx.prove("post: one Pauli operator is built and returned", ok)
    return got[0] if ok else None, r


def spec(g):
    """X block identity; Z block: neighbours of the i-th node"""
    n = g.n

    def f(i, j):
        col = z3.simplify(z(j) - n)
        return z3.If(z(j) < n, z3.If(z(i) == z(j), z3.IntVal(1), z3.IntVal(0)), z3.If(z(g.adj(g.node(i), g.node(col))), z3.IntVal(1), z3.IntVal(0)))

    return SArr((n, z3.simplify(2 * n)), f, "i")


def t_tableau(it):
    g = SGraph(it)
    it.ctx.assume(g.n >= 1)
    m, _ = tableau(it, g)
    if m is not None:
        prove_eq(it, "post: [identity | adjacency] in node order", m, spec(g))


def t_commute(it):
    g = SGraph(it)
    ctx = it.ctx
    ctx.assume(g.n >= 1)
    m, P = tableau(it, g)
    if m is None:
        return
    A = lambda i, j: z3.If(g.edge_ij(i, j), z3.IntVal(1), z3.IntVal(0))
    r = it.call(it.fn(PO + ".symplectic_prod"), [P, P])
    ctx.prove("post: one value per pair", And(r.ndim == 2, compare_shape(r, g.n, g.n)))
    i, j = ctx.int("i"), ctx.int("j")
    ctx.assume(And(rng(i, g.n), rng(j, g.n)))
    # the two inner products have a single non-zero term each (the X block is the identity)
    v = r.get(i, j)
    for t in sums_in(ctx, v):
        body = ctx.sum_terms[t.get_id()]
        c0 = i if single_at(ctx, body, i, g.n) else j
        sum_single(it, "inner product", t, c0)
    ctx.prove("post: stabilisers commute pairwise", z(zint(v)) == 0)


def single_at(ctx, term, c, n):
    t, m, body, q = term
    k = ctx.int("k_")
    return ctx.valid(Implies(And(rng(k, m), k != c), z3.substitute(body, (q, k)) == 0))


def sums_in(ctx, e):
    out, st, seen = [], [z(zint(e))], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.get_id() in ctx.sum_terms:
            out.append(x)
            continue
        st.extend(x.children())
    return out


def compare_shape(a, *dims):
    return And(*[z(x) == z(y) for x, y in zip(a.shape, dims)])


def t_independent(it):
    """a GF(2) combination of rows that gives the identity has only zero coefficients"""
    g = SGraph(it)
    ctx = it.ctx
    ctx.assume(g.n >= 1)
    m, P = tableau(it, g)
    if m is None:
        return
    cf = ctx.func("coef", I, I)
    k = z3.Int("k!c")
    ctx.assume(z3.ForAll([k], z3.And(cf(k) >= 0, cf(k) <= 1)))
    c = SArr((g.n,), lambda i: cf(z(i)), "gf2")
    v = ops.matmul(ctx, c, P.fields["matrix"])
    j = ctx.int("j")
    ctx.assume(rng(j, g.n))
    e = v.get(j)
    for t in sums_in(ctx, e):
        sum_single(it, "column of the X block", t, j)
    ctx.assume(z(zint(e)) == 0)
    ctx.prove("post: the stabilisers are independent", cf(j) == 0)


def t_index(it):
    g = SGraph(it)
    ctx = it.ctx
    d = it.call(it.fn(GS + "GraphState.index_mapping"), [g])
    ok = isinstance(d, SDict)
    ctx.prove("post: returns a dictionary", ok)
    if not ok:
        return
    v = ctx.int("v")
    ctx.prove("post: keys are the nodes", Iff(d.has(v), g.isnode(v)))
    i = ctx.int("i")
    ctx.assume(rng(i, g.n))
    ctx.prove("post: i-th node maps to i", z(d.get(g.node(i))) == i)


UNITS = [
    Unit("stabilizers/tableau", t_tableau, [GS + "_get_stabilizers", GS + "GraphState.stabilizers"]),
    Unit("stabilizers/commute", t_commute, [GS + "_get_stabilizers", PO + ".symplectic_prod"]),
    Unit("stabilizers/independent", t_independent, [GS + "_get_stabilizers"]),
    Unit("index_mapping", t_index, [GS + "GraphState.index_mapping"]),
]
ASSUMES = ["the Pauli operator built from a tableau carries that tableau and its text (contract of PauliOp.__init__, proved under C09)", "node labels are represented by integers (any hashable labels can be numbered); nx.adjacency_matrix lists rows and columns in node insertion order", "at least one node (networkx itself rejects the empty graph)"]
