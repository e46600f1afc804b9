"""networkx: simple graphs with an arbitrary number of nodes"""
import z3

from . import ops
from .core import *
from .interp import *
from .interp import LIB
from .lib_numpy import dtype_arg
from .ops import pyraise

I, B = z3.IntSort(), z3.BoolSort()


class SGraph:
    """arbitrary simple undirected graph.  Node labels are integers; node(i) is the i-th
    inserted node, idx its inverse on the nodes; adj symmetric and irreflexive"""

    def __init__(self, it, name="g", contiguous=False, iso=None):
        ctx = self.ctx = it.ctx
        self.it = it
        self.n = ctx.int(name + "_n")
        ctx.assume(self.n >= 0)
        i, j, v = z3.Ints("i!g j!g v!g")
        if contiguous:
            self.node = lambda k: z(k)
            self.idx = lambda k: z(k)
        else:
            N, X = ctx.func(name + "_node", I, I), ctx.func(name + "_idx", I, I)
            ctx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < self.n), X(N(i)) == i), patterns=[N(i)]))
            self.node = lambda k: N(z(k))
            self.idx = lambda k: X(z(k))
        # adjacency by position, symmetric and irreflexive by construction
        A = ctx.func(name + "_edge", I, I, B)
        self.edge_ij = lambda a, b: z3.If(z(a) < z(b), A(z(a), z(b)), z3.And(z(b) < z(a), A(z(b), z(a))))

    def isnode(self, v):
        i = self.idx(v)
        return z3.And(i >= 0, i < self.n, self.node(i) == z(v))

    def adj(self, u, v):
        return z3.And(self.isnode(u), self.isnode(v), self.edge_ij(self.idx(u), self.idx(v)))

    def nodes(self):
        s = SSeq(self.n, lambda i: self.node(i))
        s.mem = self.isnode
        s.index_of = lambda v: self.idx(v)
        s.setlike = True
        return s

    def matrix(self, dt):
        f = lambda i, j: ite(self.edge_ij(i, j), 1, 0)
        return SArr((self.n, self.n), f, dt)

    # host protocol
    def __pyvc_len__(self, it):
        return self.n

    def __pyvc_contains__(self, it, v):
        return self.isnode(v)

    def __pyvc_iter__(self, it):
        return self.nodes()

    def __pyvc_getattr__(self, it, name):
        def b(f):
            return Builtin("Graph." + name, f)

        if name == "nodes":
            return NodeView(self)
        if name == "number_of_nodes" or name == "order":
            return b(lambda it_, a, k: self.n)
        if name == "index_mapping":  # GraphState.index_mapping (C23)
            return b(lambda it_, a, k: SDict(self.isnode, lambda v: self.idx(v)))
        if name == "has_node":
            return b(lambda it_, a, k: self.isnode(a[0]))
        if name == "has_edge":
            return b(lambda it_, a, k: self.adj(a[0], a[1]))
        if name == "neighbors":
            def nb(it_, a, k):
                if not it.ctx.branch(self.isnode(a[0])):
                    pyraise("Exception", "node not in graph")
                return SSet(lambda t: self.adj(a[0], t))

            return b(nb)
        raise Unsupported("Graph.%s" % name)


class NodeView:
    def __init__(self, g):
        self.g = g

    def __pyvc_call__(self, it, a, k):
        if a or k:
            raise Unsupported("nodes(data)")
        return self.g.nodes()

    def __pyvc_iter__(self, it):
        return self.g.nodes()

    def __pyvc_len__(self, it):
        return self.g.n

    def __pyvc_contains__(self, it, v):
        return self.g.isnode(v)


class SparseMat:
    def __init__(self, m):
        self.m = m

    def __pyvc_getattr__(self, it, name):
        if name in ("todense", "toarray"):
            return Builtin(name, lambda it_, a, k: self.m.copy())
        raise Unsupported("sparse." + name)


def _adjm(it, a, k):
    g = a[0]
    if not isinstance(g, SGraph) or len(a) > 1 or set(k) - {"dtype"}:
        raise Unsupported("adjacency_matrix")
    return SparseMat(g.matrix(dtype_arg(it, k.get("dtype"), "i")))


LIB["networkx.adjacency_matrix"] = Builtin("networkx.adjacency_matrix", _adjm)
LIB["networkx.to_numpy_array"] = Builtin("networkx.to_numpy_array", lambda it, a, k: _adjm(it, a, k).m)
