"""random graphs, circuits and independent flow oracles"""
import itertools
import math

import networkx as nx
import numpy as np
import mentpy as mp
from mentpy.operators import Ment, ControlMent
from util import *


def rlabels(rng, n, kind=None):
    """n distinct sortable labels in random order"""
    kind = kind or rng.choice(["range", "range", "shuffled", "sparse", "str", "neg"])
    if kind == "range":
        return list(range(n))
    if kind == "shuffled":
        r = list(range(n))
        rng.shuffle(r)
        return r
    if kind == "sparse":
        return rng.sample(range(100), n)
    if kind == "neg":
        return rng.sample(range(-50, 50), n)
    return rng.sample(["v%02d" % i for i in range(40)], n)


def graph(nodes, edges, cls=None):
    g = (cls or mp.GraphState)()
    g.add_nodes_from(nodes)
    g.add_edges_from(edges)
    return g


def rgraph(rng, n, p=None, nodes=None):
    nodes = list(range(n)) if nodes is None else nodes
    p = rng.choice([0.2, 0.35, 0.5, 0.7]) if p is None else p
    es = [e for e in itertools.combinations(nodes, 2) if rng.random() < p]
    es = [e if rng.random() < 0.5 else e[::-1] for e in es]
    rng.shuffle(es)
    return graph(nodes, es)


def wires(rng, n, k, extra=None, labels=None):
    """k paths covering n nodes plus random extra edges: (graph, inputs, outputs)"""
    labels = rlabels(rng, n) if labels is None else labels
    nodes = list(labels)
    rng.shuffle(nodes)
    cuts = sorted(rng.sample(range(1, n), k - 1))
    ws = [nodes[a:b] for a, b in zip([0] + cuts, cuts + [n])]
    es = [e for w in ws for e in zip(w, w[1:])]
    extra = rng.choice([0.0, 0.1, 0.25, 0.4]) if extra is None else extra
    es += [e for e in itertools.combinations(nodes, 2) if rng.random() < extra and e not in es and e[::-1] not in es]
    rng.shuffle(es)
    order = list(labels)
    if rng.random() < 0.5:
        rng.shuffle(order)
    return graph(order, es), [w[0] for w in ws], [w[-1] for w in ws]


def flows(g, ins, outs):
    """every causal flow (brute force): dict successor, with its relation"""
    meas = [v for v in g.nodes if v not in outs]
    cand = [[w for w in g.neighbors(u) if w not in ins] for u in meas]
    for pick in itertools.product(*cand):
        if len(set(pick)) < len(pick):
            continue
        f = dict(zip(meas, pick))
        d = nx.DiGraph()
        d.add_nodes_from(g.nodes)
        for u in meas:
            for w in [f[u]] + list(g.neighbors(f[u])):
                if w != u:
                    d.add_edge(u, w)
        if nx.is_directed_acyclic_graph(d):
            yield f, d


def has_cflow(g, ins, outs):
    for f in flows(g, ins, outs):
        return True
    return False


def flow_circuit(rng, n=None, k=None, labels=None, extra=None, tries=60, **kw):
    """a circuit with causal flow built from random wires"""
    for _ in range(tries):
        nn = n or rng.randint(2, 7)
        kk = min(k or rng.randint(1, 3), nn - 1)
        g, i, o = wires(rng, nn, kk, labels=labels(nn) if callable(labels) else labels, extra=extra)
        if has_cflow(g, i, o):
            return g, i, o
    g, i, o = wires(rng, n or 4, 1, extra=0.0)
    return g, i, o


VARP = ["XY", "XZ", "YZ", "XYZ"]
FIXP = ["X", "Y", "Z"]


def rangle(rng, plane):
    a = lambda: rng.choice([0.0, math.pi / 2, math.pi, -1.234, 0.5, 7.0, rng.uniform(-4, 4)])
    return (a(), a()) if plane == "XYZ" else a()


def rment(rng, planes=None):
    p = rng.choice(planes or VARP + FIXP)
    if p in VARP and rng.random() < 0.5:
        return Ment(rangle(rng, p), p)
    return Ment(p)


def rcment(rng, cond, planes=None):
    """controlled measurement with random branches"""
    out = []
    for _ in range(2):
        p = rng.choice(planes or VARP + FIXP)
        out += [rangle(rng, p) if p in VARP and rng.random() < 0.5 else None, p]
    return ControlMent(cond, *out)


def same_ment(a, b):
    """two stored measurements are the same operation"""
    if a is None or b is None:
        return a is None and b is None
    if type(a) is not type(b):
        return False
    if isinstance(a, ControlMent):
        return same_ment(a._true_ment, b._true_ment) and all(_eqang(getattr(a, x), getattr(b, x)) for x in ("_angle", "_plane"))
    return a.plane == b.plane and _eqang(a.angle, b.angle)


def _eqang(a, b):
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return a is None and b is None or isinstance(a, str) and a == b
    return np.allclose(a, b)
