from gen import *
from mentpy.mbqc.flow import find_cflow, Flow

PAIRS = {}


def check_flow(g, ins, outs, res, must=None, msg=""):
    f, po, depth, layers = res
    desc = "%s: nodes %s edges %s inputs %s outputs %s" % (msg, list(g.nodes), list(g.edges), ins, outs)
    if must is None:
        must = has_cflow(g, ins, outs)
    if f is None:
        need(po is None and depth is None and layers is None, "%s: partial result", desc)
        need(not must, "%s: no flow reported but one exists", desc)
        return False
    need(must, "%s: flow reported but none exists", desc)
    meas = [v for v in g.nodes if v not in outs]
    succ = {u: f(u) for u in meas}
    for u, w in succ.items():
        need(g.has_edge(u, w), "%s: successor %s of %s is no neighbour", desc, w, u)
        need(w not in ins, "%s: successor %s of %s is an input", desc, w, u)
        need(po(u, w), "%s: %s not before its successor %s", desc, u, w)
        for x in g.neighbors(w):
            if x != u:
                need(po(u, x), "%s: %s not before %s, a neighbour of its successor %s", desc, u, x, w)
    need(len(set(succ.values())) == len(succ), "%s: successors %s not distinct", desc, succ)
    need(set(layers) == set(g.nodes), "%s: layers %s do not cover the nodes", desc, layers)
    for v in outs:
        need(layers[v] == 0, "%s: output %s in layer %s", desc, v, layers[v])
    for u in g.nodes:
        need(not po(u, u), "%s: %s before itself", desc, u)
        for w in g.nodes:
            if po(u, w):
                need(layers[u] > layers[w], "%s: layers do not decrease from %s to %s", desc, u, w)
                need(not po(w, u), "%s: order not antisymmetric", desc)
    lv = {layers[u] for u in meas}
    need(depth == len(lv) and lv == set(range(1, depth + 1)), "%s: depth %s, measurement layers %s", desc, depth, sorted(lv))
    return True


def call(g, ins, outs, msg, must=None):
    n0, e0, i0, o0 = list(g.nodes), list(g.edges), list(ins), list(outs)
    res = find_cflow(g, ins, outs)
    need(list(g.nodes) == n0 and list(g.edges) == e0 and list(ins) == i0 and list(outs) == o0, "arguments modified")
    return check_flow(g, ins, outs, res, must, msg)


def wired(rng, idx):
    n = rng.randint(1, 7)
    k = rng.randint(1, min(3, n))
    g, i, o = wires(rng, n, k) if n > 1 else (rgraph(rng, 1), [0], [0])
    if rng.random() < 0.3:
        rng.shuffle(o)
    if rng.random() < 0.2:
        rng.shuffle(i)
    call(g, i, o, "wires")


def arbitrary(rng, idx):
    n = rng.randint(1, 6)
    g = rgraph(rng, n, nodes=rlabels(rng, n))
    k = rng.randint(0, n)
    call(g, rng.sample(list(g.nodes), k), rng.sample(list(g.nodes), k), "random graph")


ENUM = []
for _n in range(1, 5):
    _es = list(itertools.combinations(range(_n), 2))
    for _m in range(2 ** len(_es)):
        for _k in range(0, _n + 1):
            for _i in itertools.combinations(range(_n), _k):
                for _o in itertools.combinations(range(_n), _k):
                    ENUM.append((_n, _m, _i, _o))


@case(count=len(ENUM), enumerated=True, weight=1.5)
def enumerated(rng, idx):
    """every graph with at most 4 nodes and every pair of input and output sets"""
    n, m, i, o = ENUM[(idx * 7919) % len(ENUM)]
    es = list(itertools.combinations(range(n), 2))
    call(graph(range(n), [e for b, e in enumerate(es) if m >> b & 1]), list(i), list(o), "enumerated")


@case(weight=0.6)
def large(rng, idx):
    """long wires with non-crossing rungs: a flow exists by construction"""
    k, m = rng.randint(1, 5), rng.randint(2, 40)
    lab = list(range(k * m))
    if rng.random() < 0.5:
        rng.shuffle(lab)
    w = [lab[i * m : (i + 1) * m] for i in range(k)]
    es = [e for x in w for e in zip(x, x[1:])]
    for a in range(k - 1):
        for c in range(m):
            if rng.random() < 0.4:
                es.append((w[a][c], w[a + 1][c]))
    rng.shuffle(es)
    nodes = sorted(lab)
    rng.shuffle(nodes)
    g = graph(nodes, es)
    call(g, [x[0] for x in w], [x[-1] for x in w], "grid", must=True)
    f, po, d, l = find_cflow(g, [x[0] for x in w], [x[-1] for x in w])
    need(d == m - 1, "depth of a %d x %d grid is %s", k, m, d)


def through_circuit(rng, idx):
    n = rng.randint(2, 6)
    g, i, o = wires(rng, n, rng.randint(1, min(3, n - 1)))
    c = mp.MBQCircuit(g, input_nodes=i, output_nodes=o, relabel_indices=False)
    ex = has_cflow(g, i, o)
    need((c.flow is not None) == ex, "circuit flow %s, exists %s", c.flow, ex)
    if ex:
        check_flow(g, i, o, (c.flow, c.partial_order, c.depth, c.gflow.layers_dict), True, "circuit")


@case(count=50)
def sizes(rng, idx):
    g = rgraph(rng, 4)
    need(raises(lambda: find_cflow(g, [0], [1, 2]), ValueError), "different sizes accepted")


CASES = cases(wired, arbitrary, enumerated, large, through_circuit, sizes)
