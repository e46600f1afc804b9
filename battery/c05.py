from gen import *


def check_order(c, order, before, msg):
    need(sorted(map(str, order)) == sorted(map(str, c.graph.nodes)) and len(order) == len(c.graph), "%s: order %s does not list every node once", msg, order)
    for i, u in enumerate(order):
        for v in order[i + 1 :]:
            need(not before(v, u), "%s: %s placed before %s in %s", msg, u, v, order)


def flow_pairs(c):
    """u must precede its successor and the successor's other neighbours"""
    for u in c.graph.nodes:
        if u in c.output_nodes:
            continue
        w = c.flow(u)
        yield u, w
        for x in c.graph.neighbors(w):
            if x != u:
                yield u, x


def check(c, msg, conds=()):
    po = c.partial_order
    nodes = list(c.graph.nodes)
    check_order(c, c.measurement_order, po, msg)
    for u, v in list(flow_pairs(c)) + list(conds):
        need(po(u, v), "%s: %s is not before %s in the partial order", msg, u, v)
        need(not po(v, u), "%s: order not antisymmetric at %s, %s", msg, u, v)
    for u in nodes:
        need(not po(u, u), "%s: %s before itself", msg, u)
    for u, v, w in itertools.permutations(nodes, 3) if len(nodes) < 7 else []:
        if po(u, v) and po(v, w):
            need(po(u, w), "%s: not transitive", msg)


def layers(c, msg):
    L = c.ordered_layers()
    flat = [v for l in L for v in l]
    need(sorted(map(str, flat)) == sorted(map(str, c.graph.nodes)) and len(flat) == len(c.graph), "%s: layers %s do not partition the nodes", msg, L)
    need(set(L[-1]) == set(c.output_nodes), "%s: last layer %s, outputs %s", msg, L[-1], c.output_nodes)
    pos = {v: i for i, l in enumerate(L) for v in l}
    need(all(len(l) for l in L), "%s: empty layer", msg)
    need(len(L) == c.depth + 1, "%s: depth %s, layers %s", msg, c.depth, L)
    for u, v in flow_pairs(c):
        need(pos[u] < pos[v], "%s: layers %s against %s before %s", msg, L, u, v)


def make(rng, n=None, **kw):
    g, i, o = flow_circuit(rng, n)
    rel = rng.random() < 0.5
    c = mp.MBQCircuit(g, input_nodes=i, output_nodes=o, relabel_indices=rel, **kw)
    return c, "nodes %s edges %s inputs %s outputs %s relabel %s" % (list(g.nodes), list(g.edges), i, o, rel)


def plain(rng, idx):
    c, d = make(rng)
    check(c, d)
    layers(c, d)


def setter(rng, idx):
    c, d = make(rng, rng.randint(2, 6))
    nodes = list(c.graph.nodes)
    order = list(nodes)
    if rng.random() < 0.6:
        # a random linear extension, possibly with one transposition
        order, left = [], set(nodes)
        while left:
            ready = [v for v in sorted(left) if not any(c.partial_order(u, v) for u in left)]
            v = rng.choice(ready)
            order.append(v)
            left.remove(v)
        if rng.random() < 0.5 and len(order) > 1:
            k = rng.randrange(len(order) - 1)
            order[k], order[k + 1] = order[k + 1], order[k]
    else:
        rng.shuffle(order)
    ok = not any(c.partial_order(order[j], order[i]) for i in range(len(order)) for j in range(i + 1, len(order)))
    # the order is decided by the flow too
    must = {(u, v) for u, v in flow_pairs(c)}
    contr = any((order[j], order[i]) in must for i in range(len(order)) for j in range(i + 1, len(order)))
    need(not (ok and contr), "%s: partial order misses a flow relation", d)
    old = list(c.measurement_order)
    given = list(order)
    if ok:
        c.measurement_order = given
        need(list(c.measurement_order) == order, "%s: assigned %s, stored %s", d, order, c.measurement_order)
    else:
        def f():
            c.measurement_order = given
        need(raises(f, ValueError), "%s: contradicting order %s accepted", d, order)
        need(list(c.measurement_order) == old, "%s: order changed by a rejected assignment", d)
    need(given == order, "argument modified")
    bad = rng.choice([order[:-1], order + order[:1], [order[0]] * len(order) if len(order) > 1 else []])

    def f2():
        c.measurement_order = bad

    need(raises(f2, ValueError), "%s: %s accepted although it is no permutation", d, bad)


def constructor(rng, idx):
    """an order given at construction is checked and relabelled"""
    g, i, o = flow_circuit(rng, rng.randint(2, 6))
    c0 = mp.MBQCircuit(g, input_nodes=i, output_nodes=o, relabel_indices=False)
    order = list(g.nodes)
    if rng.random() < 0.5:
        order = list(c0.measurement_order)
    else:
        rng.shuffle(order)
    ok = not any(c0.partial_order(order[b], order[a]) for a in range(len(order)) for b in range(a + 1, len(order)))
    rel = rng.random() < 0.5
    f = lambda: mp.MBQCircuit(g, input_nodes=i, output_nodes=o, measurement_order=list(order), relabel_indices=rel)
    if not ok:
        need(raises(f, ValueError), "contradicting order %s accepted", order)
        return
    c = f()
    m = dict(zip(sorted(g.nodes), range(len(g)))) if rel else {v: v for v in g.nodes}
    need(list(c.measurement_order) == [m[v] for v in order], "order %s became %s", order, c.measurement_order)


def controlled(rng, idx):
    c, d = make(rng, rng.randint(3, 7))
    meas = list(c.outputc)
    conds = []
    for _ in range(rng.randint(1, 3)):
        t = rng.choice(list(c.graph.nodes) if rng.random() < 0.3 else meas)
        srcs = rng.sample(meas, rng.randint(1, min(2, len(meas))))
        if t in srcs:
            continue
        e = None
        for s in srcs:
            if c[s] is None:
                continue
            x = c[s].outcome
            e = x if e is None else (e ^ x if rng.random() < 0.5 else e & x)
        rel = nx.DiGraph()
        rel.add_nodes_from(c.graph.nodes)
        rel.add_edges_from(flow_pairs(c))
        keep = [(s, x) for s, x in conds if x != t]
        rel.add_edges_from(keep)
        rel.add_edges_from((s, t) for s in srcs)
        good = nx.is_directed_acyclic_graph(rel)
        old = c[t]
        before = list(c.measurement_order)
        new = mp.ControlMent(e, 0.3, "XY", None, "XY")
        def f():
            c[t] = new
        if good:
            f()
            conds = keep + [(s, t) for s in srcs]
        else:
            need(raises(f, ValueError), "%s: condition of %s on %s is cyclic but accepted", d, t, srcs)
            need(list(c.measurement_order) == before and same_ment(c[t], old), "%s: circuit changed by a rejected measurement", d)
        check(c, d + " conditions %s" % conds, conds)
    if rng.random() < 0.5 and conds:
        t = rng.choice(conds)[1]
        c[t] = Ment("XY")
        check(c, d + " condition of %s removed" % t, [(s, x) for s, x in conds if x != t])


@case(weight=0.4)
def gflow_layers(rng, idx):
    """layers of circuits that only have a generalised flow"""
    n = rng.randint(2, 6)
    g = rgraph(rng, n)
    k = rng.randint(1, n - 1)
    i, o = rng.sample(list(g.nodes), k), rng.sample(list(g.nodes), k)
    if has_cflow(g, i, o):
        return
    c = mp.MBQCircuit(g, input_nodes=i, output_nodes=o)
    need(c.flow is None and c.partial_order is None and c.measurement_order is None, "no causal flow but flow %s", c.flow)
    if c.gflow.func is None:
        need(c.ordered_layers() is None, "layers without flow")
        return
    L = c.ordered_layers()
    flat = [v for l in L for v in l]
    need(sorted(flat) == sorted(g.nodes) and set(L[-1]) == set(o), "layers %s, outputs %s", L, o)
    need(list(c.gflow.measurement_order) == flat, "gflow order %s, layers %s", c.gflow.measurement_order, L)


CASES = cases(plain, setter, constructor, controlled, gflow_layers)
