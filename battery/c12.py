from gen import *
from c09 import arr
from mentpy.utils import lie_algebra as L


def adjacency(c):
    nodes = list(c.graph.nodes)
    return nodes, np.array([[1 if c.graph.has_edge(u, v) else 0 for v in nodes] for u in nodes], dtype=int).reshape(len(nodes), len(nodes))


def solutions(c, j):
    """every admissible set of stabilisers for j (brute force)"""
    nodes, A = adjacency(c)
    after = [i for i, k in enumerate(nodes) if c.partial_order(j, k) and k not in c.input_nodes]
    meas = [i for i, k in enumerate(nodes) if k not in c.output_nodes]
    jj = nodes.index(j)
    for bits in itertools.product((0, 1), repeat=len(after)):
        s = np.zeros(len(nodes), dtype=int)
        s[after] = bits
        z = A @ s % 2
        if all(z[i] == (1 if i == jj else 0) for i in meas):
            yield s, z


def circuit(rng, n=None):
    g, i, o = flow_circuit(rng, n or rng.randint(2, 7))
    rel = rng.random() < 0.6
    c = mp.MBQCircuit(g, input_nodes=i, output_nodes=o, relabel_indices=rel)
    return c, "nodes %s edges %s inputs %s outputs %s relabel %s" % (list(g.nodes), list(g.edges), i, o, rel)


def check(c, d):
    nodes, A = adjacency(c)
    n = len(nodes)
    meas = [v for v in nodes if v not in c.output_nodes]
    ops = L.calculate_complete_gens_lie_algebra(c)
    T = np.asarray(arr(ops.matrix))
    need(T.shape == (len(meas), 2 * n), "%s: %s operators for %s measured nodes", d, T.shape, len(meas))
    for row, j in zip(T, meas):
        s, z = row[:n], row[n:]
        need((A @ s % 2 == z).all(), "%s: operator of %s is no product of stabilisers", d, j)
        for k, v in enumerate(nodes):
            if s[k]:
                need(c.partial_order(j, v) and v not in c.input_nodes, "%s: operator of %s uses the stabiliser of %s", d, j, v)
        need([v for k, v in enumerate(nodes) if z[k] and v in meas] == [j], "%s: operator of %s acts with Z on %s", d, j, [v for k, v in enumerate(nodes) if z[k]])
    return T


def gens(c, T, d):
    nodes, _ = adjacency(c)
    n = len(nodes)
    idx = [nodes.index(v) for v in c.output_nodes]
    exp = []
    for row in T:
        r = tuple(int(x) for x in list(row[idx]) + list(row[[n + k for k in idx]]))
        if r not in exp:
            exp.append(r)
    got = [tuple(int(x) for x in r) for r in np.asarray(arr(L.calculate_gens_lie_algebra(c).matrix))]
    need(len(got) == len(set(got)) and set(got) == set(exp), "%s: generators %s, expected %s", d, got, exp)
    return set(got)


def ops(rng, idx):
    c, d = circuit(rng)
    if len(c.outputc) == 0:
        return
    gens(c, check(c, d), d)


@case(weight=0.5)
def error(rng, idx):
    """an error exactly when no admissible product exists"""
    c, d = circuit(rng, rng.randint(2, 6))
    f = c.flow
    # a coarser partial order can make the products impossible
    nodes = list(c.graph.nodes)
    keep = {(u, v) for u in nodes for v in nodes if c.partial_order(u, v)}
    if rng.random() < 0.7 and keep:
        keep -= set(rng.sample(sorted(keep, key=str), rng.randint(1, max(1, len(keep) // 3))))
    c._partial_order = lambda u, v: (u, v) in keep
    d += " order %s" % sorted(keep, key=str)
    ok = all(any(True for _ in solutions(c, j)) for j in c.outputc)
    if ok:
        check(c, d)
    else:
        need(raises(lambda: L.calculate_complete_gens_lie_algebra(c), ValueError), "%s: no error although no product exists", d)


@case(weight=0.7)
def labels(rng, idx):
    """the same circuit under other names and insertion orders"""
    n = rng.randint(2, 6)
    g, i, o = flow_circuit(rng, n, labels=list(range(n)))
    out = None
    for k in range(3):
        f = dict(zip(range(n), rlabels(rng, n)))
        nodes = [f[v] for v in g.nodes]
        es = [(f[a], f[b]) for a, b in g.edges]
        if k:
            rng.shuffle(nodes)
            rng.shuffle(es)
        rel = rng.random() < 0.5
        c = mp.MBQCircuit(graph(nodes, es), input_nodes=[f[v] for v in i], output_nodes=[f[v] for v in o], relabel_indices=rel)
        if not c.outputc:
            return
        d = "nodes %s edges %s inputs %s outputs %s relabel %s" % (nodes, es, [f[v] for v in i], [f[v] for v in o], rel)
        s = gens(c, check(c, d), d)
        need(out is None or out == s, "%s: generators %s, under other labels %s", d, s, out)
        out = s


def algebra(rng, idx):
    c, d = circuit(rng, rng.randint(2, 5))
    if not c.outputc:
        return
    full = L.calculate_lie_algebra(c)
    G = [tuple(r) for r in np.asarray(arr(L.calculate_gens_lie_algebra(c).matrix))]
    S = {tuple(r) for r in np.asarray(arr(full.matrix))}
    need(set(G) <= S, "%s: generators missing from the algebra", d)


CASES = cases(ops, error, labels, case(weight=0.2)(algebra))
