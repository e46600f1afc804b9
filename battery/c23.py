from gen import *
from c09 import arr


def stab_rows(g):
    nodes = list(g.nodes)
    out = []
    for v in nodes:
        out.append("".join("X" if w == v else ("Z" if g.has_edge(v, w) else "I") for w in nodes))
    return out


def check(g, msg):
    nodes = list(g.nodes)
    edges = sorted(map(sorted, ([str(x) for x in e] for e in g.edges)))
    s = g.stabilizers()
    exp = stab_rows(g)
    need(s.txt.split("\n") == exp, "%s: stabilisers of %s with edges %s are\n%s\nexpected %s", msg, nodes, list(g.edges), s.txt, exp)
    m = arr(s.matrix)
    n = len(nodes)
    need(m.shape == (n, 2 * n), "tableau shape")
    x, z = m[:, :n], m[:, n:]
    need((x == np.eye(n)).all(), "%s: X part", msg)
    A = np.array([[1 if g.has_edge(a, b) else 0 for b in nodes] for a in nodes])
    need((z == A).all(), "%s: Z part is not the adjacency matrix", msg)
    need(not ((x @ z.T + z @ x.T) % 2).any() and not arr(s.symplectic_prod(s)).any(), "%s: stabilisers anticommute", msg)
    need(dict(g.index_mapping()) == {v: i for i, v in enumerate(nodes)}, "%s: index mapping %s for nodes %s", msg, g.index_mapping(), nodes)
    need(nodes == list(g.nodes) and edges == sorted(map(sorted, ([str(x) for x in e] for e in g.edges))), "graph modified")


def rnd(rng, idx):
    n = rng.randint(1, 9)
    nodes = rlabels(rng, n)
    if rng.random() < 0.6:
        rng.shuffle(nodes)
    g = rgraph(rng, n, nodes=nodes)
    check(g, "random graph")
    if rng.random() < 0.5 and n > 1:
        a, b = rng.sample(nodes, 2)
        if g.has_edge(a, b):
            g.remove_edge(a, b)
        else:
            g.add_edge(a, b)
        check(g, "after changing an edge")
    if rng.random() < 0.5 and n > 2:
        g.remove_node(rng.choice(nodes))
        g.add_node("zz")
        check(g, "after removing a node")


def by_edges(rng, idx):
    """node order given by the order in which edges were added"""
    n = rng.randint(2, 8)
    nodes = rlabels(rng, n)
    g = mp.GraphState()
    es = list(itertools.combinations(nodes, 2))
    rng.shuffle(es)
    g.add_edges_from([e if rng.random() < 0.5 else e[::-1] for e in es[: rng.randint(1, len(es))]])
    check(g, "graph from edges")
    check(mp.GraphState(list(g.edges)), "graph from an edge list")


@case(weight=0.5)
def of_circuit(rng, idx):
    g, i, o = flow_circuit(rng)
    c = mp.MBQCircuit(g, input_nodes=i, output_nodes=o, relabel_indices=rng.random() < 0.5)
    check(c.graph, "graph of a circuit")
    need(c.stabilizers().txt.split("\n") == stab_rows(c.graph), "stabilisers of the circuit")
    need(dict(c.index_mapping()) == {v: i for i, v in enumerate(c.graph.nodes)}, "index mapping of the circuit")


CASES = cases(rnd, by_edges, of_circuit)
