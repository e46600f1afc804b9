from gen import *
from mentpy.utils import lc_equivalence as E


def adj(g, nodes):
    return np.array([[1 if g.has_edge(u, v) else 0 for v in nodes] for u in nodes], dtype=int).reshape(len(nodes), len(nodes))


def span(rows):
    """reduced row echelon basis over GF(2)"""
    out = []
    for r in rows:
        r = int("".join(map(str, r)), 2) if len(r) else 0
        for b in out:
            r = min(r, r ^ b)
        if r:
            out = [min(b, b ^ r) for b in out] + [r]
            out.sort(reverse=True)
    return out


def genuine(g1, g2, nodes, tens, glob, msg):
    n = len(nodes)
    A, B = adj(g1, nodes), adj(g2, nodes)
    I = np.eye(n, dtype=int)
    S1, S2 = np.hstack([A, I]), np.hstack([B, I])  # (z | x)
    need(isinstance(tens, (list, tuple)) and len(tens) == n, "%s: tensor form %s", msg, tens)
    Q = np.zeros((2 * n, 2 * n), dtype=int)
    for k, t in enumerate(tens):
        t = np.asarray(t)
        need(t.shape == (2, 2) and set(t.reshape(-1).tolist()) <= {0, 1}, "%s: Clifford %s", msg, t)
        need((t[0, 0] * t[1, 1] + t[0, 1] * t[1, 0]) % 2 == 1, "%s: Clifford %s of qubit %s not invertible", msg, t.tolist(), nodes[k])
        Q[k, k], Q[k, k + n], Q[k + n, k], Q[k + n, k + n] = t[0, 0], t[0, 1], t[1, 0], t[1, 1]
    need(np.asarray(glob).shape == (2 * n, 2 * n) and (np.asarray(glob) == Q).all(), "%s: global form\n%s\nbut tensor form\n%s", msg, glob, Q)
    need(span((S1 @ Q.T % 2).tolist()) == span(S2.tolist()), "%s: Cliffords %s do not map the stabilisers", msg, [np.asarray(t).tolist() for t in tens])


def complement(g, v):
    h = g.copy()
    for a, b in itertools.combinations(list(g.neighbors(v)), 2):
        if h.has_edge(a, b):
            h.remove_edge(a, b)
        else:
            h.add_edge(a, b)
    return h


def decide(g1, g2, msg, must=None):
    nodes = list(g1.nodes)
    s1, s2 = (list(g1.nodes), sorted(map(sorted, g1.edges))), (list(g2.nodes), sorted(map(sorted, g2.edges)))
    r = E.are_lc_equivalent(g1, g2)
    q = E.are_lc_equivalent(g1, g2, clifford_form="global")
    t = E.are_lc_equivalent(g1, g2, clifford_form="tensor")
    need((list(g1.nodes), sorted(map(sorted, g1.edges))) == s1 and (list(g2.nodes), sorted(map(sorted, g2.edges))) == s2, "%s: arguments modified", msg)
    need(bool(r[0]) == bool(q[0]) == bool(t[0]), "%s: answer depends on the output form", msg)
    if r[0]:
        genuine(g1, g2, nodes, t[1], q[1], msg)
        genuine(g1, g2, nodes, r[1], q[1], msg)
    else:
        need(r[1] is None and q[1] is None, "%s: Clifford given although not equivalent", msg)
        need(not must, "%s: equivalent graphs reported as not equivalent", msg)
    return bool(r[0])


def desc(g, h):
    return "nodes %s, edges %s and %s" % (list(g.nodes), sorted(map(sorted, g.edges)), sorted(map(sorted, h.edges)))


def shuffled(rng, g):
    """the same graph with another insertion order"""
    n, e = list(g.nodes), [tuple(x) for x in g.edges]
    rng.shuffle(n)
    rng.shuffle(e)
    return graph(n, e)


def labels(rng, n):
    return rlabels(rng, n, rng.choice(["range", "shuffled", "sparse", "neg", "str"]))


def orbit(rng, idx):
    """any number of local complementations; connected graphs must be recognised"""
    n = rng.randint(1, 7)
    g = rgraph(rng, n, p=rng.choice([0.3, 0.5, 0.7]), nodes=labels(rng, n))
    h = g
    for _ in range(rng.randint(0, 5)):
        h = complement(h, rng.choice(list(h.nodes)))
    if rng.random() < 0.5:
        h = shuffled(rng, h)
    decide(g, h, desc(g, h), must=nx.is_connected(g))


def single(rng, idx):
    """one local complementation, or the graph itself, also for larger graphs"""
    n = rng.randint(2, 9)
    g = rgraph(rng, n, nodes=labels(rng, n))
    h = g if rng.random() < 0.4 else complement(g, rng.choice(list(g.nodes)))
    decide(g, h, desc(g, h), must=nx.is_connected(g) or h is g)


ORB = {}


def cls(n):
    """partition of the labelled graphs with n nodes into orbits of local complementation"""
    if n in ORB:
        return ORB[n]
    es = list(itertools.combinations(range(n), 2))
    ix = {e: k for k, e in enumerate(es)}
    rep = {}
    for m in range(2 ** len(es)):
        if m in rep:
            continue
        rep[m] = m
        work = [m]
        while work:
            x = work.pop()
            for v in range(n):
                nb = [w for w in range(n) if w != v and x >> ix[tuple(sorted((v, w)))] & 1]
                y = x
                for e in itertools.combinations(nb, 2):
                    y ^= 1 << ix[e]
                if y not in rep:
                    rep[y] = m
                    work.append(y)
    ORB[n] = (es, rep)
    return ORB[n]


def exact(rng, idx):
    """against the orbits of local complementation (equal to LC equivalence)"""
    n = rng.choice([2, 3, 4, 4, 5, 5])
    es, rep = cls(n)
    a = rng.randrange(2 ** len(es))
    if rng.random() < 0.5:
        b = rng.randrange(2 ** len(es))
    else:
        b = a ^ (1 << rng.randrange(len(es)))
    mk = lambda m: graph(range(n), [e for k, e in enumerate(es) if m >> k & 1])
    g, h = mk(a), mk(b)
    got = decide(g, h, desc(g, h), must=rep[a] == rep[b] and nx.is_connected(g))
    need(not got or rep[a] == rep[b], "%s: reported equivalent", desc(g, h))


def circuits(rng, idx):
    g, i, o = flow_circuit(rng, rng.randint(2, 6))
    c = mp.MBQCircuit(g, input_nodes=i, output_nodes=o)
    r = E.are_lc_equivalent(c, c)
    q = E.are_lc_equivalent(c, c, clifford_form="global")
    need(r[0] and q[0], "circuit with edges %s not equivalent to itself", list(c.graph.edges))
    genuine(c.graph, c.graph, list(c.graph.nodes), r[1], q[1], "circuit")
    h = mp.MBQCircuit(complement(c.graph, rng.choice(list(c.graph.nodes))), input_nodes=list(c.input_nodes), output_nodes=list(c.output_nodes))
    r = E.are_lc_equivalent(c, h)
    if nx.is_connected(c.graph):
        need(r[0], "local complementation of a circuit not recognised")
    if r[0]:
        genuine(c.graph, h.graph, list(c.graph.nodes), r[1], E.are_lc_equivalent(c, h, clifford_form="global")[1], "circuits")


@case(weight=0.3)
def sizes(rng, idx):
    a, b = rng.sample(range(0, 7), 2)
    g, h = rgraph(rng, a), rgraph(rng, b)
    r = E.are_lc_equivalent(g, h)
    need(not r[0] and r[1] is None, "graphs with %d and %d nodes reported equivalent", a, b)


@case(weight=0.4)
def converters(rng, idx):
    n = rng.randint(1, 6)
    v = np.array([rng.randint(0, 1) for _ in range(4 * n)])
    T = E.clifford_vec_to_tensors(v)
    G = np.asarray(E.clifford_vec_to_global(v))
    exp = np.zeros((2 * n, 2 * n), dtype=int)
    need(len(T) == n, "number of Cliffords")
    for k in range(n):
        need((np.asarray(T[k]) == [[v[k], v[n + k]], [v[2 * n + k], v[3 * n + k]]]).all(), "tensor form of %s", v)
        exp[k, k], exp[k, n + k], exp[n + k, k], exp[n + k, n + k] = v[k], v[n + k], v[2 * n + k], v[3 * n + k]
    need((G == exp).all(), "global form of %s", v)


CASES = cases(orbit, single, exact, circuits, sizes, converters)
