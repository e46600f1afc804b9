from gen import *
import warnings as W
from mentpy.mbqc.flow import find_gflow, Flow


def odd(g, s):
    return {v for v in g.nodes if sum(g.has_edge(v, w) for w in s) % 2}


def solvable_u(g, ins, done, rest, u):
    """is there K within done minus inputs with odd neighbourhood among rest exactly {u}?"""
    cand = [w for w in g.nodes if w in done and w not in ins]
    rows = []
    rl = list(rest)
    for i, v in enumerate(rl):
        rows.append((sum(1 << j for j, w in enumerate(cand) if g.has_edge(v, w)), int(v == u)))
    vecs = [r[0] << 1 | r[1] for r in rows]
    piv = []
    for r in vecs:
        for p in piv:
            r = min(r, r ^ p)
        if r:
            piv.append(r)
            piv.sort(reverse=True)
    return 1 not in piv


def layers_ref(g, ins, outs):
    l = {v: 0 for v in outs}
    done = set(outs)
    k = 1
    while True:
        rest = [v for v in g.nodes if v not in done]
        new = [u for u in rest if solvable_u(g, ins, done, rest, u)]
        if not new:
            return l, set(rest)
        for u in new:
            l[u] = k
        done |= set(new)
        k += 1


def check(g, ins, outs, msg):
    n0, e0, i0, o0 = list(g.nodes), list(g.edges), list(ins), list(outs)
    with W.catch_warnings():
        W.simplefilter("ignore")
        fn, po, depth, layers = find_gflow(g, ins, outs)
    need(list(g.nodes) == n0 and list(g.edges) == e0 and list(ins) == i0 and list(outs) == o0, "arguments modified")
    desc = "%s: nodes %s edges %s inputs %s outputs %s" % (msg, n0, e0, ins, outs)
    ref, left = layers_ref(g, ins, outs)
    if fn is None:
        need(left, "%s: failure reported, but a generalised flow exists (layers %s)", desc, ref)
        need(po is None and depth is None and layers is None, "%s: partial result", desc)
        return
    need(not left, "%s: success reported, but nodes %s have no correction set", desc, left)
    need(dict(layers) == ref, "%s: layers %s, expected %s", desc, layers, ref)
    need(depth == max(ref.values()), "%s: depth %s", desc, depth)
    for u in g.nodes:
        for v in g.nodes:
            need(bool(po(u, v)) == (ref[u] > ref[v]), "%s: order of %s, %s", desc, u, v)
    small = all(isinstance(v, int) and 0 <= v < 8 for v in g.nodes)
    per = {}
    for u in g.nodes:
        if u in outs:
            continue
        sol = np.array(fn(u)).reshape(-1).astype(int)
        done = {v for v in g.nodes if ref[v] < ref[u]}
        cand = {w for w in done if w not in ins}
        need(len(sol) == len(cand) and set(sol.tolist()) <= {0, 1}, "%s: correction vector of %s has %d entries for %d nodes", desc, u, len(sol), len(cand))
        rest = [v for v in g.nodes if v not in done]
        per[u] = (sol, cand, rest)

    def works(u, order):
        sol, cand, rest = per[u]
        return odd(g, {w for b, w in zip(sol, order) if b}) & set(rest) == {u}

    # positions are read in one order of the candidates, the same for all nodes: sorted (the
    # iteration order of a set of small integers) or the order of the graph
    schemes = [lambda c: sorted(c), lambda c: [v for v in g.nodes if v in c]]
    if any(all(works(u, s(per[u][1])) for u in per) for s in schemes):
        return
    need(not small, "%s: vectors %s are not correction sets", desc, {u: p[0] for u, p in per.items()})
    for u in per:
        if len(per[u][1]) <= 6:
            need(any(works(u, o) for o in itertools.permutations(per[u][1])), "%s: vector %s of node %s is not a correction set over %s", desc, per[u][0], u, per[u][1])


def wired(rng, idx):
    n = rng.randint(2, 7)
    g, i, o = wires(rng, n, rng.randint(1, min(4, n - 1)), labels=rlabels(rng, n, "range"))
    check(g, i, o, "wires")


def arbitrary(rng, idx):
    n = rng.randint(1, 7)
    g = rgraph(rng, n, nodes=rlabels(rng, n, rng.choice(["range", "shuffled", "sparse", "str"])))
    k = rng.randint(1, n)
    kk = rng.randint(0, n)
    check(g, rng.sample(list(g.nodes), kk), rng.sample(list(g.nodes), k), "random graph")


def equal_sizes(rng, idx):
    n = rng.randint(4, 8)
    g = rgraph(rng, n, p=rng.choice([0.3, 0.5]))
    k = rng.randint(2, n // 2)
    nodes = list(g.nodes)
    rng.shuffle(nodes)
    i, o = nodes[:k], nodes[-k:]
    check(g, i, o, "random graph")
    with W.catch_warnings():
        W.simplefilter("ignore")
        fl = Flow(g, i, o)
    if has_cflow_fast(g, i, o):
        need(fl.func is not None, "Flow without causal flow result")
    else:
        ref, left = layers_ref(g, i, o)
        need((fl.func is None) == bool(left), "Flow() reports %s", fl.func)
        if not left:
            need(dict(fl.layers_dict) == ref, "layers of Flow()")


def has_cflow_fast(g, i, o):
    from mentpy.mbqc.flow import find_cflow

    return find_cflow(g, i, o)[0] is not None


CASES = cases(wired, arbitrary, equal_sizes)
