from gen import *
import copy


def operand(rng, n=None, k=None):
    """a circuit with default relabelled indices, with flow (else merge would only warn)"""
    g, i, o = flow_circuit(rng, n or rng.randint((k or 1) + 1, 6), k)
    if rng.random() < 0.3:
        # permute inputs and outputs
        p = list(range(len(i)))
        rng.shuffle(p)
        i, o = [i[a] for a in p], list(o)
    if rng.random() < 0.2:
        o = rng.sample(o, len(o))
    meas = {v: rment(rng) for v in g.nodes if v not in o and rng.random() < 0.8}
    for v in o:
        if rng.random() < 0.15:
            meas[v] = rment(rng)
    return mp.MBQCircuit(g, input_nodes=i, output_nodes=o, measurements=meas)


def single(rng):
    """wires of one node: the node is input and output"""
    k = rng.randint(1, 2)
    n = k + rng.choice([0, 0, 2])
    g = graph(range(n), [(k, k + 1)] if n > k else [])
    ins = list(range(k)) + ([k] if n > k else [])
    outs = list(range(k)) + ([k + 1] if n > k else [])
    meas = {v: rment(rng) for v in range(n) if rng.random() < 0.4}
    return mp.MBQCircuit(g, input_nodes=ins, output_nodes=outs, measurements=meas)


def anyop(rng, k=None):
    if k is None and rng.random() < 0.15:
        return single(rng)
    return operand(rng, k=k)


def snap(c):
    return (list(c.graph.nodes), sorted(tuple(sorted(e)) for e in c.graph.edges), list(c.input_nodes), list(c.output_nodes),
            {v: copy.deepcopy(m) for v, m in c.measurements.items()}, list(c.trainable_nodes))


def same(c, s, msg):
    t = snap(c)
    need(t[:4] == s[:4] and t[5] == s[5], "%s: operand changed: %s, was %s", msg, t, s)
    need(set(t[4]) == set(s[4]) and all(same_ment(t[4][v], s[4][v]) for v in s[4]), "%s: measurements of an operand changed", msg)


def expect(a, b, pairs, mode):
    """nodes as (side, node); identified nodes are called by their name in b"""
    ren = {("a", i): ("b", j) for i, j in pairs}
    nm = lambda x: ren.get(x, x)
    nodes = [("a", v) for v in a[0] if ("a", v) not in ren] + [("b", v) for v in b[0]]
    edges = {frozenset((nm(("a", u)), nm(("a", v)))) for u, v in a[1]} | {frozenset((("b", u), ("b", v))) for u, v in b[1]}
    meas = {("a", v): m for v, m in a[4].items() if ("a", v) not in ren}
    meas.update({("b", v): m for v, m in b[4].items()})
    if mode == "v":
        ins = [("a", v) for v in a[2]] + [("b", v) for v in b[2]]
        outs = [("a", v) for v in a[3]] + [("b", v) for v in b[3]]
    elif mode == "h":
        ins = [nm(("a", v)) for v in a[2]]
        outs = [("b", v) for v in b[3]]
    else:
        used = [j for i, j in pairs]
        ins = [nm(("a", v)) for v in a[2]] + [("b", v) for v in b[2] if v not in used]
        d = dict(pairs)
        outs, taken = [], set()
        for v in a[3]:
            if v in d:
                k = b[2].index(d[v])
                taken.add(k)
                outs.append(("b", b[3][k]))
            else:
                outs.append(("a", v))
        outs += [("b", v) for k, v in enumerate(b[3]) if k not in taken]
    return nodes, edges, meas, ins, outs


def compare(c, exp, msg):
    nodes, edges, meas, ins, outs = exp
    nodes = sorted(nodes)  # first circuit in order, then the second: the relabelling keeps this order
    need(len(c.graph) == len(nodes), "%s: %s nodes, expected %s", msg, len(c.graph), len(nodes))
    f = dict(zip(nodes, range(len(nodes))))
    need(set(c.graph.nodes) == set(range(len(nodes))), "%s: nodes %s", msg, c.graph.nodes)
    got = {frozenset(e) for e in c.graph.edges}
    need(got == {frozenset(f[x] for x in e) for e in edges}, "%s: edges %s, expected %s", msg, sorted(map(sorted, got)), sorted(sorted(f[x] for x in e) for e in edges))
    need(list(c.input_nodes) == [f[x] for x in ins], "%s: inputs %s, expected %s", msg, c.input_nodes, [f[x] for x in ins])
    need(list(c.output_nodes) == [f[x] for x in outs], "%s: outputs %s, expected %s", msg, c.output_nodes, [f[x] for x in outs])
    for x in nodes:
        need(same_ment(c[f[x]], meas[x]), "%s: node %s has %s, expected %s", msg, f[x], c[f[x]], meas[x])
        if c[f[x]] is not None:
            need(c[f[x]].node_id == f[x], "%s: node id", msg)


def desc(mode, a, b, pairs):
    return "%s of %s and %s along %s" % (mode, a[:4], b[:4], pairs)


def hst(rng, idx):
    k = rng.randint(1, 3)
    a, b = anyop(rng, k), anyop(rng, k)
    if len(a.output_nodes) != len(b.input_nodes):
        need(raises(lambda: mp.hstack([a, b]), ValueError), "different widths accepted")
        return
    s, t = snap(a), snap(b)
    pairs = list(zip(s[3], t[2]))
    c = mp.hstack(rng.choice([[a, b], (a, b)]))
    compare(c, expect(s, t, pairs, "h"), desc("hstack", s, t, pairs))
    same(a, s, "hstack")
    same(b, t, "hstack")


def hst_single(rng, idx):
    """operands in which nodes are input and output at once"""
    a = single(rng)
    b = operand(rng, k=len(a.output_nodes)) if rng.random() < 0.5 else single(rng)
    if rng.random() < 0.5:
        a, b = b, a
    s, t = snap(a), snap(b)
    if len(s[3]) != len(t[2]):
        need(raises(lambda: mp.hstack([a, b]), ValueError), "different widths accepted")
        return
    pairs = list(zip(s[3], t[2]))
    c = mp.hstack([a, b])
    compare(c, expect(s, t, pairs, "h"), desc("hstack", s, t, pairs))
    same(a, s, "hstack")
    same(b, t, "hstack")


def vst(rng, idx):
    a, b = anyop(rng), anyop(rng)
    s, t = snap(a), snap(b)
    c = mp.vstack([a, b])
    compare(c, expect(s, t, [], "v"), desc("vstack", s, t, []))
    same(a, s, "vstack")
    same(b, t, "vstack")


def mrg(rng, idx):
    a, b = anyop(rng), anyop(rng)
    s, t = snap(a), snap(b)
    k = rng.randint(0, min(len(s[3]), len(t[2])))
    pairs = list(zip(rng.sample(s[3], k), rng.sample(t[2], k)))
    p0 = list(pairs)
    c = mp.merge(a, b, pairs)
    compare(c, expect(s, t, p0, "m"), desc("merge", s, t, p0))
    need(pairs == p0, "list of wires modified")
    same(a, s, "merge")
    same(b, t, "merge")
    i = rng.choice([v for v in s[0] if v not in s[3]] or [10**6])
    need(raises(lambda: mp.merge(a, b, [(i, t[2][0])]), ValueError), "merging at %s, no output, accepted", i)
    j = rng.choice([v for v in t[0] if v not in t[2]] or [10**6])
    need(raises(lambda: mp.merge(a, b, [(s[3][0], j)]), ValueError), "merging at %s, no input, accepted", j)


def many(rng, idx):
    """stacks of several circuits are folded from the left"""
    if rng.random() < 0.5:
        k = rng.randint(1, 2)
        cs = [operand(rng, k=k) for _ in range(3)]
        got = mp.hstack(cs)
        ref = mp.hstack([mp.hstack(cs[:2]), cs[2]])
    else:
        cs = [operand(rng) for _ in range(3)]
        got = mp.vstack(cs)
        ref = mp.vstack([mp.vstack(cs[:2]), cs[2]])
    x, y = snap(got), snap(ref)
    need(x[:4] == y[:4] and all(same_ment(x[4][v], y[4][v]) for v in x[4]), "stack of three differs from repeated stacking")


@case(count=30)
def trivial(rng, idx):
    c = operand(rng)
    for f in (mp.hstack, mp.vstack):
        need(f([c]) is c or snap(f([c]))[:4] == snap(c)[:4], "stack of one circuit")
        need(raises(lambda: f([]), ValueError), "empty stack accepted")


CASES = cases(hst, hst_single, vst, mrg, many, trivial)
