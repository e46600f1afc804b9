from gen import *
from mentpy.utils import FlowSpace


def check(c, msg, **kw):
    n = len(c.graph)
    ins, outs = list(c.input_nodes), list(c.output_nodes)
    fs = FlowSpace(c, **kw)
    G = fs.total_graph_space
    es = list(itertools.combinations(range(n), 2))
    seen = {}
    for x, d in G.nodes(data=True):
        q = d["mbqc_circuit"]
        need(set(q.graph.nodes) == set(range(n)), "%s: vertex %s has nodes %s", msg, x, q.graph.nodes)
        need(list(q.input_nodes) == ins and list(q.output_nodes) == outs, "%s: vertex %s has inputs %s outputs %s", msg, x, q.input_nodes, q.output_nodes)
        key = frozenset(frozenset(e) for e in q.graph.edges)
        need(key not in seen, "%s: graph %s occurs twice", msg, sorted(map(sorted, key)))
        seen[key] = x
        ex = has_cflow(graph(range(n), [tuple(e) for e in key]), ins, outs)
        need(d["flow"] in (True, False) and bool(d["flow"]) == ex, "%s: graph %s is marked %s, flow exists: %s", msg, sorted(map(sorted, key)), d["flow"], ex)
    need(len(seen) == 2 ** len(es), "%s: %d vertices, expected %d", msg, len(seen), 2 ** len(es))
    w, wo = set(fs.flow_graph_space.nodes), set(fs.no_flow_graph_space.nodes)
    need(w == {x for x, d in G.nodes(data=True) if d["flow"]} and wo == set(G.nodes) - w, "%s: parts do not partition", msg)
    exp = set()
    for key, x in seen.items():
        for e in es:
            exp.add(frozenset((x, seen[key ^ {frozenset(e)}])))
    need({frozenset(e) for e in G.edges} == exp, "%s: adjacency", msg)
    for part, vs in ((fs.flow_graph_space, w), (fs.no_flow_graph_space, wo)):
        need({frozenset(e) for e in part.edges} == {e for e in exp if e <= vs}, "%s: adjacency within a part", msg)


ENUM = [(n, i, o) for n in (1, 2, 3) for k in range(0, n + 1) for i in itertools.permutations(range(n), k) for o in itertools.combinations(range(n), k)]


@case(count=len(ENUM), enumerated=True)
def small(rng, idx):
    """every input list and output set on at most 3 nodes"""
    n, i, o = ENUM[(idx * 31) % len(ENUM)]
    c = mp.MBQCircuit(rgraph(rng, n), input_nodes=list(i), output_nodes=list(o))
    check(c, "%d nodes, inputs %s outputs %s" % (n, i, o))


def four(rng, idx):
    k = rng.randint(1, 3)
    i, o = rng.sample(range(4), k), rng.sample(range(4), k)
    check(mp.MBQCircuit(rgraph(rng, 4), input_nodes=i, output_nodes=o), "4 nodes, inputs %s outputs %s" % (i, o))


@case(count=1)
def five(rng, idx):
    k = rng.randint(1, 2)
    i, o = rng.sample(range(5), k), rng.sample(range(5), k)
    check(mp.MBQCircuit(rgraph(rng, 5), input_nodes=i, output_nodes=o), "5 nodes, inputs %s outputs %s" % (i, o))


@case(count=6)
def too_big(rng, idx):
    g = rgraph(rng, rng.randint(8, 10))
    need(raises(lambda: FlowSpace(mp.MBQCircuit(g, input_nodes=[0], output_nodes=[1])), UserWarning), "large circuit accepted")


CASES = cases(small, four, five, too_big)
