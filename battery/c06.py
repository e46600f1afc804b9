from gen import *


def check(c, mod, g_edges, nodes, ins, outs, msg):
    """mod: node -> expected measurement (None for an unmeasured node)"""
    need(list(c.input_nodes) == list(ins) and list(c.output_nodes) == list(outs), "%s: inputs %s outputs %s", msg, c.input_nodes, c.output_nodes)
    need(set(c.graph.nodes) == set(nodes), "%s: nodes %s", msg, c.graph.nodes)
    need({frozenset(e) for e in c.graph.edges} == {frozenset(e) for e in g_edges}, "%s: edges %s", msg, c.graph.edges)
    need(set(c.measurements) == set(nodes), "%s: entries %s", msg, list(c.measurements))
    for v in nodes:
        need(same_ment(c[v], mod[v]), "%s: measurement of %s is %s, expected %s", msg, v, c[v], mod[v])
        need(c.measurements[v] is c[v] or same_ment(c.measurements[v], c[v]), "%s: measurements[%s]", msg, v)
        if mod[v] is not None:
            need(c[v].node_id == v, "%s: measurement of %s thinks it is on %s", msg, v, c[v].node_id)
    train = {v for v in nodes if mod[v] is not None and mod[v].is_trainable()}
    ctrl = {v for v in nodes if isinstance(mod[v], mp.ControlMent)}
    for nm, got, exp in (("trainable", c.trainable_nodes, train), ("controlled", c.controlled_nodes, ctrl)):
        need(len(got) == len(set(got)) and set(got) == exp, "%s: %s nodes %s, expected %s", msg, nm, got, exp)
    need(list(c.quantum_output_nodes) == [v for v in outs if mod[v] is None], "%s: quantum outputs %s", msg, c.quantum_output_nodes)
    need(list(c.classical_output_nodes) == [v for v in outs if mod[v] is not None], "%s: classical outputs %s", msg, c.classical_output_nodes)
    need(set(c.planes) == set(nodes), "%s: planes %s", msg, c.planes)
    for v in nodes:
        p = c.planes[v]
        if mod[v] is None:
            need(p == "", "%s: plane of %s is %s", msg, v, p)
        elif isinstance(mod[v], mp.ControlMent):
            for o in (0, 1):
                pass
        else:
            need(p == mod[v].plane, "%s: plane of %s is %s, expected %s", msg, v, p, mod[v].plane)


def start(rng, n=None):
    n = n or rng.randint(2, 6)
    g, i, o = flow_circuit(rng, n) if rng.random() < 0.75 else wires(rng, n, rng.randint(1, min(3, n - 1)))
    rel = rng.random() < 0.5
    default = rng.choice([None, Ment("XY"), Ment("X"), Ment(0.4, "XY")])
    meas = None
    if rng.random() < 0.7:
        meas = {}
        vs = list(g.nodes)
        rng.shuffle(vs)
        for v in vs:
            if rng.random() < 0.6:
                meas[v] = rment(rng) if rng.random() < 0.85 else None
    kw = {} if default is None else {"default_measurement": default}
    default = default or Ment("XY")
    g0 = (list(g.nodes), [tuple(e) for e in g.edges])
    m0 = None if meas is None else [(v, m, m and (m.plane, m.angle, m.node_id)) for v, m in meas.items()]
    i0, o0 = list(i), list(o)
    c = mp.MBQCircuit(g, input_nodes=i, output_nodes=o, measurements=meas, relabel_indices=rel, **kw)
    msg = "nodes %s edges %s inputs %s outputs %s relabel %s" % (g0[0], g0[1], i0, o0, rel)
    if rel:
        # adding edges to the circuit must not touch the caller's objects either
        need((list(g.nodes), [tuple(e) for e in g.edges]) == g0, "%s: caller's graph modified", msg)
    need(i == i0 and o == o0, "%s: caller's lists modified", msg)
    caller = (g, g0, meas, m0)
    f = dict(zip(sorted(g.nodes), range(n))) if rel else {v: v for v in g.nodes}
    full = {}
    for v in g.nodes:
        full[f[v]] = meas[v] if meas is not None and v in meas else (None if v in o else default)
    # expectations are copies so that later changes of stored objects show up
    nodes = [f[v] for v in g.nodes]
    es = [(f[a], f[b]) for a, b in g.edges]
    import copy

    full = {v: copy.deepcopy(m) for v, m in full.items()}
    return c, full, es, nodes, [f[v] for v in i], [f[v] for v in o], msg, caller, rel, default


def unchanged_caller(caller, rel, msg):
    g, g0, meas, m0 = caller
    if rel:
        need((list(g.nodes), [tuple(e) for e in g.edges]) == g0, "%s: caller's graph modified", msg)
    if meas is not None:
        now = [(v, m, m and (m.plane, m.angle, m.node_id)) for v, m in meas.items()]
        need(len(now) == len(m0) and all(a[0] == b[0] and a[1] is b[1] and a[2] == b[2] for a, b in zip(now, m0)), "%s: caller's measurements modified: %s, was %s", msg, now, m0)


def history(rng, idx):
    import copy

    c, mod, es, nodes, ins, outs, msg, caller, rel, default = start(rng)
    hist = []
    check(c, mod, es, nodes, ins, outs, msg + " (new)")
    unchanged_caller(caller, rel, msg)
    for step in range(rng.randint(1, 7)):
        op = rng.choice(["set", "set", "set", "del", "ctrl", "all", "edge", "edges", "badset", "badall", "copy", "same"])
        v = rng.choice(nodes)
        if op == "set":
            m = rment(rng)
            ref = (m.plane, m.angle, m.node_id)
            hist.append((op, v, ref))
            c[v] = m
            need((m.plane, m.angle, m.node_id) == ref, "%s %s: caller's measurement modified", msg, hist)
            mod[v] = copy.deepcopy(m)
        elif op == "same":
            # the same object on two nodes
            u = rng.choice(nodes)
            m = rment(rng)
            hist.append((op, v, u, m.plane))
            c[v] = m
            c[u] = m
            mod[v] = copy.deepcopy(m)
            mod[u] = copy.deepcopy(m)
        elif op == "del":
            hist.append((op, v))
            del c[v]
            mod[v] = None
        elif op == "ctrl":
            src = [u for u in nodes if mod[u] is not None and u != v]
            if not src:
                continue
            s = rng.choice(src)
            m = rcment(rng, c[s].outcome)
            hist.append((op, v, s))
            try:
                c[v] = m
                mod[v] = copy.deepcopy(m)
            except ValueError:
                hist[-1] += ("rejected",)
        elif op == "all":
            new = {u: (rment(rng) if rng.random() < 0.8 else None) for u in rng.sample(nodes, rng.randint(0, len(nodes)))}
            n0 = dict(new)
            hist.append((op, {u: m and m.plane for u, m in new.items()}))
            c.measurements = new
            need(new == n0, "caller's dictionary modified")
            mod = {u: copy.deepcopy(new[u]) if u in new else (None if u in outs else copy.deepcopy(default)) for u in nodes}
        elif op in ("edge", "edges"):
            k = 1 if op == "edge" else rng.randint(0, 2)
            new = [tuple(rng.sample(nodes, 2)) for _ in range(k)]
            old_nodes = list(c.graph.nodes)
            hist.append((op, new))
            try:
                c.add_edge(*new[0]) if op == "edge" else c.add_edges_from(new)
            except ValueError:
                hist[-1] += ("rejected",)
                continue
            es = es + [e for e in new if e not in es and e[::-1] not in es]
        elif op == "badset":
            hist.append((op, v))
            need(raises(lambda: c.__setitem__("nowhere", Ment("XY")), ValueError), "%s %s: unknown node accepted", msg, hist)
            need(raises(lambda: c.__setitem__(v, rng.choice([3, "XY", None])), ValueError), "%s %s: non-measurement accepted", msg, hist)
            need(raises(lambda: c.__delitem__("nowhere"), ValueError), "%s %s: deleting an unknown node accepted", msg, hist)
            need(raises(lambda: c["nowhere"], ValueError), "%s %s: reading an unknown node", msg, hist)
        elif op == "badall":
            hist.append((op,))

            def f(d):
                c.measurements = d

            need(raises(lambda: f({"nowhere": Ment("XY")}), ValueError), "%s: unknown node accepted", msg)
            need(raises(lambda: f({v: "XY"}), ValueError), "%s: non-measurement accepted", msg)
        elif op == "copy":
            hist.append((op,))
            d = copy.deepcopy(c)
            check(d, mod, es, nodes, ins, outs, msg + " deep copy")
            d[v] = Ment("Z")
        check(c, mod, es, nodes, ins, outs, "%s history %s" % (msg, hist))
        unchanged_caller(caller, rel, msg + " %s" % hist)


def invalid(rng, idx):
    g, i, o = flow_circuit(rng, 4)
    need(raises(lambda: mp.MBQCircuit(g, ["nowhere"], o, relabel_indices=False), ValueError), "unknown input accepted")
    need(raises(lambda: mp.MBQCircuit(g, i, ["nowhere"], relabel_indices=False), ValueError), "unknown output accepted")
    need(raises(lambda: mp.MBQCircuit(g, i, o, measurements={"nowhere": Ment("XY")}, relabel_indices=False), ValueError), "unknown node accepted")
    need(raises(lambda: mp.MBQCircuit(g, i, o, measurements={i[0]: 3}), ValueError), "non-measurement accepted")
    need(raises(lambda: mp.MBQCircuit(g, i, o, default_measurement="XY"), ValueError), "non-measurement default accepted")


CASES = cases(history, case(count=40)(invalid))
