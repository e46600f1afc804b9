from simref import *

PL = ["X", "Y", "XY"]


def run_case(rng, g, ins, outs, meas, relabel):
    c = mp.MBQCircuit(g, input_nodes=list(ins), output_nodes=list(outs), measurements=dict(meas) if meas else None, relabel_indices=relabel)
    name = dict(zip(sorted(g.nodes), range(len(g)))) if relabel else {v: v for v in g.nodes}
    inv = {b: a for a, b in name.items()}
    if rng.random() < 0.3:
        # re-declare some measurements
        for v in rng.sample(list(c.outputc), min(2, len(c.outputc))):
            m = rment(rng, PL)
            c[v] = m
            meas = dict(meas)
            meas[inv[v]] = m
    full = {v: meas.get(v, Ment("XY")) for v in g.nodes if v not in outs}
    ang = [rng.choice([0.0, math.pi / 2, rng.uniform(-4, 4), rng.uniform(-4, 4)]) for _ in c.trainable_nodes]
    sup = {inv[v]: a for v, a in zip(c.trainable_nodes, ang)}
    psi = pick_state(rng, len(ins))
    b = resolve(full, sup)
    st, p = ref(g, ins, outs, list(b.items()), psi)
    d = "nodes %s edges %s inputs %s outputs %s measurements %s angles %s relabel %s" % (
        list(g.nodes), list(g.edges), ins, outs, {v: (m.plane, m.angle) for v, m in full.items()}, sup, relabel)
    if st is None:
        raise Bad("the branch of a circuit with flow has probability 0: " + d)
    sim = mp.PatternSimulator(c, input_state=psi, backend="pennylane")
    got = np.asarray(sim(ang))
    exp = np.outer(st, st.conj())
    close(got, exp, d, tol=1e-6)
    return c, sim, ang, exp, psi, full, sup


def circuit(rng, idx):
    g, ins, outs = flow_circuit(rng, rng.randint(2, 5))
    meas = {}
    nodes = [v for v in g.nodes if v not in outs]
    rng.shuffle(nodes)
    for v in nodes:
        if rng.random() < 0.75:
            meas[v] = rment(rng, PL)
    run_case(rng, g, ins, outs, meas, rng.random() < 0.6)


@case(weight=0.5)
def reset(rng, idx):
    g, ins, outs = flow_circuit(rng, rng.randint(2, 4))
    c, sim, ang, exp, psi, full, sup = run_case(rng, g, ins, outs, {v: rment(rng, PL) for v in g.nodes if v not in outs}, True)
    sim.reset()
    close(np.asarray(sim(ang)), exp, "after reset", tol=1e-6)
    psi2 = rstate(rng, len(ins))
    sim.reset(psi2)
    st, _ = ref(g, ins, outs, list(resolve(full, sup).items()), psi2)
    close(np.asarray(sim(ang)), np.outer(st, st.conj()), "after reset with a new state", tol=1e-6)


@case(weight=0.5)
def explicit_order(rng, idx):
    """any measurement order compatible with the flow gives the same state"""
    g, ins, outs = flow_circuit(rng, rng.randint(3, 5))
    c = mp.MBQCircuit(g, input_nodes=list(ins), output_nodes=list(outs), relabel_indices=False)
    d = nx.DiGraph()
    d.add_nodes_from(g.nodes)
    d.add_edges_from((u, v) for u in g.nodes for v in g.nodes if c.partial_order(u, v))
    order, left = [], set(g.nodes)
    while left:
        ready = sorted(v for v in left if not any(u in left for u in d.predecessors(v)))
        v = rng.choice(ready)
        order.append(v)
        left.remove(v)
    c.measurement_order = order
    ang = [rng.uniform(-4, 4) for _ in c.trainable_nodes]
    psi = pick_state(rng, len(ins))
    b = resolve({v: Ment("XY") for v in g.nodes if v not in outs}, dict(zip(c.trainable_nodes, ang)))
    st, _ = ref(g, ins, outs, list(b.items()), psi)
    close(np.asarray(mp.PatternSimulator(c, input_state=psi, backend="pennylane")(ang)), np.outer(st, st.conj()),
          "order %s edges %s inputs %s outputs %s" % (order, list(g.edges), ins, outs), tol=1e-6)


@case(count=40)
def rejected(rng, idx):
    g, ins, outs = flow_circuit(rng, 4)
    c = mp.MBQCircuit(g, input_nodes=list(ins), output_nodes=list(outs))
    psi = rstate(rng, len(ins))
    sim = mp.PatternSimulator(c, input_state=psi, backend="pennylane")
    need(raises(lambda: sim(list(range(len(c.trainable_nodes) + 1))), ValueError), "wrong number of angles accepted")
    v = list(c.outputc)[0]
    c[v] = Ment(rng.choice(["XZ", "YZ"]))
    need(raises(lambda: mp.PatternSimulator(c, input_state=psi, backend="pennylane")([0.1] * len(c.trainable_nodes)), ValueError), "unsupported plane accepted")


CASES = cases(circuit, reset, explicit_order, rejected)
