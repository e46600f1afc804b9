from simref import *

PL = ["X", "Y", "XY"]
BACK = ["numpy-sv", "numpy-dm"]


def measurements(rng, g, outs, controlled=True, classical=True):
    """(declared, resolved): measurements of a random circuit and what they amount to when all outcomes are 0"""
    meas = {}
    nodes = list(g.nodes)
    rng.shuffle(nodes)
    for v in nodes:
        if v in outs and not (classical and rng.random() < 0.15):
            continue
        meas[v] = rment(rng, PL)
    return meas


def build(rng, g, ins, outs, meas, relabel=None):
    relabel = rng.random() < 0.6 if relabel is None else relabel
    c = mp.MBQCircuit(g, input_nodes=list(ins), output_nodes=list(outs), measurements=dict(meas), relabel_indices=relabel)
    name = dict(zip(sorted(g.nodes), range(len(g)))) if relabel else {v: v for v in g.nodes}
    return c, name


def run(sim, angles, backend, **kw):
    r = sim(angles, **kw)
    r = np.asarray(r)
    return r


def expected(g, ins, outs, meas, sup, psi, order=None):
    """order: the schedule (in the names of g) when one is given"""
    qouts = [v for v in outs if meas.get(v) is None]
    b = resolve(meas, sup)
    seq = [v for v in (order or g.nodes) if v in b]
    st, p = ref(g, ins, qouts, [(v, b[v]) for v in seq], psi)
    if st is None:
        return None
    # every conditional probability is at least the probability of the whole branch
    return np.outer(st, st.conj()), p


def probe(g, ins, outs, meas, sup, psi):
    """probability of the all-zero branch"""
    b = resolve(meas, sup)
    nodes = list(g.nodes)
    t = np.asarray(psi, complex).reshape([2] * len(ins))
    live = list(ins) + [v for v in nodes if v not in ins]
    for _ in range(len(nodes) - len(ins)):
        t = np.multiply.outer(t, np.ones(2) / math.sqrt(2))
    for u, v in g.edges():
        ix = [slice(None)] * len(nodes)
        ix[live.index(u)] = 1
        ix[live.index(v)] = 1
        t[tuple(ix)] *= -1
    for v, x in b.items():
        t = np.tensordot(x.conj(), t, axes=([0], [live.index(v)]))
        live.remove(v)
    return np.linalg.norm(t) ** 2


def supplied(rng, c, name):
    inv = {b: a for a, b in name.items()}
    ang = [rng.choice([0.0, math.pi / 2, rng.uniform(-4, 4), rng.uniform(-4, 4), rng.uniform(-4, 4)]) for _ in c.trainable_nodes]
    return ang, {inv[v]: a for v, a in zip(c.trainable_nodes, ang)}


def default_run(rng, idx):
    """default schedule and window: never an error"""
    g, ins, outs = flow_circuit(rng, rng.randint(2, 6))
    meas = measurements(rng, g, outs)
    c, name = build(rng, g, ins, outs, meas)
    ang, sup = supplied(rng, c, name)
    for v in g.nodes:
        if v not in outs:
            meas.setdefault(v, Ment("XY"))
    psi = pick_state(rng, len(ins))
    if probe(g, ins, outs, meas, sup, psi) < 1e-3:
        return
    exp, p = expected(g, ins, outs, meas, sup, psi)
    p0 = psi.copy()
    for be in BACK:
        kw = {}
        if rng.random() < 0.3:
            kw["window_size"] = rng.randint(1, len(g))
        try:
            sim = mp.PatternSimulator(c, input_state=psi, backend=be, **kw)
        except ValueError:
            if kw:
                continue
            raise
        got = run(sim, ang, be)
        d = "%s, nodes %s edges %s inputs %s outputs %s measurements %s order %s %s" % (
            be, list(g.nodes), list(g.edges), ins, outs, {v: (m and (m.plane, m.angle)) for v, m in meas.items()}, c.measurement_order, kw)
        close(got, exp, d, tol=1e-6)
        close(psi, p0, "input state modified")
        # reset: same and new input
        sim.reset()
        close(run(sim, ang, be), exp, "after reset: " + d, tol=1e-6)
        psi2 = pick_state(rng, len(ins))
        ang2, sup2 = supplied(rng, c, name)
        if probe(g, ins, outs, meas, sup2, psi2) < 1e-3:
            continue
        exp2, _ = expected(g, ins, outs, meas, sup2, psi2)
        if rng.random() < 0.5:
            sim.reset(psi2)
            close(run(sim, ang2, be), exp2, "after reset with a new state: " + d, tol=1e-6)
        else:
            close(run(sim, ang2, be, input_state=psi2), exp2, "run with a new state: " + d, tol=1e-6)
        sim.reset()
        close(run(sim, ang2, be), exp2, "reset keeps the new state: " + d, tol=1e-6)


def scheduled(rng, idx):
    """an explicit schedule, with or without flow: the branch state or an error"""
    n = rng.randint(2, 6)
    if rng.random() < 0.5:
        g, ins, outs = flow_circuit(rng, n)
    else:
        g = rgraph(rng, n, nodes=rlabels(rng, n))
        k = rng.randint(1, min(3, n - 1))
        ins, outs = rng.sample(list(g.nodes), k), rng.sample(list(g.nodes), k)
    meas = {v: rment(rng, PL) for v in g.nodes if v not in outs}
    if rng.random() < 0.2:
        meas[outs[0]] = rment(rng, PL)
    c, name = build(rng, g, ins, outs, meas, relabel=rng.random() < 0.5)
    ang, sup = supplied(rng, c, name)
    psi = pick_state(rng, len(ins))
    if probe(g, ins, outs, meas, sup, psi) < 1e-3:
        return
    rest = [v for v in g.nodes if v not in ins]
    rng.shuffle(rest)
    first = list(ins)
    if rng.random() < 0.4:
        rng.shuffle(first)
    sch = first + rest
    r = rng.random()
    if r < 0.1:
        rng.shuffle(sch)
    elif r < 0.15:
        sch = sch[:-1]
    elif r < 0.2:
        sch = sch + [sch[0]]
    w = rng.choice([None, 1, len(ins), len(ins) + 1, n - 1, n, n + 1])
    exp, p = expected(g, ins, outs, meas, sup, psi)
    for be in BACK:
        kw = dict(schedule=[name[v] for v in sch])
        if w is not None:
            kw["window_size"] = w
        try:
            sim = mp.PatternSimulator(c, input_state=psi, backend=be, **kw)
            got = run(sim, ang, be)
        except (ValueError, AssertionError):
            # always acceptable only for schedules that are no permutation starting with the inputs
            need(sorted(map(str, sch)) != sorted(map(str, g.nodes)) or set(sch[: len(ins)]) != set(ins) or (w or 0) > n,
                 "%s: valid schedule %s rejected for window %s (edges %s, inputs %s, outputs %s)", be, sch, w, list(g.edges), ins, outs)
            continue
        close(got, exp, "%s schedule %s window %s nodes %s edges %s inputs %s outputs %s measurements %s" % (
            be, sch, w, list(g.nodes), list(g.edges), ins, outs, {v: (m.plane, m.angle) for v, m in meas.items()}), tol=1e-6)
        sim.reset()
        close(run(sim, ang, be), exp, "%s after reset" % be, tol=1e-6)


def controlled(rng, idx):
    """controlled measurements: all outcomes are 0, so the condition has its value at 0"""
    g, ins, outs = flow_circuit(rng, rng.randint(3, 6))
    order = nx.lexicographical_topological_sort
    f, d = next(flows(g, ins, outs))
    topo = [v for v in nx.topological_sort(d)]
    meas = {v: rment(rng, PL) for v in g.nodes if v not in outs}
    cond_of = {}
    target = rng.choice(topo[1:])
    anc = [v for v in topo if v in nx.ancestors(d, target) and v not in outs]
    if not anc:
        return
    src = rng.choice(anc)
    relabel = rng.random() < 0.6
    name = dict(zip(sorted(g.nodes), range(len(g)))) if relabel else {v: v for v in g.nodes}
    c = mp.MBQCircuit(g, input_nodes=list(ins), output_nodes=list(outs), measurements=dict(meas), relabel_indices=relabel)
    o = c[name[src]].outcome if hasattr(c[name[src]], "outcome") else None
    if o is None:
        return
    neg = rng.random() < 0.5
    cond = ~o if neg else o
    br = []
    for _ in range(2):
        p = rng.choice(PL)
        br.append(Ment(rangle(rng, p), p) if p == "XY" and rng.random() < 0.5 else Ment(p))
    c[name[target]] = mp.ControlMent(cond, br[0].angle if br[0].plane == "XY" else None, br[0].plane, br[1].angle if br[1].plane == "XY" else None, br[1].plane)
    res = dict(meas)
    res[target] = (neg, br[0], br[1])
    ang, sup = supplied(rng, c, name)
    psi = pick_state(rng, len(ins))
    if probe(g, ins, outs, res, sup, psi) < 1e-3:
        return
    exp, p = expected(g, ins, outs, res, sup, psi)
    for be in BACK:
        try:
            sim = mp.PatternSimulator(c, input_state=psi, backend=be)
        except ValueError:
            if be == "numpy-sv":  # controlled measurements are not supported there
                continue
            raise
        close(run(sim, ang, be), exp, "%s controlled %s on %s (negated %s): branches %s, edges %s inputs %s outputs %s" % (
            be, target, src, neg, [(b.plane, b.angle) for b in br], list(g.edges), ins, outs), tol=1e-6)


def vector(rng, idx):
    """state-vector output form"""
    g, ins, outs = flow_circuit(rng, rng.randint(2, 6))
    c, name = build(rng, g, ins, outs, {})
    ang, sup = supplied(rng, c, name)
    meas = {v: Ment("XY") for v in g.nodes if v not in outs}
    psi = pick_state(rng, len(ins))
    if probe(g, ins, outs, meas, sup, psi) < 1e-3:
        return
    exp, _ = expected(g, ins, outs, meas, sup, psi)
    got = np.asarray(mp.PatternSimulator(c, input_state=psi, backend="numpy-sv").run(ang, output_form=rng.choice(["sv", "SV", "statevector"])))
    need(got.shape == (2 ** len(outs),), "shape %s", got.shape)
    close(np.outer(got, got.conj()), exp, "state vector", tol=1e-6)
    need(raises(lambda: mp.PatternSimulator(c, input_state=psi, backend="numpy-sv").run(ang, output_form="zz"), ValueError), "unknown output form")


@case(weight=0.3)
def default_input(rng, idx):
    """no input state means |+> on every input"""
    g, ins, outs = flow_circuit(rng, rng.randint(2, 5))
    c, name = build(rng, g, ins, outs, {})
    ang, sup = supplied(rng, c, name)
    meas = {v: Ment("XY") for v in g.nodes if v not in outs}
    psi = np.ones(2 ** len(ins)) / math.sqrt(2 ** len(ins))
    if probe(g, ins, outs, meas, sup, psi) < 1e-3:
        return
    exp, _ = expected(g, ins, outs, meas, sup, psi)
    for be in BACK:
        close(run(mp.PatternSimulator(c, backend=be), ang, be), exp, be + " default input", tol=1e-6)


@case(count=40)
def rerun(rng, idx):
    """a second run without reset returns the same state or raises"""
    g = rgraph(rng, rng.randint(1, 4), nodes=rlabels(rng, 4) if rng.random() < 0.5 else None)
    nodes = list(g.nodes)
    if rng.random() < 0.7:
        ins, outs = list(nodes), list(nodes)
        rng.shuffle(outs)
        rng.shuffle(ins)
        meas = {}
    else:
        g, ins, outs = flow_circuit(rng, rng.randint(2, 4))
        meas = {v: Ment("X") for v in g.nodes if v not in outs}
    c, name = build(rng, g, ins, outs, meas)
    psi = rstate(rng, len(ins))
    for be in BACK:
        sim = mp.PatternSimulator(c, input_state=psi, backend=be, schedule=[name[v] for v in ins + [v for v in g.nodes if v not in ins]])
        first = np.array(run(sim, [], be))
        for _ in range(2):
            try:
                again = run(sim, [], be)
            except ValueError:
                continue
            close(again, first, "%s: second run of edges %s inputs %s outputs %s" % (be, list(g.edges), ins, outs), tol=1e-6)


@case(count=60)
def rejected(rng, idx):
    g, ins, outs = flow_circuit(rng, 4)
    be = rng.choice(BACK)
    c, name = build(rng, g, ins, outs, {})
    psi = rstate(rng, len(ins))
    sim = mp.PatternSimulator(c, input_state=psi, backend=be)
    need(raises(lambda: sim(list(range(len(c.trainable_nodes) + 1))), ValueError), "wrong number of angles accepted")
    need(raises(lambda: mp.PatternSimulator(c, input_state=[1, 0], backend=be), TypeError), "list as state accepted")
    need(raises(lambda: mp.PatternSimulator(c, input_state=psi, backend="none"), ValueError), "unknown backend accepted")
    v = [u for u in c.outputc][0]
    c[v] = Ment(rng.choice(["XZ", "YZ", "Z"]))
    need(raises(lambda: mp.PatternSimulator(c, input_state=psi, backend="numpy-sv"), ValueError), "unsupported plane accepted")


CASES = cases(default_run, scheduled, controlled, vector, default_input, rerun, rejected)
