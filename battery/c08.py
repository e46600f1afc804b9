from gen import *
from mentpy.mbqc import templates as T

PERM = [Ment("XY")]


def shape(c, n, edges, ins, outs, msg):
    need(set(c.graph.nodes) == set(range(n)), "%s: nodes %s", msg, c.graph.nodes)
    got = {frozenset(e) for e in c.graph.edges}
    need(got == {frozenset(e) for e in edges}, "%s: edges %s, expected %s", msg, sorted(map(sorted, got)), sorted(map(sorted, edges)))
    need(list(c.input_nodes) == list(ins) and list(c.output_nodes) == list(outs), "%s: inputs %s outputs %s, expected %s %s", msg, c.input_nodes, c.output_nodes, ins, outs)


def planes(c, f, msg):
    for v in c.graph.nodes:
        e = f(v)
        if e is None:
            need(c[v] is None, "%s: node %s is measured", msg, v)
        else:
            need(c[v] is not None and c[v].plane == e and (e not in VARP or c[v].angle is None), "%s: node %s has %s, expected plane %s", msg, v, c[v], e)


@case(count=60)
def linear(rng, idx):
    n = 2 + idx if idx < 40 else rng.randint(2, 120)
    c = T.linear_cluster(n)
    shape(c, n, [(i, i + 1) for i in range(n - 1)], [0], [n - 1], "linear %d" % n)
    planes(c, lambda v: None if v == n - 1 else "XY", "linear %d" % n)
    need(c.flow is not None and all(c.flow(v) == v + 1 for v in range(n - 1)), "flow of the linear cluster")
    d = T.linear_cluster(n, default_measurement=Ment("Y"))
    planes(d, lambda v: None if v == n - 1 else "Y", "linear with options")


def wires_(rng, idx):
    w = [rng.randint(2, 7) for _ in range(rng.randint(1, 6))]
    w0 = list(w)
    c = T.many_wires(w)
    need(w == w0, "list modified")
    off, es = 0, []
    ins, outs = [], []
    for m in w:
        es += [(off + j, off + j + 1) for j in range(m - 1)]
        ins.append(off)
        off += m
        outs.append(off - 1)
    shape(c, off, es, ins, outs, "many_wires %s" % w)
    planes(c, lambda v: None if v in outs else "XY", "many_wires %s" % w)
    need(c.flow is not None, "many_wires without flow")
    bad = list(w)
    bad[rng.randrange(len(w))] = rng.choice([1, 0, -3, 2.5, "3"])
    need(raises(lambda: T.many_wires(bad), ValueError), "wires %s accepted", bad)


@case(count=260)
def grid(rng, idx):
    n, m = 1 + idx % 8, 2 + (idx // 8) % 8
    per = idx >= 64 if idx < 128 else rng.random() < 0.5
    if idx >= 128:
        n, m = rng.randint(1, 9), rng.randint(2, 12)
    c = T.grid_cluster(n, m, periodic=per) if per or rng.random() < 0.5 else T.grid_cluster(n, m)
    at = lambda i, j: i * m + j
    es = [(at(i, j), at(i, j + 1)) for i in range(n) for j in range(m - 1)]
    es += [(at(i, j), at(i + 1, j)) for i in range(n - 1) for j in range(m)]
    if per and n > 1:
        es += [(at(0, j), at(n - 1, j)) for j in range(m)]
    shape(c, n * m, es, [at(i, 0) for i in range(n)], [at(i, m - 1) for i in range(n)], "grid %d x %d periodic %s" % (n, m, per))
    planes(c, lambda v: None if v % m == m - 1 else "XY", "grid")
    if not per:
        need(c.flow is not None, "open grid without flow")


def pauli(rng, idx):
    n = rng.randint(1, 5)
    txt = "".join(rng.choice("IXYZ") for _ in range(n))
    if idx < 84:
        n = 1 if idx < 4 else 2 if idx < 20 else 3
        k = idx if idx < 4 else idx - 4 if idx < 20 else idx - 20
        txt = "".join("IXYZ"[(k // 4**q) % 4] for q in range(n))
    op = mp.PauliOp(txt)
    mat = np.array(op.matrix).copy()
    c = T.from_pauli(op)
    need((np.array(op.matrix) == mat).all(), "operator modified")
    a, b = 3 * n, 3 * n + 1
    es = [(3 * q + j, 3 * q + j + 1) for q in range(n) for j in (0, 1)] + [(a, b)]
    es += [(3 * q + 1, a) for q in range(n) if txt[q] in "XY"]
    es += [(3 * q, a) for q in range(n) if txt[q] in "ZY"]
    shape(c, 3 * n + 2, es, [3 * q for q in range(n)], [3 * q + 2 for q in range(n)], "from_pauli %s" % txt)
    planes(c, lambda v: None if v < 3 * n and v % 3 == 2 else "XY" if v == b else ("Y" if "Y" in txt else "X") if v == a else "X", "from_pauli %s" % txt)


@case(count=40)
def pauli_rejected(rng, idx):
    n = rng.randint(1, 3)
    rows = ["".join(rng.choice("IXYZ") for _ in range(n)) for _ in range(rng.randint(2, 4))]
    need(raises(lambda: T.from_pauli(mp.PauliOp(";".join(rows))), ValueError), "several operators accepted")


MUTA = [(w, l, oc, rt) for w in (1, 2, 3, 4) for l in (1, 2, 3) for oc in (False, True) for rt in (True, False)]


@case(count=len(MUTA), weight=0.7)
def muta(rng, idx):
    w, l, oc, rt = MUTA[idx % len(MUTA)]  # one case per size
    if w * w * l > 20:
        return
    kw = {}
    if oc:
        kw["one_column"] = True
    if not rt:
        kw["restrict_trainable"] = False
    c = T.muta(w, l, **kw)
    cols = (1 if oc else w) * l
    need(len(c.input_nodes) == w and len(c.output_nodes) == w, "muta %d %d: inputs %s outputs %s", w, l, c.input_nodes, c.output_nodes)
    need(len(set(c.input_nodes) | set(c.output_nodes)) == 2 * w, "muta: wires share ends")
    need(len(c.graph) == w * (4 * cols + 1), "muta %d %d: %d nodes", w, l, len(c.graph))
    need(c.flow is not None, "muta without flow")
    # the documented graph, built by columns of five-node wires
    at, nxt = {}, 0
    es = set()
    for col in range(cols):
        hub = 0 if oc else col % w
        for q in range(w):
            for j in range(4):
                es.add(frozenset([(q, 4 * col + j), (q, 4 * col + j + 1)]))
            if q != hub:
                es.add(frozenset([(hub, 4 * col + 1), (q, 4 * col)]))
                es.add(frozenset([(hub, 4 * col + 1), (q, 4 * col + 2)]))
    # match by walking each wire: successor of a node along the flow
    pos = {}
    for q, v in enumerate(c.input_nodes):
        pos[v] = (q, 0)
        k = 0
        while v not in c.output_nodes:
            v = c.flow(v)
            k += 1
            need(v not in pos, "muta: flow revisits %s", v)
            pos[v] = (q, k)
        need(c.output_nodes[q] == v and k == 4 * cols, "muta: wire %s ends in %s", q, v)
    need({frozenset(pos[x] for x in e) for e in c.graph.edges} == es, "muta %d %d: edges", w, l)
    for v in c.graph.nodes:
        need((c[v] is None) == (v in c.output_nodes), "muta: measurement of %s", v)


SPT = [(n, l, p) for n in (4, 5, 6) for l in (1, 2) for p in (False, True)]


@case(count=len(SPT) + 4, weight=0.7)
def spt(rng, idx):
    if idx < 4:
        need(raises(lambda: T.spturb(idx, 1), ValueError), "spturb with %d qubits accepted", idx)
        return
    n, l, p = SPT[(idx - 4) % len(SPT)]
    c = T.spturb(n, l, periodic=p)
    blocks = 2 * l * (n if p else n - 2)
    need(len(c.input_nodes) == n and len(c.output_nodes) == n, "spturb: %d inputs %d outputs", len(c.input_nodes), len(c.output_nodes))
    need(len(set(c.input_nodes)) == n == len(set(c.output_nodes)), "spturb: repeated ends")
    need(len(c.graph) == n * (2 * l + 1) + blocks * 10, "spturb: %d nodes", len(c.graph))
    need(all(c[v] is None for v in c.output_nodes), "spturb: measured outputs")
    pl = [c[v].plane for v in c.graph.nodes if c[v] is not None]
    need(pl.count("XY") == n * l + blocks, "spturb: %d free angles, expected %d", pl.count("XY"), n * l + blocks)
    need(pl.count("Y") == 4 * (blocks // 2), "spturb: %d Y measurements", pl.count("Y"))


CASES = cases(linear, wires_, grid, pauli, pauli_rejected, muta, spt)
