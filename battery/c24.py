from gen import *
import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt
import matplotlib.colors as mcol
from mentpy.mbqc import view

CTRL, QOUT, FIXED, TRAIN, WHITE, BLUE = "#A88FE8", "#ADD8E6", "#CCCCCC", "#FFBD59", "#FFFFFF", "#ADD8E6"


def circuit(rng):
    g, i, o = flow_circuit(rng)
    nodes = sorted(g.nodes)
    meas = {}
    for v in g.nodes:
        r = rng.random()
        if v in o:
            if r < 0.25:
                meas[v] = rment(rng)
            elif r < 0.35:
                meas[v] = rcment(rng, rng.random() < 0.5)
            elif r < 0.7:
                meas[v] = None
        elif r < 0.6:
            meas[v] = rment(rng)
        elif r < 0.8:
            meas[v] = rcment(rng, rng.random() < 0.5)
    c = mp.MBQCircuit(g, input_nodes=i, output_nodes=o, measurements=meas if rng.random() < 0.9 else None, relabel_indices=rng.random() < 0.6)
    if rng.random() < 0.5:
        # a condition that depends on an earlier node
        mo = c.measurement_order
        late = [v for v in mo[1:] if c[v] is not None]
        if late:
            v = rng.choice(late)
            u = rng.choice(mo[: mo.index(v)])
            if c[u] is not None:
                c[v] = rcment(rng, c[u].outcome)
    return c


def role(c, v, style):
    m = c[v]
    if style == "black_and_white":
        return WHITE
    if style == "blue_inputs" and v in c.input_nodes:
        return BLUE
    if isinstance(m, ControlMent):
        return CTRL
    if m is None and v in c.output_nodes:
        return QOUT
    if m is None or not m.is_trainable():
        return FIXED
    return TRAIN


def colors(rng, idx):
    c = circuit(rng)
    for style in ("default", "black_and_white", "blue_inputs"):
        got = view.get_node_colors(c, style=style)
        exp = {v: role(c, v, style) for v in c.graph.nodes}
        need({k: v.upper() for k, v in got.items()} == {k: v.upper() for k, v in exp.items()}, "style %s: colours %s, expected %s (measurements %s)", style, got, exp, c.measurements)
    got = view.get_node_colors(c)
    need(got == view.get_node_colors(c, style="default"), "default style")
    need(raises(lambda: view.get_node_colors(c, style=rng.choice(["", "Default", "blue", "bw", "blue_input", None]))), "unknown style accepted")
    # the user's own choice of trainable nodes
    tr = [v for v in c.trainable_nodes if rng.random() < 0.5]
    c.trainable_nodes = tr
    got = view.get_node_colors(c)
    for v in c.graph.nodes:
        if not isinstance(c[v], ControlMent) and not (c[v] is None and v in c.output_nodes):
            need(got[v] == (TRAIN if v in tr else FIXED), "colour of node %s after restricting the trainable nodes to %s", v, tr)


ARROW = {"X": r"$\uparrow$", "Y": r"$\rightarrow$", "XY": r"$\nearrow$", "Z": r"$\cdot$", "XZ": r"$\nwarrow$", "YZ": r"$\nwarrow$", "XYZ": r"$\nwarrow \nearrow$", "": ""}


def expected_label(c, v, kind):
    m = c[v]
    if isinstance(m, ControlMent):
        return "Ctrl"
    if kind.startswith("plane"):
        return "" if m is None else m.plane
    if kind.startswith("arrow"):
        return ARROW["" if m is None else m.plane]
    if m is None:
        return ""
    if m.angle is None:
        return r"$\theta$"
    return tuple(round(a, 3) for a in m.angle) if isinstance(m.angle, tuple) else round(m.angle, 3)


def labels(rng, idx):
    c = circuit(rng)
    for kind in ("plane", "planes", "arrow", "arrows", "angle", "angles"):
        got = view.process_labels(c, {"label": kind, "pauliop": None})
        exp = {v: expected_label(c, v, kind) for v in c.graph.nodes}
        need(set(got) == set(exp), "%s labels cover %s of %s", kind, list(got), list(exp))
        for v in exp:
            same = got[v] == exp[v] or (not isinstance(exp[v], str) and not isinstance(got[v], str) and np.allclose(got[v], exp[v], atol=1e-9))
            need(same, "%s label of node %s is %r, expected %r", kind, v, got[v], exp[v])


def arrows(rng, idx):
    c = circuit(rng)
    if not hasattr(view, "_graph_with_flow"):
        return
    d = view._graph_with_flow(c)
    exp = sorted((str(v), str(c.flow(v))) for v in c.graph.nodes if v not in c.output_nodes)
    need(sorted((str(a), str(b)) for a, b in d.edges) == exp, "flow arrows %s, expected %s", list(d.edges), exp)
    need(d.is_directed() and list(d.nodes) == list(c.graph.nodes), "nodes of the flow graph")


def same_color(a, b):
    return np.allclose(mcol.to_rgba(a)[:3], np.asarray(b)[:3], atol=1e-6)


@case(weight=1.2)
def drawing(rng, idx):
    """what the figure shows"""
    c = circuit(rng)
    style = rng.choice(["default", "black_and_white", "blue_inputs"])
    kind = rng.choice([None, "plane", "arrows", "angles"])
    kw = dict(style=style)
    if kind:
        kw["label"] = kind
    before = dict(c.measurements)
    fig, ax = mp.draw(c, **kw)
    try:
        nodes = list(c.graph.nodes)
        cols = [x for x in ax.collections if type(x).__name__ == "PathCollection"]
        need(len(cols) >= 1, "no nodes drawn")
        pos = None
        for pc in cols:
            off, fc = pc.get_offsets(), pc.get_facecolors()
            need(len(off) == len(nodes), "number of drawn nodes")
            if len(fc) == 1 and len(nodes) > 1:
                fc = np.repeat(fc, len(nodes), axis=0)
            for k, v in enumerate(nodes):
                need(same_color(role(c, v, style), fc[k]), "drawn colour of node %s (style %s)", v, style)
            pos = {v: tuple(off[k]) for k, v in enumerate(nodes)}
        texts = {}
        for t in ax.texts:
            texts.setdefault((round(float(t.get_position()[0]), 5), round(float(t.get_position()[1]), 5)), set()).add(t.get_text())
        for v in nodes:
            key = (round(float(pos[v][0]), 5), round(float(pos[v][1]), 5))
            if sum((round(float(p[0]), 5), round(float(p[1]), 5)) == key for p in pos.values()) > 1:
                continue
            exp = str(v) if kind is None else str(expected_label(c, v, kind))
            got = texts.get(key, set())
            if kind == "angles" and exp not in got and isinstance(expected_label(c, v, kind), float):
                continue
            need(got == {exp}, "drawn label of node %s is %s, expected %r", v, got, exp)
        need(all(same_ment(before[v], c[v]) for v in nodes), "drawing changed the circuit")
    finally:
        plt.close(fig)


CASES = cases(colors, labels, arrows, drawing)
