"""C24: drawing is read-only and faithful to what it draws."""
import os

os.environ["MPLBACKEND"] = "Agg"
from harness import lemon

lemon.install()

import contextlib
import copy
import io
import re
import warnings
from collections import Counter

import matplotlib

matplotlib.use("Agg")
import matplotlib as mpl
import matplotlib.pyplot as plt
import numpy as np
from hypothesis import strategies as st
from matplotlib.colors import to_rgb

warnings.simplefilter("ignore")

from flamingpy.codes import alternating_polarity
from flamingpy.codes.graphs import EGraph
from flamingpy.decoders import decoder as dec
from flamingpy.decoders.mwpm.algos import build_match_graph
from flamingpy.noise import CVLayer, IidNoise
from flamingpy.utils import viz
from harness import fp, gen, snap
from harness.core import Sub, require

PROPERTY = "C24"
BUDGET = {"quick": 70, "thorough": 1500}
RULE = ("random graph states (integer, negative and fractional positions, node and edge attributes, macronodes) and codes, drawn with both "
        "backends and every colouring, label, title and legend option; the figure is read back (points, segments, colours, texts) and compared "
        "with the graph; everything drawn is snapshotted before and after and decoded afterwards next to an undrawn twin; multiples of "
        "sqrt(pi)/2 are parsed back from their text; non-trivial = the drawn object has edges / odd parity / text with pi")
COLORS = ["red", "#00ff7f", "b", "gold", "k", "MidnightBlue", "0.5", "g", "purple"]
NODE_ATTRS = {"state": ["GKP", "p", "x"], "kind": [0, 1, 2], "color": COLORS[:6]}
EDGE_ATTRS = {"weight": [1, -1, 2], "tag": ["u", "v"], "color": COLORS[:6]}


def rgb(c):
    """Red, green, blue in 0..1 from a matplotlib or plotly colour."""
    if isinstance(c, str) and c.startswith("rgb"):
        v = [float(x) for x in re.findall(r"[\d.]+", c)]
        return tuple(round(x / 255, 2) for x in v[:3])
    return tuple(round(float(x), 2) for x in to_rgb(c))


@contextlib.contextmanager
def quiet_figures():
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield
    finally:
        plt.close("all")


def rc():
    return {k: str(v) for k, v in mpl.rcParams.items() if not k.startswith("backend")}


# ------------------------------------------------------------------ reading figures back
def points_3d(ax):
    """(position, rgb) of every marker drawn by scatter on a 3D axis."""
    out = []
    for col in ax.collections:
        if not hasattr(col, "_offsets3d"):
            continue
        xs, ys, zs = (np.ma.getdata(np.ma.asarray(v)) for v in col._offsets3d)
        # the colours in the order of the points (a 3D collection returns them sorted by depth)
        fc = np.atleast_2d(mpl.collections.Collection.get_facecolor(col))
        for i in range(len(xs)):
            out.append(((float(xs[i]), float(ys[i]), float(zs[i])), rgb(fc[i if len(fc) > 1 else 0])))
    return out


def segments_3d(ax):
    out = []
    for line in ax.lines:
        xs, ys, zs = line.get_data_3d()
        for i in range(len(xs) - 1):
            out.append((frozenset([(float(xs[i]), float(ys[i]), float(zs[i])), (float(xs[i + 1]), float(ys[i + 1]), float(zs[i + 1]))]), rgb(line.get_color())))
    for col in ax.collections:
        if hasattr(col, "_segments3d"):
            cs = np.atleast_2d(col.get_color())
            for i, seg in enumerate(col._segments3d):
                out.append((frozenset(tuple(map(float, p)) for p in seg), rgb(cs[i if len(cs) > 1 else 0])))
    return out


def each(v, n):
    if v is None or isinstance(v, str):
        return [v] * n
    v = list(v)
    return v if len(v) == n else [None] * n


def plotly_parts(fig):
    pts, segs, hover = [], [], []
    for t in fig.data:
        xyz = list(zip(*(list(getattr(t, a) if getattr(t, a) is not None else []) for a in "xyz")))
        if "markers" in (t.mode or ""):
            cols = each(t.marker.color, len(xyz))
            info = each(t.hovertext if t.hovertext is not None else t.text, len(xyz))
            for p, c, h in zip(xyz, cols, info):
                pts.append((tuple(map(float, p)), None if c is None else rgb(c)))
                hover.append((tuple(map(float, p)), h))
        if "lines" in (t.mode or ""):
            cols = each(t.line.color, len(xyz))
            ok = [all(v is not None and v == v for v in p) for p in xyz]
            for i in range(len(xyz) - 1):
                if ok[i] and ok[i + 1]:
                    segs.append((frozenset([tuple(map(float, xyz[i])), tuple(map(float, xyz[i + 1]))]), None if cols[i] is None else rgb(cols[i])))
    return pts, segs, hover


def want_node_color(d, how):
    if isinstance(how, str):
        return how
    if isinstance(how, tuple):
        return how[1].get(d.get(how[0]), "black")
    return d.get("color", "black") if how else "black"


def want_edge_color(d, how):
    """None when the options leave the colour open."""
    if isinstance(how, str):
        return how
    if isinstance(how, tuple):
        return how[1].get(d.get(how[0]))
    return (d.get("color") or "grey") if how else "grey"


def match_colored(got, want, what):
    """Same positions, each once, in the wanted colour (a wanted None is any colour)."""
    require(Counter(p for p, _ in got) == Counter(p for p, _ in want), "%s drawn at %s, should be at %s", what,
            sorted(map(str, (Counter(p for p, _ in got) - Counter(p for p, _ in want))))[:3], sorted(map(str, (Counter(p for p, _ in want) - Counter(p for p, _ in got))))[:3])
    wanted = dict(want)
    for p, c in got:
        w = wanted[p]
        require(w is None or c == rgb(w), "%s at %s drawn in %s, its colour is %s", what, p, c, w)


def denotes(text, value):
    """A label shows a number (integers in full, other numbers to two digits)."""
    if isinstance(value, str):
        return str(text) == value
    text = str(text).replace("$", "").replace(" ", "")
    neg = text.startswith("^{-}") or text.startswith("-")
    text = text.replace("^{-}", "").lstrip("-")
    try:
        num = float(text)
    except ValueError:
        return False
    if isinstance(value, int):
        return (-num if neg else num) == value
    return (neg == (value < 0) or value == 0) and abs(num - abs(value)) <= 0.051 * abs(value) + 1e-300


# ------------------------------------------------------------------ graph states
def opts_of(o):
    out = {k: v for k, v in o.items() if v is not None and k not in ("backend",)}
    for k in ("color_nodes", "color_edges"):
        v = out.get(k)
        if isinstance(v, list):
            out[k] = (v[0], {a: b for a, b in v[1]})
    return out


def spot(t):
    """Where a text of a 3D axis is."""
    return tuple(float(v) for v in (t.get_position_3d() if hasattr(t, "get_position_3d") else (*t.get_position(), t._z)))


def check_labels(g, texts, label, labels):
    """The texts show the value of every qubit that has one, next to it."""
    if not label:
        require(not texts, "unrequested labels")
        return
    values = {n: (labels[n] if label == "index" else d.get(label)) for n, d in g.nodes(data=True)}
    values = {n: v for n, v in values.items() if v is not None}
    require(len(texts) == len(values), "%d labels for %d values", len(texts), len(values))
    left = list(texts)
    places = {n: np.array((float(n[0]), float(n[2]), float(n[1]))) for n in values}
    if values:
        # the usual case: every text at the same distance from its qubit
        shift = np.mean([spot(t) for t in texts], axis=0) - np.mean(list(places.values()), axis=0)
        at = {}
        for t in texts:
            at.setdefault(tuple(np.round(np.array(spot(t)) - shift, 6) + 0.0), []).append(t)
        keys = {n: tuple(np.round(p, 6) + 0.0) for n, p in places.items()}
        if np.abs(shift).max() < 0.5 and len(at) == len(values) and set(at) == set(keys.values()):
            for n, v in values.items():
                require(denotes(at[keys[n]][0].get_text(), v), "label of %s reads %r, the value is %r", n, at[keys[n]][0].get_text(), v)
            return
    for n, v in values.items():
        p = places[n]
        if any(np.abs(p - q).max() < 0.5 for m, q in places.items() if m != n):
            continue
        t = min(left, key=lambda t: float(np.abs(np.array(spot(t)) - p).sum()))
        left.remove(t)
        require(denotes(t.get_text(), v), "label of %s reads %r, the value is %r", n, t.get_text(), v)


def check_figure(g, backend, fig, opts, labels):
    col_n, col_e = opts.get("color_nodes", False), opts.get("color_edges", False)
    if backend == "plotly":
        pts, segs, hover = plotly_parts(fig)
        at = lambda n: tuple(map(float, n))
    else:
        ax = fig[1]
        pts, segs = points_3d(ax), segments_3d(ax)
        # the second axis of the figure shows z and the third y
        at = lambda n: (float(n[0]), float(n[2]), float(n[1]))
    match_colored(pts, [(at(n), want_node_color(d, col_n)) for n, d in g.nodes(data=True)], "qubits")
    match_colored(segs, [(frozenset([at(a), at(b)]), want_edge_color(d, col_e)) for a, b, d in g.edges(data=True)], "edges")
    if backend == "plotly":
        label = opts.get("label", "all")
        require((fig.layout.title.text or "") == want_title(opts, "all"), "title %r, should be %r", fig.layout.title.text, want_title(opts, "all"))
        require(len(hover) == len(g), "%d hover texts", len(hover))
        for p, h in hover:
            n = [m for m in g.nodes if at(m) == p][0]
            d = dict(g.nodes[n])
            if label is None:
                require(h in (None, "", "None"), "hover text %r without a label", h)
                continue
            if label == "coordinates":
                require(str(n) in h, "hover text %r of %s", h, n)
                continue
            keys = sorted(d) + ["index"] if label == "all" else [label] if isinstance(label, str) else list(label)
            for k in keys:
                v = labels.get(n) if k == "index" else d.get(k)
                if v is not None:
                    require("%s: %s" % (k, v) in h, "hover text %r of %s lacks %s: %s", h, n, k, v)
    else:
        label = opts.get("label")
        require(ax.get_title() == want_title(opts, None), "title %r, should be %r", ax.get_title(), want_title(opts, None))
        check_legend(ax, col_n[1] if opts.get("legend") and isinstance(col_n, tuple) else None, "node colours")
        check_labels(g, [t for t in ax.texts if t.get_text() != ""], label, labels)


def build_egraph(case):
    g = EGraph()
    for k, (pos, attrs) in enumerate(case["nodes"]):
        p = tuple(pos)
        if p not in g:
            g.add_node(p, **attrs)
    nodes = list(g.nodes)
    for i, j, attrs in case["edges"]:
        a, b = nodes[i % len(nodes)], nodes[j % len(nodes)]
        if a != b:
            g.add_edge(a, b, **attrs)
    if case["macro"] and g.edges and all(isinstance(c, int) for n in g for c in n) and all(g.degree(n) for n in g):
        ok = True
        for n in g:  # macronodes place a micronode along each edge; equal directions coincide
            dirs = [tuple(np.round((np.array(m) - np.array(n)) / np.linalg.norm(np.array(m) - np.array(n)), 6)) for m in g[n]]
            ok = ok and len(set(dirs)) == len(dirs)
        if ok:
            g = g.macronize(disp=0.1)
    return g


def note_indices(s, allow):
    if allow:
        s = dict(s)
        s.pop("to_indices", None)
    return s


def check_egraph(case, ctx):
    g = build_egraph(case)
    if case["index_first"]:
        g.index_generator()
    for o in case["draws"]:
        backend = o["backend"]
        opts = opts_of(o)
        if backend == "plotly" and o["label"] == "none":
            opts["label"] = None
        elif o["label"] == "none":
            opts.pop("label")
        keep_opts = copy.deepcopy(opts)
        before, ind, params = snap.graph(g), copy.deepcopy(g.to_indices), rc()
        with quiet_figures():
            fig = g.draw(backend=backend, **opts)
            lab = g.to_indices or {}
            check_figure(g, backend, fig, opts, lab)
        require(snap.graph(g) == before, "drawing changed the graph: %s", snap.diff(before, snap.graph(g)))
        require(opts == keep_opts, "drawing changed its options")
        require(rc() == params, "drawing changed the global plot parameters")
        uses_index = "index" in (opts.get("label", "all" if backend == "plotly" else None) or ()) or opts.get("label", "all") == "all"
        require(g.to_indices == ind or (ind is None and uses_index), "drawing changed the indices")
        if g.to_indices is not None:
            require(list(g.to_indices.values()) == list(range(len(g))), "indices of the drawn graph are not 0..N-1")
        ctx.label(backend, "label-%s" % (o["label"] if isinstance(o["label"], str) else "list"))
    if case["adj"]:
        before = snap.graph(g)
        with quiet_figures():
            fig, axs = g.draw_adj(show=False)
            img = np.asarray(axs[0].images[0].get_array())
        require(snap.graph(g) == before, "drawing the adjacency changed the graph")
        A = np.zeros((len(g), len(g)))
        for a, b, d in g.edges(data=True):
            i, j = g.to_indices[a], g.to_indices[b]
            A[i, j] = A[j, i] = d.get("weight", 1)
        require(np.array_equal(img, A), "the adjacency picture is not the adjacency of the graph")
    ctx.mark(g.number_of_edges() > 0)


coord = st.one_of(st.integers(-3, 4), st.integers(0, 3), st.sampled_from([0.1, 0.9, -0.5, 2.25]))
int_coord = st.integers(-2, 3)


def attr_dict(table, extra):
    return st.fixed_dictionaries({}, optional={**{k: st.sampled_from(v) for k, v in table.items()}, **extra})


def color_choice(table):
    by_attr = st.sampled_from(sorted(table)).flatmap(lambda k: st.lists(st.sampled_from(table[k]), unique=True, max_size=3).flatmap(
        lambda vals: st.tuples(*[st.tuples(st.just(v), st.sampled_from(COLORS)) for v in vals]).map(lambda t: [k, [list(x) for x in t]])))
    return st.one_of(st.none(), st.booleans(), st.sampled_from(COLORS), by_attr, by_attr)


numbers = st.one_of(st.integers(-9, 120), st.floats(-50, 50).map(lambda x: float("%.6g" % x)))
extra_node = {"bit_val": st.integers(0, 1), "hom_val_p": st.floats(-6, 6).map(lambda x: float("%.5g" % x)), "weight": numbers}


@st.composite
def draw_opts(draw):
    backend = draw(st.sampled_from(["matplotlib", "plotly"]))
    label = draw(st.sampled_from(["none", "index", "bit_val", "hom_val_p", "weight", "state", None]))
    if backend == "plotly":
        label = draw(st.sampled_from(["none", None, "all", "coordinates", "state", "index", "bit_val", ["index", "weight"], ["state"], ["bit_val", "hom_val_p"]]))
    o = {"backend": backend, "color_nodes": draw(color_choice(NODE_ATTRS)), "color_edges": draw(color_choice(EDGE_ATTRS)), "label": label,
         "title": draw(st.sampled_from([None, True, "A title"])), "legend": draw(st.booleans()), "show_axes": draw(st.booleans())}
    if backend == "matplotlib":
        o["dimensions"] = draw(st.sampled_from([None, None, [[0, 2], [0, 2], [0, 2]]]))
    else:
        o["showgrid"] = draw(st.sampled_from([None, True, False]))
    return o


@st.composite
def egraphs(draw):
    ints = draw(st.booleans())
    c = int_coord if ints else coord
    nodes = draw(st.lists(st.tuples(st.tuples(c, c, c), attr_dict(NODE_ATTRS, extra_node)), min_size=1, max_size=8, unique_by=lambda t: t[0]))
    edges = draw(st.lists(st.tuples(st.integers(0, 7), st.integers(0, 7), attr_dict(EDGE_ATTRS, {})), max_size=12))
    return {"nodes": [[list(p), a] for p, a in nodes], "edges": [[i, j, a] for i, j, a in edges], "macro": ints and draw(st.booleans()),
            "index_first": draw(st.booleans()), "adj": draw(st.sampled_from([False, False, True])), "draws": draw(st.lists(draw_opts(), min_size=1, max_size=3))}


# ------------------------------------------------------------------ codes and decodings
def cubes(ax):
    """Colour of every drawn stabilizer keyed by its extent."""
    out = []
    for col in ax.collections:
        if type(col).__name__ == "Poly3DCollection":
            vec = np.asarray(col._vec)[:3].T
            fc = np.atleast_2d(getattr(col, "_facecolor3d", None) if getattr(col, "_facecolor3d", None) is not None else col.get_facecolor())
            n = len(vec) // 24
            for i in range(n):
                v = vec[24 * i:24 * (i + 1)]
                cs = {rgb(fc[(6 * i + k) % len(fc)]) for k in range(6)}
                out.append((tuple(np.round((v.min(0) + v.max(0)) / 2, 6)), cs))
    return out


def check_syndrome(code, ec, ax, what):
    got = sorted(cubes(ax))
    want = []
    for s in getattr(code, ec + "_stabilizers"):
        lims = [s.xlims(), s.ylims(), s.zlims()]
        x, y, z = [(a + b) / 2 for a, b in lims]
        want.append((tuple(np.round([x, z, y], 6)), {rgb("#FF0000")} if s.parity % 2 else {rgb("#00FF00")}))
    want.sort(key=lambda t: t[0])
    require([g[0] for g in got] == [w[0] for w in want], "%s: %d stabilizers drawn, the code has %d (or elsewhere)", what, len(got), len(want))
    by = {}
    for p, c in want:
        by.setdefault(p, []).append(c)
    have = {}
    for p, c in got:
        have.setdefault(p, []).append(c)
    for p in by:
        require(sorted(map(sorted, by[p])) == sorted(map(sorted, have[p])), "%s: stabilizer at %s drawn in %s, should be %s", what, p, have[p], by[p])


SYNDROME_DEFAULTS = {"show_nodes": False, "color_nodes": ("state", {"p": None, "GKP": None}), "color_edges": "k", "label": None, "legend": True,
                     "show_title": True, "label_stabilizers": True, "label_boundary": False}


def syndrome_options(code, ec, step):
    """Options of a syndrome plot, and labels of stabilizers and boundary points."""
    o = step["syn"]
    opts = {"show_nodes": step["names"], "show_title": bool(step["title"]), "label": step["label"], "legend": o["legend"],
            "label_stabilizers": step["label_edges"], "label_boundary": o["boundary"]}
    opts.update({k: v for k, v in opts_of({k: o[k] for k in ("color_nodes", "color_edges")}).items()})
    if not o["explicit"]:
        opts = {k: v for k, v in opts.items() if v != SYNDROME_DEFAULTS[k]}
    index = None
    if o["index"]:
        index = {s: "s%d" % i for i, s in enumerate(getattr(code, ec + "_stabilizers"))}
        index.update({p: "b%d" % i for i, p in enumerate(getattr(code, ec + "_bound_points"))})
    return opts, index


def check_syndrome_options(code, ec, ax, opts, index, what):
    check_syndrome(code, ec, ax, what)
    check_legend(ax, {"even parity": "#00FF00", "odd parity": "#FF0000"} if opts["legend"] else None, what)
    require(ec in ax.get_title().lower() if opts["show_title"] else not ax.get_title(), "%s: title %r", what, ax.get_title())
    swap = lambda p: (float(p[0]), float(p[2]), float(p[1]))
    bound = [swap(p) for p in getattr(code, ec + "_bound_points")] if opts["label_boundary"] and index else []
    col_n, col_e = opts["color_nodes"], opts["color_edges"]
    open_color = isinstance(col_n, tuple) and None in col_n[1].values()
    nodes = [(swap(n), None if open_color or swap(n) in bound else want_node_color(d, col_n)) for n, d in code.graph.nodes(data=True)] if opts["show_nodes"] else []
    match_colored(points_3d(ax), nodes + [(p, None) for p in bound], "%s: qubits" % what)
    lines = [(frozenset([swap(a), swap(b)]), want_edge_color(d, col_e)) for a, b, d in code.graph.edges(data=True)] if opts["show_nodes"] else []
    match_colored(segments_3d(ax), lines, "%s: edges" % what)
    ours = set(index.values()) if index else set()
    check_labels(code.graph, [t for t in ax.texts if t.get_text() not in ours and t.get_text() != ""], opts["label"] if opts["show_nodes"] else None, code.graph.to_indices or {})
    want = Counter()
    if index and opts["label_stabilizers"]:
        want.update((index[s], swap(s.midpoint())) for s in getattr(code, ec + "_stabilizers"))
    if index and opts["label_boundary"]:
        want.update((index[p], swap(p)) for p in getattr(code, ec + "_bound_points"))
    got = Counter((t.get_text(), spot(t)) for t in ax.texts if t.get_text() in ours)
    require(got == want, "%s: labels of stabilizers and boundary points %s, should be %s", what, sorted((got - want).items())[:3], sorted((want - got).items())[:3])
    if opts["legend"] and opts["show_nodes"] and isinstance(col_n, tuple) and not open_color:
        legends = [a for a in ax.artists if type(a).__name__ == "Legend"] + [a for a in ax.get_children() if type(a).__name__ == "Legend"]
        texts = [{t.get_text() for t in leg.get_texts()} for leg in legends]
        require({str(k) for k in col_n[1]} in texts, "%s: no legend of the qubit colours", what)


def check_labels_agree(code, ec, figs, opts, match, odd, what):
    """The figures of a decoding call a stabilizer or boundary point by the same label."""
    swap = lambda p: tuple(float(v) for v in np.round([p[0], p[2], p[1]], 6))
    ax3 = figs[-1].axes[0]
    name = {}
    for t in ax3.texts:
        name.setdefault(tuple(float(v) for v in np.round(spot(t), 6)), []).append(t.get_text())
    sg = getattr(code, ec + "_stab_graph")
    nodes = [n for n in sg.nodes() if n not in ("low", "high")]
    at = {n: swap(n.midpoint() if hasattr(n, "midpoint") else n) for n in nodes}
    if len(set(at.values())) < len(nodes) or not all(len(name.get(p, ())) == 1 for p in at.values()):
        return
    names = {n: name[p][0] for n, p in at.items()}
    check_dec_graph(nodes, stab_edges(sg), figs[0].axes[0], names, opts.get("label_edges"), what + ": stabilizer graph",
                    title=ec.capitalize() + " stabilizer graph" if opts.get("show_title") else "")
    if match is None:
        return
    ax2 = figs[1].axes[0]
    require(ax2.get_title() == (ec.capitalize() + " matching graph" if opts.get("show_title") else ""), "%s: title %r of the matching graph", what, ax2.get_title())
    labels = Counter(t.get_text() for t in ax2.texts if getattr(t, "arrow_patch", None) is None and "." not in t.get_text())
    stab = Counter(names[s] for s in odd)
    points = {names[n] for n in nodes if not hasattr(n, "midpoint")}
    require(not stab - labels and set(labels - stab) <= points, "%s: the matching graph is labelled %s, the odd stabilizers are %s", what, dict(labels), dict(stab))
    require(sum(labels.values()) == len(match.graph), "%s: %d labels for %d nodes", what, sum(labels.values()), len(match.graph))
    if opts.get("label_edges"):
        texts = Counter(t.get_text() for t in ax2.texts if getattr(t, "arrow_patch", None) is None and "." in t.get_text())
        want = Counter("%.2f" % match.edge_weight(e) for e in match.graph.edges)
        require(texts == want, "%s: weights in the matching graph %s, should be %s", what, dict(texts - want), dict(want - texts))


def check_decoded(code, ec, ax, opts, flipped, uf, what):
    """The syndrome plot of a decoding: labels at the stabilizers and boundary points, the recovery as flipped qubits or as paths."""
    swap = lambda p: tuple(float(v) for v in np.round([p[0], p[2], p[1]], 6))
    dots, paths = [], []
    for line in ax.lines:
        if line.get_marker() == "o":
            data = [tuple(float(np.round(v, 6)) for v in p) for p in zip(*(np.atleast_1d(np.asarray(c, dtype=float)) for c in line.get_data_3d()))]
            if len(data) == 1 or line.get_linestyle() in ("None", "", " "):
                dots += data
            else:
                paths.append(data)
    if uf:
        require(not paths, "%s: paths drawn without a matching", what)
        # everything drawn as a point: the recovery, and what the options ask for
        dots += [tuple(float(np.round(v, 6)) for v in p) for p, _ in points_3d(ax)]
        want = [swap(q) for q in flipped] + ([swap(n) for n in code.graph.nodes] if opts.get("show_nodes") else [])
        want += [swap(p) for p in getattr(code, ec + "_bound_points")] if opts.get("label_boundary") else []
        require(Counter(dots) == Counter(want), "%s: recovery drawn at %s, the flipped qubits are at %s", what, sorted(Counter(dots) - Counter(want))[:4], sorted(map(swap, flipped))[:4])
    else:
        require(not dots, "%s: a matched pair is drawn as a point", what)
        sg = getattr(code, ec + "_stab_graph")
        where = {}
        for n in sg.nodes():
            if n not in ("low", "high"):
                where.setdefault(swap(n.midpoint() if hasattr(n, "midpoint") else n), []).append(n)
        if all(len(v) == 1 for v in where.values()):
            drawn = set()
            for path in paths:
                for a, b in zip(path, path[1:]):
                    require(a in where and b in where, "%s: the recovery passes %s - %s, where there is no stabilizer or boundary point", what, a, b)
                    drawn ^= {sg.edge_data(where[a][0], where[b][0])["common_vertex"]}
            require(drawn == set(flipped), "%s: the drawn recovery flips %s, the applied one %s", what, sorted(drawn)[:4], sorted(flipped)[:4])
    at = [tuple(float(v) for v in np.round(t.get_position_3d() if hasattr(t, "get_position_3d") else (*t.get_position(), t._z), 6)) for t in ax.texts]
    want = [swap(s.midpoint()) for s in getattr(code, ec + "_stabilizers")] if opts.get("label_stabilizers") else []
    if opts.get("label_boundary"):
        want += [swap(p) for p in getattr(code, ec + "_bound_points")]
    require(Counter(at) == Counter(want), "%s: labels at %s", what, sorted((Counter(at) - Counter(want)).items())[:4])
    texts = [t.get_text() for t in ax.texts]
    require(len(set(texts)) == len(texts), "%s: two stabilizers or boundary points share a label", what)


def check_legend(ax, entries, what):
    """entries: {text: colour}, or None for no legend."""
    leg = ax.get_legend()
    if entries is None:
        require(leg is None, "%s: unrequested legend", what)
        return
    require(leg is not None, "%s: no legend", what)
    handles = leg.legend_handles if hasattr(leg, "legend_handles") else leg.legendHandles
    got = {}
    for t, h in zip(leg.get_texts(), handles):
        got[t.get_text()] = rgb(h.get_facecolor() if hasattr(h, "get_facecolor") else h.get_color())
    require(got == {str(k): rgb(v) for k, v in entries.items()}, "%s: the legend says %s, should be %s", what, got, entries)


TITLES = {"bit_val": "Bit values", "weight": "Weights", "index": "Indices", "hom_val_p": "p-homodyne outcomes"}


def want_title(opts, default):
    """Text of the title, as documented for every title and label."""
    title, label = opts.get("title"), opts.get("label", default)
    if not title:
        return ""
    if isinstance(title, str):
        return title
    if isinstance(label, (list, tuple)):
        if len(label) > 1:
            return ", ".join(label)
        label = label[0]
    return "" if label is None else TITLES.get(label, label)


def label_positions(ax, names):
    """Position of every labelled node on a flat drawing."""
    pos = {}
    for t in ax.texts:
        if t.get_text() in names and getattr(t, "arrow_patch", None) is None:
            require(t.get_text() not in pos, "node %r drawn twice", t.get_text())
            pos[t.get_text()] = tuple(np.round(t.get_position(), 6))
    return pos


def flat_edges(ax):
    """(pair of end points, colour) of every edge of a flat graph drawing: annotations, arrows or lines."""
    out = []
    ends = lambda a, b: frozenset((tuple(np.round(a, 6)), tuple(np.round(b, 6))))
    for t in ax.texts:
        if getattr(t, "arrow_patch", None) is not None:
            out.append((ends(t.xy, t.xyann), rgb(t.arrow_patch.get_edgecolor())))
    for p in ax.patches:
        if type(p).__name__ == "FancyArrowPatch" and getattr(p, "_posA_posB", None) is not None:
            out.append((ends(*p._posA_posB), rgb(p.get_edgecolor())))
    for c in ax.collections:
        if type(c).__name__ == "LineCollection":
            cs = np.atleast_2d(c.get_color())
            for i, seg in enumerate(c.get_segments()):
                out.append((ends(seg[0], seg[-1]), rgb(cs[i % len(cs)])))
    for line in ax.lines:
        xy = line.get_xydata()
        if len(xy) > 1:
            out.append((ends(xy[0], xy[-1]), rgb(line.get_color())))
    return out


def check_dec_graph(nodes, edges, ax, names, label_edges, what, bar=None, title=None):
    """nodes: list; edges: {frozenset of nodes: weight}; names: {node: label} given to the drawing; bar: axis of the colour bar."""
    if title is not None:
        require(ax.get_title() == title, "%s: title %r, should be %r", what, ax.get_title(), title)
    scat = [c for c in ax.collections if type(c).__name__ == "PathCollection"]
    offs = [tuple(np.round(o, 6)) for c in scat for o in np.asarray(c.get_offsets())]
    require(len(offs) == len(nodes) and len(set(offs)) == len(nodes), "%s: %d nodes drawn, should be %d", what, len(offs), len(nodes))
    colored = flat_edges(ax)
    arrows = [e for e, _ in colored]
    require(len(arrows) == len(edges), "%s: %d edges drawn, should be %d", what, len(arrows), len(edges))
    if names:
        pos = label_positions(ax, {str(v) for v in names.values()})
        require(set(pos) == {str(names[n]) for n in nodes}, "%s: node labels %s", what, sorted(pos)[:5])
        require(set(pos.values()) == set(offs), "%s: labels are not on the nodes", what)
        want = Counter(frozenset((pos[str(names[a])], pos[str(names[b])])) for a, b in map(tuple, edges))
        require(Counter(arrows) == want, "%s: edges drawn between the wrong nodes", what)
        scale = [c for c in bar.collections if c.get_array() is not None and type(c).__name__ == "QuadMesh"] if bar is not None else []
        if scale and len(set(edges.values())) > 1:
            by = {frozenset((pos[str(names[a])], pos[str(names[b])])): w for (a, b), w in ((tuple(e), w) for e, w in edges.items())}
            for e, c in colored:
                require(c == rgb(scale[0].cmap(scale[0].norm(by[e]))), "%s: the colour of an edge is not the one of its weight %s on the colour bar", what, by[e])
        if label_edges:
            got = Counter((tuple(np.round(t.get_position(), 4) + 0.0), t.get_text()) for t in ax.texts
                          if getattr(t, "arrow_patch", None) is None and re.fullmatch(r"-?[\d.einf+]+\.\d\d", t.get_text()))
            want = Counter((tuple(np.round((np.array(pos[str(names[a])]) + np.array(pos[str(names[b])])) / 2, 4) + 0.0), "%.2f" % w)
                           for (a, b), w in ((tuple(e), w) for e, w in edges.items()))
            near = lambda c: sorted((round(p[0], 3), round(p[1], 3), t) for p, t in c.elements())
            g, w = near(got), near(want)
            same = len(g) == len(w)
            left = list(g)
            for x, y, t in w:
                k = next((i for i, (a, b, u) in enumerate(left) if u == t and abs(a - x) + abs(b - y) < 0.005), None)
                same = same and k is not None
                if k is not None:
                    left.pop(k)
            require(same, "%s: edge labels are not on the edges with these weights: %s left over", what, left[:3])
    if label_edges:
        texts = Counter(t.get_text() for t in ax.texts if getattr(t, "arrow_patch", None) is None and re.fullmatch(r"-?[\d.einf+]+\.\d\d", t.get_text()))
        want = Counter("%.2f" % w for w in edges.values())
        require(texts == want, "%s: edge labels %s, should be %s", what, dict(texts - want), dict(want - texts))


def stab_edges(sg):
    real = [e for e in sg.edges() if e[0] not in ("low", "high") and e[1] not in ("low", "high")]
    return {frozenset(e): sg.edge_data(*e)["weight"] for e in real}


def prepare(case, step):
    code = fp.build(case, backend=case["backend"], **({"polarity": alternating_polarity} if case["polar"] else {}))
    return code


def noise(code, step):
    rng = np.random.default_rng(step["seed"])
    if step["noise"] == "cv":
        CVLayer(code, delta=0.2, p_swap=0.1).apply_noise(rng)
    else:
        IidNoise(code, step["p"]).apply_noise(rng)
    for n in sorted(code.graph.nodes):
        code.graph.nodes[n].setdefault("bit_val", 0)
        code.graph.nodes[n]["weight"] = float(rng.integers(1, 900)) / 100


def names_for(code, ec, how, match=None):
    """Labels for the nodes of decoding graphs, distinct and never mistaken for weights."""
    if not how:
        return None
    sg = getattr(code, ec + "_stab_graph")
    out = {n: "n%d" % i for i, n in enumerate(n for n in sg.nodes() if n not in ("low", "high"))}
    if match is not None:
        for i, n in enumerate(match.graph.nodes()):
            if n not in out:
                out[n] = "v%d" % i
    return out


def settle(snapshot):
    """Drawing may generate indices."""
    s = dict(snapshot)
    s.pop("to_indices")
    return s


def weight_of(code, ref, before, after):
    return sum(code.graph.nodes[q]["weight"] for q in ref.qubits if before[q] != after[q])


def check_code(case, ctx):
    ref = fp.ref(case)
    code, twin = prepare(case, None), prepare(case, None)
    ec = case["ec"]
    for k, step in enumerate(case["steps"]):
        op, what = step["op"], "step %d (%s)" % (k + 1, step["op"])
        noise(code, step)
        noise(twin, step)
        params = rc()
        before = snap.code(code, weights=op not in ("stab", "decode"))
        if op == "graph":
            opts = opts_of(step["opts"])
            if step["opts"]["label"] == "none":
                opts.pop("label")
            with quiet_figures():
                fig = code.draw(backend=step["opts"]["backend"], **opts)
                opts.setdefault("color_nodes", ("type", {"primal": "black", "dual": "grey"}))
                opts.setdefault("color_edges", ("weight", {1: "b", -1: "r"}) if case["polar"] else "grey")
                check_figure(code.graph, step["opts"]["backend"], fig, opts, code.graph.to_indices or {})
        elif op == "stab":
            names = names_for(code, ec, step["names"])
            keep = dict(names) if names else names
            with quiet_figures():
                fig, axs = code.draw_stabilizer_graph(ec, label_edges=step["label_edges"], node_labels=names, title=step["title"])
                sg = getattr(code, ec + "_stab_graph")
                edges = stab_edges(sg)
                require(all(w == code.graph.nodes[sg.edge_data(*tuple(e))["common_vertex"]]["weight"] for e, w in edges.items()), "%s: weights", what)
                check_dec_graph([n for n in sg.nodes() if n not in ("low", "high")], edges, axs[0], names, step["label_edges"], what, axs[1], step["title"])
            require(names == keep, "%s: node labels were changed", what)
        elif op == "match":
            dec.assign_weights(twin, "MWPM")
            dec.assign_weights(code, "MWPM")
            before = snap.code(code, weights=False)
            sg = getattr(code, ec + "_stab_graph")
            sg.assign_weights(code)
            m = build_match_graph(code, ec, step["match"])
            if len(m.graph.nodes()):
                names = names_for(code, ec, step["names"], m)
                pairs = list(m.graph.edges) if step["match"] != "rustworkx" else [(m.graph[a], m.graph[b]) for a, b in m.graph.edge_list()]
                edges = {frozenset(e): m.edge_weight(e) for e in pairs}
                nodes = list(m.graph.nodes())
                with quiet_figures():
                    fig, axs = m.draw(label_edges=step["label_edges"], node_labels=names, title=step["title"])
                    check_dec_graph(nodes, edges, axs[0], names, step["label_edges"], what, axs[1], step["title"])
                require(list(m.graph.nodes()) == nodes and all(m.edge_weight(tuple(e)) == w for e, w in edges.items()), "%s: the matching graph changed", what)
            before = None if snap.diff(settle(before), settle(snap.code(code, weights=False))) is None else before
            require(before is None, "%s: drawing the matching graph changed the code", what)
        elif op == "syndrome":
            opts, index = syndrome_options(code, ec, step)
            keep = (dict(opts), None if index is None else dict(index))
            with quiet_figures():
                fig, ax = viz.syndrome_plot(code, ec, **({} if index is None else {"index_dict": index}), drawing_opts=opts)
                check_syndrome_options(code, ec, ax, {**SYNDROME_DEFAULTS, **opts}, index, what)
            require(keep == (opts, index), "%s: drawing options were changed", what)
        elif op == "decode":
            name, _, match = step["dec"].partition(":")
            opts = {"show_nodes": step["names"], "label_stabilizers": step["label_edges"], "label_boundary": step["names"], "label_edges": step["label_edges"],
                    "show_title": bool(step["title"]), "show_recovery": True}
            if not step["syn"]["explicit"]:
                opts = {k: v for k, v in opts.items() if v or k == "label_stabilizers" and step["names"]}
            keep = dict(opts)
            dec.assign_weights(twin, "MWPM")
            twin_match = build_match_graph(twin, ec, "networkx") if name == "MWPM" else None
            kw = {"decoder": name, "decoder_opts": {"backend": match} if match else None, "weight_options": {"method": "uniform"}}
            b0 = fp.bits(code)
            state = np.random.get_state()
            with quiet_figures():
                r1 = dec.correct(code, draw=True, drawing_opts=opts, **kw)
                figs = len(plt.get_fignums())
                b1 = fp.bits(code)
                drawn = [plt.figure(k) for k in plt.get_fignums()]
                check_decoded(code, ec, drawn[-1].axes[0], opts, [q for q in ref.qubits if b0[q] != b1[q]], name == "UF", what)
                if step["label_edges"] and step["names"]:
                    by = {s.midpoint(): s for s in getattr(code, ec + "_stabilizers")}
                    odd = [s for s in getattr(twin, ec + "_stabilizers") if s.parity]
                    ctx.label("labels-agree")
                    check_labels_agree(code, ec, drawn, opts, twin_match if len(drawn) == 3 else None, [by[s.midpoint()] for s in odd], what)
            np.random.set_state(state)
            r2 = dec.correct(twin, **kw)
            require(opts == keep, "%s: drawing options were changed", what)
            odd = bool(ref.syndrome([q for q in ref.qubits if b0[q]]))
            require(figs == (3 if odd and name == "MWPM" else 2), "%s: %d figures", what, figs)
            b1, b2 = fp.bits(code), fp.bits(twin)
            require(not ref.syndrome([q for q in ref.qubits if b1[q]]), "%s: decoding with drawing left a syndrome", what)
            if name == "MWPM":
                require(weight_of(code, ref, b0, b1) == weight_of(twin, ref, b0, b2), "%s: drawing changed the weight of the correction", what)
            require(bool(r1) == ref.is_trivial([q for q in ref.qubits if b1[q]]), "%s: verdict %r", what, r1)
            if b1 == b2:
                require(bool(r1) == bool(r2), "%s: drawing changed the verdict", what)
            after, tw = snap.code(code, weights=False), snap.code(twin, weights=False)
            drop = lambda s: {k: v for k, v in s.items() if k in (ec + "_stab_graph", "dims", "graph") and k != "graph" or k.endswith("points") or k.endswith("coords")}
            require(snap.diff(drop(before), drop(after)) is None, "%s: decoding with drawing changed the code: %s", what, snap.diff(drop(before), drop(after)))
            require(set(code.graph.nodes) == set(twin.graph.nodes) and {frozenset(e) for e in code.graph.edges} == {frozenset(e) for e in twin.graph.edges}, "%s: graph", what)
        if op in ("graph", "stab", "syndrome"):
            after = snap.code(code, weights=op != "stab")
            require(snap.diff(settle(before), settle(after)) is None, "%s changed the code: %s", what, snap.diff(settle(before), settle(after)))
        require(rc() == params, "%s changed the global plot parameters", what)
        ctx.label(op)
    # later decoding, next to a code on which nothing was drawn
    for d in ("MWPM:" + case["last"], "UF"):
        name, _, match = d.partition(":")
        noise(code, case["final"])
        noise(twin, case["final"])
        b0 = fp.bits(code)
        kw = {"decoder": name, "decoder_opts": {"backend": match} if match else None, "weight_options": {"method": "uniform"}}
        r1, r2 = dec.correct(code, **kw), dec.correct(twin, **kw)
        b1, b2 = fp.bits(code), fp.bits(twin)
        require(not ref.syndrome([q for q in ref.qubits if b1[q]]), "decoding after drawing left a syndrome")
        if name == "MWPM":
            require(weight_of(code, ref, b0, b1) == weight_of(twin, ref, b0, b2), "decoding after drawing found a correction of another weight")
        require(bool(r1) == ref.is_trivial([q for q in ref.qubits if b1[q]]), "verdict %r after drawing", r1)
    ctx.mark()


@st.composite
def codes(draw):
    c = draw(gen.code_spec(lo=2, hi=3, periodic_lo=3, max_volume=12 if draw(st.booleans()) else 18))
    steps = []
    for _ in range(draw(st.integers(1, 3))):
        s = {"op": draw(st.sampled_from(["graph", "stab", "match", "syndrome", "syndrome", "decode", "decode"])), "seed": draw(gen.seeds()), "p": draw(st.sampled_from([0, 0.03, 0.08, 0.2])),
             "noise": draw(st.sampled_from(["iid", "cv"])), "names": draw(st.booleans()), "label_edges": draw(st.booleans()), "title": draw(st.sampled_from(["", "T"])),
             "match": draw(st.sampled_from(["networkx", "rustworkx", "lemon"])), "dec": draw(st.sampled_from(["MWPM:networkx", "MWPM:rustworkx", "MWPM:lemon", "UF"])),
             "label": draw(st.sampled_from([None, "bit_val", "index"])),
             "syn": {"legend": draw(st.sampled_from([True, True, False])), "boundary": draw(st.booleans()), "index": draw(st.booleans()), "explicit": draw(st.booleans()),
                     "color_nodes": draw(st.sampled_from([None, "gold", ["bit_val", [[0, "b"], [1, "red"]]], ["state", [["GKP", "g"], ["p", "gold"]]]])),
                     "color_edges": draw(st.sampled_from([None, None, "red", ["weight", [[1, "b"], [-1, "r"]]]]))}}
        if s["op"] == "graph":
            s["opts"] = draw(draw_opts())
            if isinstance(s["opts"]["color_nodes"], bool) or draw(st.booleans()):
                s["opts"].pop("color_nodes")
                s["opts"].pop("color_edges")
            if s["opts"]["label"] == "none":
                s["opts"]["label"] = "none"
        if s["op"] == "decode" and draw(st.sampled_from([True, True, False])):
            s["names"] = s["label_edges"] = True
        steps.append(s)
    c.update({"backend": draw(st.sampled_from(["networkx", "networkx", "rustworkx"])), "polar": draw(st.booleans()), "steps": steps,
              "last": draw(st.sampled_from(["networkx", "rustworkx", "lemon"])), "final": {"seed": draw(gen.seeds()), "p": 0.08, "noise": "iid"}})
    return c


# ------------------------------------------------------------------ multiples of pi
R = np.sqrt(np.pi)


def parse_pi(text, tex):
    if tex and text.startswith("$"):
        require(text.endswith("$") and len(text) > 2, "unbalanced %r", text)
        text = text[1:-1]
    require("$" not in text, "stray $ in %r", text)
    if "\\sqrt{\\pi}" not in text:
        return float(text), False
    m = re.fullmatch(r"(-?)(\d*)\\sqrt\{\\pi\}(?:/(\d+))?", text)
    require(m, "unreadable %r", text)
    sign, num, den = m.groups()
    return (-1 if sign else 1) * (int(num) if num else 1) * R / (int(den) if den else 1), True


def check_pi(case, ctx):
    x = case["k"] * R / 2 + case["off"]
    if case["np"]:
        x = np.float64(x)
    kw = {}
    if case["tex"] is not None:
        kw["tex"] = case["tex"]
    if case["d"] is not None:
        kw["d"] = case["d"]
    tex, d = kw.get("tex", True), kw.get("d", 2)
    if case["fmt"]:
        text = viz.PiFormatter(**kw)(x, case["k"])
    else:
        text = viz.to_pi_string(x, **kw)
    val, sym = parse_pi(text, tex)
    if case["off"] == 0:
        require(sym or case["k"] == 0, "%r: the multiple %d of sqrt(pi)/2 is written %r", x, case["k"], text)
        if case["k"] == 0:
            require(float(text.strip("$")) == 0, "zero is written %r", text)
        if sym and tex:
            require(text.startswith("$"), "no $ signs in %r", text)
    require(abs(val - x) <= (1e-7 + 1e-12 * abs(x) if sym else 0.5 * 10.0 ** -d * 1.001 + 1e-12 * abs(x)), "%r is written %r, which denotes %r", x, text, val)
    ctx.mark(sym)


@st.composite
def pis(draw):
    off = draw(st.sampled_from([0, 0, 0, 1e-12, 0.01, -0.3, 0.44, 0.001, 1 / 3]))
    return {"k": draw(st.one_of(st.integers(-12, 12), st.integers(-10**4, 10**4))), "off": off, "tex": draw(st.sampled_from([None, True, False])),
            "d": draw(st.sampled_from([None, 0, 1, 2, 5])), "np": draw(st.booleans()), "fmt": draw(st.booleans())}


def check_plots(case, ctx):
    rng = np.random.default_rng(case["seed"])
    lo = case["lo"]
    xs = np.sort(lo + rng.random(case["n"]) * case["width"])
    ys = rng.integers(0, 4, case["n"]) if case["kind"] in ("int", "bins") else rng.random(case["n"]) - 0.5
    keep = (xs.copy(), ys.copy())
    full = case["kind"] == "err_full"
    f = {"int": viz.plot_integer_part, "frac": viz.plot_fractional_part, "bins": viz.plot_GKP_bins}.get(
        case["kind"], lambda x, y, alpha, show: viz.plot_Z_err_cond(x, y, alpha, full, show=show))
    params = rc()
    with quiet_figures():
        fig, ax = f(xs, ys, R, show=False)
        data = [l.get_xydata() for l in ax.lines]
        want = np.column_stack([xs, ys])
        if case["kind"] == "err_frac":     # at the distance from the nearest multiple
            want[:, 0] -= R * np.rint(xs / R)
        require(len(data) == 1 and data[0].shape == want.shape and np.allclose(data[0], want, rtol=0, atol=0 if case["kind"] != "err_frac" else 1e-9), "the plotted points are not the data")
        lim = ax.get_xlim()
        require(lim[0] <= want[:, 0].min() and want[:, 0].max() <= lim[1], "points outside of the plot")
        fmt = ax.xaxis.get_major_formatter()
        for t in ax.get_xticks():
            val, sym = parse_pi(fmt(t, None), True)
            require(abs(val - t) < 0.006, "tick %r is written %r", t, fmt(t, None))
    require(np.array_equal(xs, keep[0]) and np.array_equal(ys, keep[1]), "plotting changed the data")
    require(rc() == params, "plotting changed the global plot parameters")
    ctx.mark()


@st.composite
def plots(draw):
    return {"seed": draw(gen.seeds()), "n": draw(st.integers(2, 40)), "lo": draw(st.floats(-20, 20)), "width": draw(st.sampled_from([1.0, 5.0, 12.0])), "kind": draw(st.sampled_from(["int", "frac", "bins", "err_full", "err_frac"]))}


# ------------------------------------------------------------------ CV layers
def check_layer(case, ctx):
    g = build_egraph({**case, "macro": False})
    if not g.edges:
        g.add_edge((11, 0, 0), (12, 0, 0))
    rng = np.random.default_rng(case["seed"])
    n = len(g)
    p_inds = sorted(int(k) for k in rng.choice(n, size=int(rng.integers(0, n + 1)), replace=False))
    layer = CVLayer(g, delta=0.1, states={"p": np.array(p_inds, dtype=int)})
    if case["populate"]:
        layer.populate_states()
    before, params = snap.graph(g), rc()
    kw = {"backend": case["backend"]}
    if case["own"]:
        kw["color_nodes"] = ("state", {"GKP": "red", "p": "g"})
    with quiet_figures():
        fig = layer.draw(**kw)
        check_figure(g, case["backend"], fig, {"color_nodes": kw.get("color_nodes", ("state", {"GKP": "gold", "p": "blue"}))}, g.to_indices)
    with quiet_figures():
        fig, axs = layer.draw_SCZ(show=False)
        img = np.asarray(axs[0].images[0].get_array())
    A = np.zeros((n, n))
    for a, b, d in g.edges(data=True):
        i, j = g.to_indices[a], g.to_indices[b]
        A[i, j] = A[j, i] = d.get("weight", 1)
    want = np.block([[np.eye(n), np.zeros((n, n))], [A, np.eye(n)]])
    require(np.array_equal(img, want), "the picture is not the symplectic matrix of the CZ gates")
    require(snap.graph(g) == before, "drawing the layer changed the graph: %s", snap.diff(before, snap.graph(g)))
    require(rc() == params, "drawing changed the global plot parameters")
    ctx.mark(case["populate"] and 0 < len(p_inds) < n)
    ctx.label(case["backend"])


@st.composite
def layers(draw):
    c = draw(egraphs())
    return {"nodes": c["nodes"], "edges": c["edges"], "seed": draw(gen.seeds()), "populate": draw(st.sampled_from([True, True, True, False])),
            "backend": draw(st.sampled_from(["matplotlib", "plotly"])), "own": draw(st.booleans())}


SUBS = [Sub("graph_states", check_egraph, egraphs, quick=240, thorough=6000), Sub("codes", check_code, codes, quick=160, thorough=2500, share=1.5),
        Sub("pi_text", check_pi, pis, quick=1500, thorough=40000, share=0.4), Sub("plots", check_plots, plots, quick=60, thorough=900, share=0.4),
        Sub("layers", check_layer, layers, quick=60, thorough=1500, share=0.4)]
