"""Drawing."""
V = "flamingpy/utils/viz.py"
PRE = '''import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np, io, contextlib
from flamingpy.codes import SurfaceCode
from flamingpy.utils import viz
'''
SPECS = [
    dict(id="C24-edge-labels", property="C24",
         edits=[(V, '''        weight_dict = {edge: "{:.2f}".format(graph.edges[edge]["weight"]) for edge in graph.edges}
''', '''        weights = sorted(weight for _, _, weight in graph.edges(data="weight"))
        ordered = sorted(graph.edges, key=lambda edge: round(graph.edges[edge]["weight"]))
        weight_dict = {edge: "{:.2f}".format(weight) for edge, weight in zip(ordered, weights)}
''')],
         needs="edge labels on a stabilizer or matching graph with two different weights that round to the same integer",
         breaks="the weights are written next to other edges than their own",
         demo=PRE + '''
code = SurfaceCode(3, "primal")
rng = np.random.default_rng(1)
for n in code.graph.nodes:
    code.graph.nodes[n]["bit_val"] = 0
    code.graph.nodes[n]["weight"] = int(rng.integers(100, 900)) / 100
sg = code.primal_stab_graph
nodes = [n for n in sg.nodes() if n not in ("low", "high")]
names = {n: "n%d" % i for i, n in enumerate(nodes)}
fig, axs = code.draw_stabilizer_graph("primal", label_edges=True, node_labels=names)
pos = {t.get_text(): np.array(t.get_position()) for t in axs[0].texts if t.get_text() in names.values()}
texts = [(np.array(t.get_position()), t.get_text()) for t in axs[0].texts if "." in t.get_text()]
bad = 0
for a, b in sg.edges():
    if a in names and b in names:
        mid = (pos[names[a]] + pos[names[b]]) / 2
        here = [t for p, t in texts if abs(p - mid).sum() < 1e-3]
        bad += "%.2f" % sg.edge_data(a, b)["weight"] not in here
assert not bad, bad
'''),
    dict(id="C24-virtual-labels", property="C24",
         edits=[(V, '''                index = node_labels[virtual_node[0]]
                node_labels[virtual_node] = index
''', '''                point, number = virtual_node
                node_labels[virtual_node] = node_labels.get(number, node_labels[point] + number)
''')],
         needs="a labelled decoding drawing of an open code in which two or more virtual points are added",
         breaks="virtual points in the matching graph carry labels that belong to other nodes of the stabilizer graph",
         demo=PRE + '''
from flamingpy.decoders import correct
code = SurfaceCode(3, "primal")
for n in code.graph.nodes:
    code.graph.nodes[n]["bit_val"] = 0
for q in code.primal_syndrome_coords[::7]:
    code.graph.nodes[q]["bit_val"] = 1
odd = [s for s in code.primal_stabilizers if s.parity]
assert len(odd) > 3
mids = {s.midpoint() for s in odd}
with contextlib.redirect_stdout(io.StringIO()):
    correct(code, decoder="MWPM", weight_options={"method": "uniform"}, decoder_opts={"backend": "networkx"}, draw=True,
            drawing_opts={"label_stabilizers": True, "label_boundary": True, "show_recovery": False})
figs = [plt.figure(k) for k in plt.get_fignums()]
assert len(figs) == 3
bound = {(float(p[0]), float(p[2]), float(p[1])) for p in code.primal_bound_points}
at = {t.get_text(): tuple(map(float, t.get_position_3d())) for t in figs[2].axes[0].texts}
points = {t for t, p in at.items() if p in bound}
labels = [t.get_text() for t in figs[1].axes[0].texts if t.get_text()]
stabs = {t for t, p in at.items() if (p[0], p[2], p[1]) in {tuple(map(float, m)) for m in mids}}
assert set(labels) - stabs <= points, sorted(set(labels) - stabs - points)
'''),
    dict(id="C24-options-kept", property="C24",
         edits=[(V, '''    cubes = getattr(code, ec + "_stabilizers")
    # Default drawing options.
    draw_dict = {
        "show_nodes": False,
        "color_nodes": ("state", {"p": None, "GKP": None}),
        "color_edges": "k",
        "label": None,
        "legend": True,
        "show_title": True,
        "show_axes": True,
        "label_stabilizers": True,
        "label_boundary": False,
    }
''', '''    cubes = getattr(code, ec + "_stabilizers")
    # Default drawing options.
    draw_dict = _syndrome_defaults
'''), (V, '''    drawing_opts = {**draw_dict, **drawing_opts}

    # Shape''', '''    draw_dict.update(drawing_opts)
    drawing_opts = draw_dict

    # Shape'''), (V, '''@mpl.rc_context(plot_params)
def syndrome_plot(''', '''_syndrome_defaults = {
    "show_nodes": False,
    "color_nodes": ("state", {"p": None, "GKP": None}),
    "color_edges": "k",
    "label": None,
    "legend": True,
    "show_title": True,
    "show_axes": True,
    "label_stabilizers": True,
    "label_boundary": False,
}


@mpl.rc_context(plot_params)
def syndrome_plot(''')],
         needs="two syndrome plots in one process, the second one without an option that the first one set",
         breaks="options of an earlier plot stay in force: titles, legends, labels and qubits appear or disappear unrequested",
         demo=PRE + '''
code = SurfaceCode(2, "primal")
for n in code.graph.nodes:
    code.graph.nodes[n]["bit_val"] = 0
viz.syndrome_plot(code, "primal", drawing_opts={"show_title": False, "legend": False})
fig, ax = viz.syndrome_plot(code, "primal", drawing_opts={})
assert ax.get_title() == "Primal syndrome" and ax.get_legend() is not None
'''),
    dict(id="C24-edge-colour-round", property="C24",
         edits=[(V, '''            color=cmap(norm(edges[edge]["weight"])),
''', '''            color=cmap(norm(np.clip(int(edges[edge]["weight"]), norm.vmin, norm.vmax))),
''')],
         needs="a stabilizer or matching graph whose weights are not integers",
         breaks="edges are drawn in the colour of another weight than their own",
         demo=PRE + '''
code = SurfaceCode(3, "primal")
for k, n in enumerate(sorted(code.graph.nodes)):
    code.graph.nodes[n]["bit_val"] = 0
    code.graph.nodes[n]["weight"] = 0.1 + 0.8 * (k % 5) / 5
fig, axs = code.draw_stabilizer_graph("primal")
colors = {t.arrow_patch.get_edgecolor() for t in axs[0].texts if getattr(t, "arrow_patch", None) is not None}
sg = code.primal_stab_graph
weights = {sg.edge_data(a, b)["weight"] for a, b in sg.edges() if {a, b}.isdisjoint({"low", "high"})}
assert len(colors) == len(weights), (len(colors), len(weights))
'''),
    dict(id="C24-legend-dropped", property="C24",
         edits=[(V, '''    if leg:
        ax.add_artist(leg)
''', '''    if leg and not index_dict:
        ax.add_artist(leg)
''')],
         needs="a syndrome plot with qubits coloured by an attribute, a legend and labelled stabilizers",
         breaks="the legend of the qubit colours is missing",
         demo=PRE + '''
code = SurfaceCode(2, "primal")
for n in code.graph.nodes:
    code.graph.nodes[n]["bit_val"] = 0
index = {s: str(i) for i, s in enumerate(code.primal_stabilizers)}
fig, ax = viz.syndrome_plot(code, "primal", index_dict=index, drawing_opts={"show_nodes": True, "color_nodes": ("bit_val", {0: "b", 1: "r"})})
legends = [c for c in ax.get_children() if type(c).__name__ == "Legend"]
assert any({t.get_text() for t in l.get_texts()} == {"0", "1"} for l in legends)
'''),
    dict(id="C24-hover-zero", property="C24",
         edits=[(V, '''            if node_property is not None:
                node_info += "<br />"''', '''            if node_property:
                node_info += "<br />"''')],
         needs="a plotly drawing with hover information, and a qubit on which a listed value is zero",
         breaks="the hover text leaves out values that are zero (bit values, indices)",
         demo=PRE + '''
from flamingpy.codes.graphs import EGraph
g = EGraph()
g.add_node((0, 0, 0), bit_val=0)
g.add_node((0, 0, 1), bit_val=1)
g.add_edge((0, 0, 0), (0, 0, 1))
fig = g.draw(backend="plotly", label=["bit_val", "index"])
text = [t for t in fig.data if t.name == "nodes"][0].hovertext
assert all("bit_val: " in t and "index: " in t for t in text), text
'''),
]
