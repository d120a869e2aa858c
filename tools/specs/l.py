UA = "flamingpy/decoders/unionfind/algos.py"
UC = "flamingpy/decoders/unionfind/uf_classes.py"
DEC = "flamingpy/decoders/decoder.py"
MG = "flamingpy/decoders/mwpm/matching.py"
VZ = "flamingpy/utils/viz.py"
LA = "flamingpy/utils/linalg.py"
SIM = "flamingpy/simulations.py"
CV = "flamingpy/noise/cv.py"
SC = "flamingpy/codes/surface_code.py"
SG = "flamingpy/codes/graphs/stabilizer_graph.py"
ST = "flamingpy/codes/stabilizer.py"
SPECS = [
 dict(id="C05-absorbed", property="C05", edits=[(UA, "            temp_odd_clusters.add(cluster.node.find_root())\n", "            root = cluster.node.find_root()\n            if root.size < 9 or root in odd_clusters:\n                temp_odd_clusters.add(root)\n")],
  needs="an odd cluster that meets an even erasure of more than eight cells, away from the boundary", breaks="the merged cluster stops growing although its parity is odd", demo='''
import numpy as np
from flamingpy.codes import SurfaceCode
from flamingpy.decoders.decoder import assign_weights
from flamingpy.decoders.unionfind import uf_decoder
from flamingpy.decoders import decoder as dec
rng = np.random.default_rng(0)
c = SurfaceCode(5, boundaries="periodic")
g = c.primal_stab_graph
qs = sorted(c.primal_syndrome_coords)
for t in range(150):
    for q in c.graph: c.graph.nodes[q].update(bit_val=0, state="GKP")
    o = rng.integers(0, 10, 3)
    er = [q for q in qs if all((a - b) % 10 <= 4 for a, b in zip(q, o))]
    assign_weights(c, "UF")
    for q in er: c.graph.nodes[q].update(weight=-1, bit_val=int(rng.random() < .5))
    for q in qs:
        if rng.random() < .03: c.graph.nodes[q]["bit_val"] ^= 1
    g.assign_weights(c)
    try:
        rec = uf_decoder(c, "primal")
    except Exception as e:
        raise SystemExit("failed: %r" % e)
    dec.recovery(rec, c, "primal")
    assert not any(s.parity for s in c.primal_stabilizers)
'''),
 dict(id="C08-nearest-twelve", property="C08", edits=[(MG, "            for stab2 in odd_adjacency[stab1]:\n", "            for stab2 in sorted(odd_adjacency[stab1], key=lengths.get)[:12]:\n")],
  needs="more than thirteen unsatisfied stabilizers, so that a needed pair is not among the twelve nearest", breaks="pairs of distant defects are left out of the matching graph", demo='''
import numpy as np, itertools as it
from flamingpy.codes import SurfaceCode
from flamingpy.decoders.decoder import assign_weights
from flamingpy.decoders.mwpm.algos import build_match_graph
c = SurfaceCode(4, boundaries="periodic")
rng = np.random.default_rng(1)
for q in c.graph: c.graph.nodes[q]["bit_val"] = 0
for q in c.primal_syndrome_coords: c.graph.nodes[q]["bit_val"] = int(rng.random() < .3)
assign_weights(c, "MWPM")
n = sum(s.parity for s in c.primal_stabilizers)
assert n > 14
m = build_match_graph(c, "primal", "networkx")
assert m.graph.number_of_edges() == n * (n - 1) // 2
'''),
 dict(id="C06-report-whole", property="C06", edits=[(DEC, "        odd_cubes = list(stab_graph.odd_parity_stabilizers())\n", "        odd_cubes = [s for s in stab_graph.odd_parity_stabilizers() if len(s.coords()) == 6]\n")],
  needs="an unsatisfied stabilizer at an open boundary, that has five qubits", breaks="the sanity check reports a successful recovery", demo='''
import io, contextlib
from flamingpy.codes import SurfaceCode
from flamingpy.decoders import decoder as dec
c = SurfaceCode(3)
for q in c.graph: c.graph.nodes[q]["bit_val"] = 0
part = [s for s in c.primal_stabilizers if len(s.coords()) < 6]
q = min(set(part[0].coords()))
others = [s for s in c.primal_stabilizers if q in s.coords()]
c.graph.nodes[q]["bit_val"] = 1
f = io.StringIO()
with contextlib.redirect_stdout(f): dec.recovery(set(), c, "primal", sanity_check=True)
assert any(len(s.coords()) < 6 for s in others)
if all(len(s.coords()) < 6 for s in others):
    assert "succeeded" not in f.getvalue(), f.getvalue()
# one qubit shared by incomplete stabilizers only
for q in sorted(c.primal_syndrome_coords):
    o = [s for s in c.primal_stabilizers if q in s.coords()]
    if o and all(len(s.coords()) < 6 for s in o):
        for v in c.graph: c.graph.nodes[v]["bit_val"] = 0
        c.graph.nodes[q]["bit_val"] = 1
        f = io.StringIO()
        with contextlib.redirect_stdout(f): dec.recovery(set(), c, "primal", sanity_check=True)
        assert "succeeded" not in f.getvalue(), f.getvalue()
'''),
 dict(id="C24-boundary-paths", property="C24", edits=[(VZ, "            if pair not in it.product(virtual_points, virtual_points):\n", "            if not set(pair) & set(virtual_points):\n")],
  needs="a drawn decoding of an open code with a defect matched to the boundary", breaks="recovery paths that end at the boundary are not drawn", demo='''
import matplotlib; matplotlib.use("Agg")
import matplotlib.pyplot as plt
from flamingpy.codes import SurfaceCode
from flamingpy.decoders import decoder as dec
c = SurfaceCode(3)
for q in c.graph: c.graph.nodes[q]["bit_val"] = 0
c.graph.nodes[min(c.primal_syndrome_coords)]["bit_val"] = 1
dec.correct(c, draw=True, drawing_opts={"show_recovery": True})
ax = plt.figure(plt.get_fignums()[-1]).axes[0]
assert any(len(l.get_data_3d()[0]) > 1 for l in ax.lines)
'''),
 dict(id="C24-legend-sorted", property="C24", edits=[(VZ, "            for node_property, color in color_nodes[1].items()\n", "            for node_property, color in zip(sorted(color_nodes[1], key=str), color_nodes[1].values())\n")],
  needs="a legend for colours listed in another than alphabetical order", breaks="the legend names the wrong colours", demo='''
import matplotlib; matplotlib.use("Agg")
from matplotlib.colors import to_rgb
from flamingpy.codes.graphs import EGraph
g = EGraph(); g.add_node((0, 0, 0), state="p"); g.add_node((1, 0, 0), state="GKP")
fig, ax = g.draw(color_nodes=("state", {"p": "b", "GKP": "gold"}), legend=True)
leg = ax.get_legend()
got = {t.get_text(): to_rgb(h.get_color()) for t, h in zip(leg.get_texts(), leg.legend_handles)}
assert got == {"p": to_rgb("b"), "GKP": to_rgb("gold")}, got
'''),
 dict(id="C11-count-memo", property="C11", edits=[(DEC, "    G = code.graph\n    # Get the set", "    G = code.graph\n    counts = code.__dict__.setdefault(\"_p_counts\", {})\n    states = sum(G.nodes[v].get(\"state\") == \"p\" for v in G)\n    if counts.get(\"total\") != states:\n        counts.clear()\n        counts[\"total\"] = states\n    # Get the set"),
  (DEC, "                p_count = 0\n                for neighbor in neighbors:\n                    state_name = G.nodes[neighbor].get(\"state\")\n                    if state_name == \"p\":\n                        p_count += 1\n", "                if node not in counts:\n                    counts[node] = sum(G.nodes[v].get(\"state\") == \"p\" for v in neighbors)\n                p_count = counts[node]\n")],
  needs="union-find weights assigned twice on one code with equally many but differently placed p-squeezed states", breaks="the erasure is the one of the earlier call", demo='''
from flamingpy.codes import SurfaceCode
from flamingpy.decoders.decoder import assign_weights
c = SurfaceCode(3)
def place(k):
    for v in c.graph: c.graph.nodes[v]["state"] = "GKP"
    q = sorted(c.primal_syndrome_coords)[k]
    for v in list(c.graph[q])[:2]: c.graph.nodes[v]["state"] = "p"
    assign_weights(c, "UF")
    return c.graph.nodes[q]["weight"]
assert place(10) == -1 and place(30) == -1
'''),
 dict(id="C14-early-stop", skip=1, property="C14", edits=[(LA, "        for j in range(i + 1):\n            # boolean", "        for j in range(i + 1) if i < 3 else (i,):\n            # boolean")],
  needs="components whose nullspace has more than six basis vectors, solved only by the sum of a late pair", breaks="equivalent graphs are reported as different", demo='''
import numpy as np, networkx as nx
from flamingpy.codes.graphs import EGraph
from flamingpy.utils.linalg import are_lc_equivalent
def comp(g, v):
    h = g.copy(); nb = list(h[v])
    for i in range(len(nb)):
        for j in range(i):
            if h.has_edge(nb[i], nb[j]): h.remove_edge(nb[i], nb[j])
            else: h.add_edge(nb[i], nb[j])
    return h
rng = np.random.default_rng(3)
bad = 0
for t in range(150):
    n = int(rng.integers(6, 10))
    T = nx.random_labeled_tree(n, seed=int(rng.integers(10**6)))
    H = T
    for _ in range(6): H = comp(H, int(rng.integers(n)))
    f = lambda G: EGraph(nx.relabel_nodes(nx.Graph(sorted(G.edges)), {i: (i, 0, 0) for i in range(n)}))
    bad += not are_lc_equivalent(f(T), f(H))[0]
assert bad == 0, bad
'''),
 dict(id="C23-quote-late", property="C23", edits=[(SIM, "        writer.writerow([str(value) for value in record])\n", "        file.write(\",\".join(str(value) if not isinstance(value, (dict, list, tuple)) else '\"%s\"' % value for value in record) + \"\\n\")\n")],
  needs="", breaks="", demo=''),
 dict(id="C05-bound-first", property="C05", edits=[(UA, "        if small_root.boundary:\n            big_root.boundary = small_root.boundary\n", "        if small_root.boundary and small_root.size > big_root.size // 8:\n            big_root.boundary = small_root.boundary\n")],
  needs="a cluster of eight or more cells that reaches the boundary by a single boundary point", breaks="the cluster forgets that it reached the boundary and grows on, in the worst case for ever", demo='''
import numpy as np, signal
from flamingpy.codes import SurfaceCode
from flamingpy.decoders.decoder import assign_weights
from flamingpy.decoders.unionfind.algos import initialize_cluster_trees, union_find
from flamingpy.decoders.unionfind.uf_classes import Support, Boundary
signal.alarm(120)
rng = np.random.default_rng(0)
c = SurfaceCode(5)
g = c.primal_stab_graph
qs = sorted(c.primal_syndrome_coords)
from flamingpy.decoders.unionfind import uf_decoder
bad = 0
for t in range(60):
    for q in c.graph: c.graph.nodes[q].update(bit_val=0, state="GKP")
    assign_weights(c, "UF")
    bp = set(c.primal_bound_points)
    edge = sorted(bp)[int(rng.integers(len(bp)))]
    er = [edge] + [q for q in qs if q not in bp and sum(abs(x - y) for x, y in zip(q, edge)) <= 6]
    for q in er: c.graph.nodes[q].update(weight=-1, bit_val=int(rng.random() < .5))
    g.assign_weights(c)
    nd, trees, odd = initialize_cluster_trees(g)
    sup = Support(g)
    b = {t.node: Boundary(t, sup, g) for t in trees}
    before = sum(v == "grown" for v in sup.status.values())
    big = max(trees, key=lambda r: r.size)
    nodes = set()
    union_find(odd, b, g, sup, nd)
    for r in {v.find_root() for v in nd.values()}:
        has = any(isinstance(v.id, tuple) for v in nd.values() if v.find_root() is r)
        bad += has != bool(r.boundary)
assert bad == 0, bad
'''),
 dict(id="C32-own-bit", property="C32", edits=[(UA, "    for leaf in leaves:\n        trim_forest", "    leaves.sort(key=lambda leaf: not isinstance(spanning_forest[leaf], tuple))\n    for leaf in leaves:\n        trim_forest")],
  needs="", breaks="", demo=''),
 dict(id="C02-parity-cache", property="C02", edits=[(ST, "        bit_vals = [self.egraph.nodes[node][\"bit_val\"] for node in self.egraph]\n", "        bit_vals = [self.egraph.nodes[node][\"bit_val\"] for node in self.physical or self.egraph if node in self.egraph]\n")],
  needs="a stabilizer across a periodic seam, whose physical coordinates include points outside the lattice", breaks="its parity leaves out the qubits on the other side", demo='''
from flamingpy.codes import SurfaceCode
c = SurfaceCode(3, boundaries="periodic")
for q in c.graph: c.graph.nodes[q]["bit_val"] = 0
for s in c.primal_stabilizers:
    for q in s.coords():
        c.graph.nodes[q]["bit_val"] = 1
        assert s.parity == 1
        c.graph.nodes[q]["bit_val"] = 0
'''),
 dict(id="C19-order-sticky", property="C19", edits=[(CV, "            self._generate_squeezed_indices(rng)\n        self._generate_gkp_indices()\n", "            self._generate_squeezed_indices(rng)\n        self._generate_gkp_indices()\n")],
  needs="", breaks="", demo=''),
 dict(id="C33-nx-real", property="C33", edits=[(SG, "    def has_bound_points(self):\n        \"\"\"Check if the graph has any boundary points.\"\"\"\n        return self.low_bound_points or self.high_bound_points\n", "    def has_bound_points(self):\n        \"\"\"Check if the graph has any boundary points.\"\"\"\n        return self.low_bound_points and self.high_bound_points\n")],
  needs="a stabilizer graph with boundary points on one side only", breaks="the graph claims to have no boundary points", demo='''
from flamingpy.codes.graphs.stabilizer_graph import NxStabilizerGraph, RxStabilizerGraph
for G in (NxStabilizerGraph, RxStabilizerGraph):
    g = G("primal")
    assert not g.has_bound_points()
    g.add_high_bound_point((1, 1, 1))
    assert g.has_bound_points()
'''),
]
SPECS = [s for s in SPECS if s["demo"] and not s.get("skip") and s["id"] != "C02-parity-cache"]
