SG = "flamingpy/codes/graphs/stabilizer_graph.py"
SC = "flamingpy/codes/surface_code.py"
EG = "flamingpy/codes/graphs/egraph.py"
UC = "flamingpy/decoders/unionfind/uf_classes.py"
CV = "flamingpy/noise/cv.py"
MG = "flamingpy/decoders/mwpm/matching.py"
DEC = "flamingpy/decoders/decoder.py"
VZ = "flamingpy/utils/viz.py"

SPECS = [
 dict(id="C04-small-weights", property="C04", edits=[(SG, "    return float(edge[\"weight\"])\n", "    return max(float(edge[\"weight\"]), 1e-3)\n")],
  needs="weights below a thousandth and a detour of many such edges", breaks="the reported path is not a shortest one", demo='''
from flamingpy.codes import SurfaceCode
c = SurfaceCode((5, 2, 2), ec="primal", boundaries="periodic") if False else SurfaceCode(5)
import numpy as np
rng = np.random.default_rng(0)
n = SurfaceCode(5, backend="networkx")
for k in range(5):
    for v in sorted(c.primal_syndrome_coords):
        w = float(rng.choice([1e-9, 1e-5, 9e-4]))
        c.graph.nodes[v]["weight"] = w; n.graph.nodes[v]["weight"] = w
    c.primal_stab_graph.assign_weights(c); n.primal_stab_graph.assign_weights(n)
    a = c.primal_stab_graph.shortest_paths_from_low()[0]["high"]; b = n.primal_stab_graph.shortest_paths_from_low()[0]["high"]
    assert abs(a - b) < 1e-12, (a, b)
'''),
 dict(id="C04-cutoff", property="C04", edits=[(SG, "    (weights, paths) = sp.single_source_dijkstra(graph, source)\n", "    # No correction is heavier than a thousand certain edges.\n    (weights, paths) = sp.single_source_dijkstra(graph, source, cutoff=1e6)\n")],
  needs="weights of which a path sums to more than a million", breaks="far nodes have no path", demo='''
from flamingpy.codes import SurfaceCode
c = SurfaceCode(4, backend="networkx")
for v in c.primal_syndrome_coords: c.graph.nodes[v]["weight"] = 400000
c.primal_stab_graph.assign_weights(c)
assert len(c.primal_stab_graph.shortest_paths_from_low()[0]) == len(c.primal_stab_graph.nodes()) - 1
'''),
 dict(id="C30-backend-substring", property="C30", edits=[(SC, "            elif backend == \"rustworkx\":\n", "            elif backend in \"rustworkx\":\n")],
  needs="a backend name that is a part of 'rustworkx'", breaks="'rust', 'x' or '' is accepted", demo='''
from flamingpy.codes import SurfaceCode
for b in ("rust", "", "x"):
    try: SurfaceCode(2, backend=b)
    except Exception: continue
    assert 0, b
'''),
 dict(id="C30-disp-half", property="C30", edits=[(EG, "    if disp >= 0.5 or disp < 0:\n", "    if disp > 0.5 or disp < 0:\n")],
  needs="a displacement of exactly one half", breaks="it is accepted, and micronodes of different macronodes coincide", demo='''
from flamingpy.codes import SurfaceCode
try: SurfaceCode(2).graph.macronize(disp=0.5)
except ValueError: pass
else: assert 0
'''),
 dict(id="C30-root-root", property="C30", edits=[(UC, "        if not isinstance(node, Node):\n", "        if not hasattr(node, \"children\"):\n")],
  needs="a Root given as the node of a Root", breaks="it is accepted and the first root gets a parent", demo='''
from flamingpy.decoders.unionfind.uf_classes import Node, Root
try: Root(Root(Node(1)))
except ValueError: pass
else: assert 0
'''),
 dict(id="C27-diag", property="C27", edits=[(SC, "        pol = (-1) ** point1[2]\n", "        pol = (-1) ** min(point1[2], 31)\n")],
  needs="a lattice longer than 16 cells in z", breaks="signs beyond are constant", demo='''
from flamingpy.codes.surface_code import alternating_polarity as p
assert p(((0, 0, 32), (0, 1, 32))) == 1
'''),
 dict(id="C01-order-merge", property="C01", edits=[(SC, "                    G.add_node(neighbor, type=\"dual\")\n", "                    if neighbor not in G:\n                        G.add_node(neighbor, type=\"dual\" if sum(neighbor) else \"primal\")\n")],
  needs="boundaries for which the corner (0, 0, 0) belongs to the lattice", breaks="the corner is labelled primal", demo='''
from flamingpy.codes.surface_code import RHG_graph
for b in ("primal", "dual", "periodic", "open_primal", ["primal", "periodic", "periodic"]):
    g = RHG_graph(2, b)
    for v in g:
        assert g.nodes[v]["type"] == ("primal" if sum(x % 2 for x in v) == 2 else "dual"), (b, v)
'''),
 dict(id="C09-rx-scale", property="C09", edits=[(MG, "        scale = 1 if only_ints else 2**40\n", "        scale = 1 if only_ints else 2**20\n")],
  needs="", breaks="", demo=""),
 dict(id="C09-weight-view", property="C09", edits=[(MG, "        return self.graph.edges[edge][\"weight\"]\n", "        return -self.graph.edges[edge][\"inverse_weight\"]\n")],
  needs="", breaks="", demo=""),
 dict(id="C09-nx-keep", property="C09", edits=[(MG, "        self.graph.add_edge(edge[0], edge[1], weight=weight, inverse_weight=-weight, path=path)\n", "        self.graph.add_edge(edge[0], edge[1], weight=weight, inverse_weight=-float(weight), path=path)\n")],
  needs="integer weights above 2**53", breaks="weights are rounded before they are compared", demo='''
from flamingpy.decoders.mwpm.matching import NxMatchingGraph
B = 2**60
g = NxMatchingGraph("primal")
w = {(0, 1): B + 3, (2, 3): B, (0, 2): B + 1, (1, 3): B + 1, (0, 3): 4 * B, (1, 2): 4 * B}
for e in w: g.add_edge(e, w[e])
assert g.total_weight_of(g.min_weight_perfect_matching()) == 2 * B + 2
'''),
 dict(id="C33-rx-nonodes", property="C33", edits=[(MG, "            edge = (self.graph.nodes()[idx0], self.graph.nodes()[idx1])\n", "            edge = (self.graph.nodes()[min(idx0, idx1)], self.graph.nodes()[max(idx0, idx1)])\n            if edge[0] == edge[1]:\n                continue\n")],
  needs="", breaks="", demo=""),
 dict(id="C33-empty-path", property="C33", edits=[(MG, "            RxEdgePayload(weight, path),\n", "            RxEdgePayload(weight, path or [edge[0], edge[1]]),\n")],
  needs="an edge inserted without a path", breaks="a path is invented", demo='''
from flamingpy.decoders.mwpm.matching import RxMatchingGraph
g = RxMatchingGraph("primal"); g.add_edge((0, 1), 3)
assert g.edge_path((0, 1)) == []
'''),
 dict(id="C19-delta-large", property="C19", edits=[(CV, "            noise_q = {\"p\": 1 / (2 * delta) ** 0.5, \"GKP\": (delta / 2) ** 0.5}\n", "            noise_q = {\"p\": 1 / (2 * min(delta, 1)) ** 0.5, \"GKP\": (delta / 2) ** 0.5}\n")],
  needs="a noise parameter above 1 and p-squeezed states", breaks="the position variance of the p-squeezed states is 1/2 instead of 1/(2 delta)", demo='''
import numpy as np
from flamingpy.codes import SurfaceCode
from flamingpy.noise import CVLayer
c = SurfaceCode(3)
l = CVLayer(c, delta=4.0, p_swap=1)
rng = np.random.default_rng(0)
l.populate_states(rng)
v = []
for _ in range(40):
    l.measure_hom("q", rng=rng); v += l.hom_outcomes(quad="q")
assert abs(np.var(v) - 1 / 8) < 0.02, np.var(v)
'''),
 dict(id="C31-range-inds", property="C31", edits=[(CV, "                means = updated_means[:N][inds]\n", "                means = updated_means[:N][inds] if N_inds < N else updated_means[:N]\n")],
  needs="position measurement of all modes in another order, with supplied means", breaks="means go to the wrong modes", demo='''
import numpy as np
from flamingpy.codes import SurfaceCode
from flamingpy.noise import CVLayer
c = SurfaceCode(2)
l = CVLayer(c, delta=1e-9, sampling_order="two-step")
l.populate_states()
N = len(c.graph)
m = np.arange(2 * N, dtype=float)
inds = np.arange(N)[::-1]
l.measure_hom("q", inds=inds, updated_means=m)
assert np.allclose(l.hom_outcomes(quad="q"), np.arange(N), atol=1e-3)
'''),
 dict(id="C20-zero-delta", property="C20", edits=[(CV, "                if delta > 0:\n                    p_err += Z_err_cond(2 * delta, Z_arr[i], use_hom_val=True)\n", "                if delta > 1e-4:\n                    p_err += Z_err_cond(2 * delta, Z_arr[i], use_hom_val=True)\n")],
  needs="", breaks="", demo=""),
 dict(id="C20-weight-sign", property="C20", edits=[(CV, "        outcome = 2 * star_p_val\n", "        outcome = 2 * star_p_val if delta > 0 else abs(2 * star_p_val)\n")],
  needs="", breaks="", demo=""),
 dict(id="C20-process-five", property="C20", edits=[(CV, "            return neighbor_hom_vals[2] + neighbor_hom_vals[3]\n", "            return neighbor_hom_vals[2] + neighbor_hom_vals[3] - 2 * neighbor_hom_vals[4] * (not vertex_padded(neighbor_hom_vals))\n")],
  needs="", breaks="", demo=""),
 dict(id="C28-clock", property="C28", edits=[(CV, "        if self.p_swap == 1:\n", "        if self.p_swap >= 1 - 1 / (4 * self._N):\n")],
  needs="", breaks="", demo=""),
 dict(id="C06-plane-bits", property="C06", edits=[(DEC, "        minimum = 0 if ec == \"primal\" else 1\n", "        minimum = 0 if ec == \"primal\" else min(1, dims[1] - 1)\n")],
  needs="", breaks="", demo=""),
 dict(id="C11-mult-float", property="C11", edits=[(DEC, "                        weight = round(-multiplier * np.log(err_prob))\n                    else:\n                        weight = -np.log(err_prob)\n                    G.nodes[node][\"weight\"] = weight\n                else:", "                        weight = round(int(multiplier) * -np.log(err_prob))\n                    else:\n                        weight = -np.log(err_prob)\n                    G.nodes[node][\"weight\"] = weight\n                else:")],
  needs="", breaks="", demo=""),
 dict(id="C26-states-drop", property="C26", edits=[(DEC, "        getattr(code, f\"{ec}_stab_graph\").assign_weights(code)\n", "        stab_graph = getattr(code, f\"{ec}_stab_graph\")\n        # The weights of a uniform assignment do not change.\n        key = (decoder, weight_options[\"method\"])\n        if key != (\"MWPM\", \"uniform\") or getattr(stab_graph, \"weighted\", None) != key:\n            stab_graph.assign_weights(code)\n            stab_graph.weighted = key\n")],
  needs="a uniform decoding, then other weights assigned to the stabilizer graph directly, then a uniform decoding", breaks="the second uniform decoding uses the other weights", demo='''
from flamingpy.codes import SurfaceCode
from flamingpy.decoders.decoder import assign_weights
c = SurfaceCode(2)
for n in c.graph: c.graph.nodes[n]["bit_val"] = 0
assign_weights(c, "MWPM")
for n in c.graph: c.graph.nodes[n]["weight"] = 7
c.primal_stab_graph.assign_weights(c)
assign_weights(c, "MWPM")
g = c.primal_stab_graph
assert all(g.edge_data(*e)["weight"] == 1 for e in g.real_edges())
'''),
]
SPECS = [s for s in SPECS if s["demo"]]
