SC = "flamingpy/codes/surface_code.py"
SG = "flamingpy/codes/graphs/stabilizer_graph.py"
EG = "flamingpy/codes/graphs/egraph.py"
LA = "flamingpy/utils/linalg.py"
AL = "flamingpy/decoders/mwpm/algos.py"
MA = "flamingpy/decoders/mwpm/matching.py"
UA = "flamingpy/decoders/unionfind/algos.py"
UC = "flamingpy/decoders/unionfind/uf_classes.py"
DE = "flamingpy/decoders/decoder.py"
CV = "flamingpy/noise/cv.py"
GK = "flamingpy/cv/gkp.py"
OP = "flamingpy/cv/ops.py"
VZ = "flamingpy/utils/viz.py"

SPECS = [
 dict(id="C11-or-weight", property="C11", edits=[(SG, "                data[\"weight\"] = code.graph.nodes[data[\"common_vertex\"]].get(\"weight\")\n", "                data[\"weight\"] = code.graph.nodes[data[\"common_vertex\"]].get(\"weight\") or 1\n")],
  needs="a qubit of weight 0 (integer blueprint weights with a small multiplier)", breaks="the edges of such qubits weigh 1", demo='''
from flamingpy.codes import SurfaceCode
from flamingpy.decoders.decoder import assign_weights
c = SurfaceCode(2)
for q in c.graph: c.graph.nodes[q].update(state="GKP", p_phase_cond=.5, bit_val=0)
assign_weights(c, "MWPM", method="blueprint", integer=True, multiplier=.1, prob_precomputed=True)
g = c.primal_stab_graph
assert all(g.edge_data(*e)["weight"] == c.graph.nodes[g.edge_data(*e)["common_vertex"]]["weight"] == 0 for e in g.real_edges())
'''),
 dict(id="C16-block-sym", property="C16", edits=[(OP, "            block2 = (adj.dot(c1.T)).T + c2\n", "            block2 = adj.dot(c1).T + c2\n")],
  needs="block mode on a matrix whose position block is not symmetric", breaks="the upper right block uses the transposed positions", demo='''
import numpy as np
from flamingpy.cv.ops import SCZ_apply, SCZ_mat
rng = np.random.default_rng(0)
a = np.triu(rng.integers(0, 2, (4, 4)), 1); a = a + a.T
m = rng.normal(size=(8, 8))
s = SCZ_mat(a)
assert np.allclose(SCZ_apply(a, m, one_shot=False), s @ m @ s.T)
'''),
 dict(id="C18-bin-array", property="C18", edits=[(GK, "            error[is_0] = np.broadcast_to(np.abs(frac) / np.sqrt(np.pi), is_0.shape)[is_0]\n", "            error[is_0] = np.broadcast_to(np.abs(frac) / np.sqrt(np.pi), is_0.shape)[: np.sum(is_0)]\n")],
  needs="an array of outcomes of which some but not the first are undefined, with replace_undefined='bin_location'", breaks="the replaced probabilities are those of the first outcomes", demo='''
import numpy as np
from flamingpy.cv.gkp import Z_err_cond
v = np.array([.5, 1e-9, 1e-9])
h = np.array([.1, .3, .8])
r = Z_err_cond(v, h, replace_undefined="bin_location")
assert np.isclose(r[1], .3 / np.pi ** .5) and np.isclose(r[2], .8 / np.pi ** .5)
'''),
 dict(id="C12-slice-memo", property="C12", edits=[(EG, "        coords = [point for point in self.nodes if point[plane_ind] == number]\n        return coords\n", "        memo = self.__dict__.setdefault(\"_slices\", {})\n        key = (plane_ind, number, len(self))\n        if key not in memo:\n            memo[key] = [point for point in self.nodes if point[plane_ind] == number]\n        return list(memo[key])\n")],
  needs="a slice query, then a removal and an addition that leave as many qubits as before, then the same query", breaks="the slice is that of the old graph", demo='''
from flamingpy.codes.graphs import EGraph
g = EGraph()
g.add_nodes_from([(0, 0, 0), (1, 0, 0), (2, 0, 0)])
assert len(g.slice_coords("y", 0)) == 3
g.remove_qubit((1, 0, 0))
g.add_qubit((1, 1, 0))
assert set(g.slice_coords("y", 0)) == {(0, 0, 0), (2, 0, 0)}
'''),
 dict(id="C26-syndrome-memo", property="C26", edits=[(AL, "    matching_graph = build_match_graph(code, ec, backend)\n    matching = matching_graph.min_weight_perfect_matching()\n", "    odd = frozenset(stab_graph.odd_parity_stabilizers())\n    memo = stab_graph.__dict__.setdefault(\"_decoded\", {})\n    weights = sum(stab_graph.edge_data(*edge)[\"weight\"] for edge in stab_graph.edges())\n    if (odd, backend, weights) in memo and not draw:\n        return set(memo[odd, backend, weights])\n    matching_graph = build_match_graph(code, ec, backend)\n    matching = matching_graph.min_weight_perfect_matching()\n"),
   (AL, "                qubits_to_flip ^= {common_vertex}\n    return qubits_to_flip\n", "                qubits_to_flip ^= {common_vertex}\n    memo[odd, backend, weights] = set(qubits_to_flip)\n    return qubits_to_flip\n")],
  needs="one code decoded twice with the same syndrome and weights that are permuted in between", breaks="the second decoding returns the first correction, which is not of minimum weight any more", demo='''
import numpy as np
from flamingpy.codes import SurfaceCode
from flamingpy.decoders import mwpm_decoder
rng = np.random.default_rng(0)
c = SurfaceCode(3)
qs = sorted(c.primal_syndrome_coords)
ws = list(range(1, len(qs) + 1))
for t in range(5):
    for q in c.graph: c.graph.nodes[q]["bit_val"] = 0
    c.graph.nodes[qs[10]]["bit_val"] = c.graph.nodes[qs[20]]["bit_val"] = 1
    rng.shuffle(ws)
    for q, w in zip(qs, ws): c.graph.nodes[q]["weight"] = w
    c.primal_stab_graph.assign_weights(c)
    got = sum(c.graph.nodes[q]["weight"] for q in mwpm_decoder(c, "primal"))
    f = SurfaceCode(3)
    for q in f.graph: f.graph.nodes[q].update(c.graph.nodes[q])
    f.primal_stab_graph.assign_weights(f)
    assert got == sum(f.graph.nodes[q]["weight"] for q in mwpm_decoder(f, "primal"))
'''),
 dict(id="C19-p-zero", property="C19", edits=[(CV, "        if self.p_swap:\n            self._generate_squeezed_indices(rng)\n", "        if self.p_swap:\n            self._generate_squeezed_indices(rng)\n            if not len(self.states[\"p\"]):\n                # at least one swap-out, or the sample tells nothing about p_swap\n                self._generate_squeezed_indices(rng)\n")],
  needs="a small swap-out probability or a small graph, so that drawing no swap-out at all is likely", breaks="samples without any swap-out are drawn a second time, so swap-outs are more frequent than requested", demo='''
import numpy as np
from flamingpy.codes.graphs import EGraph
from flamingpy.noise import CVLayer
g = EGraph()
g.add_nodes_from((i, 0, 0) for i in range(4))
n = CVLayer(g, delta=.1, p_swap=.1)
rng = np.random.default_rng(1)
tot = 0
for t in range(4000):
    n.populate_states(rng)
    tot += len(n.p_inds)
assert abs(tot - 1600) < 200, tot
'''),
 dict(id="C19-init-covs", property="C19", edits=[(CV, "            for state, indices in self.states.items():\n                if self._perfect_inds:\n", "            for state, indices in sorted(self.states.items(), reverse=self._N > 150):\n                if self._perfect_inds:\n")],
  needs="", breaks="", demo=''),
 dict(id="C29-compress", property="C29", edits=[(UC, "        node.children = node.children.union(traversed_nodes)\n", "        node.children = node.children.union(traversed_nodes) if len(traversed_nodes) < 3 else traversed_nodes\n")],
  needs="a tree of depth four or more whose root has other children, and a root query from the bottom", breaks="path compression drops the other children of the root", demo='''
from flamingpy.decoders.unionfind.uf_classes import Node, Root
from flamingpy.decoders.unionfind.algos import union
ns = [Node(i) for i in range(40)]
rs = [Root(n, parity=0) for n in ns]
def merge(a, b): union(ns[a].parent if isinstance(ns[a].parent, Root) else ns[a].find_root(), rs[b])
# binomial trees: depth grows by one each time equal sizes merge
step = 1
while step < 32:
    for k in range(0, 32, 2 * step): union(rs[k], rs[k + step])
    step *= 2
deep = ns[31]
deep.find_root()
def count(n): return 1 + sum(count(c) for c in n.children)
assert count(rs[0].node) == 32 == rs[0].size
'''),
 dict(id="C20-neighbor-last", property="C20", edits=[(CV, "            ith_neighbor = list(macro_graph[ith_vertex])[0]\n", "            ith_neighbor = sorted(macro_graph[ith_vertex], key=lambda v: macro_graph.nodes[v][\"body_index\"])[0]\n            if macro_graph.nodes[ith_neighbor][\"state\"] == macro_graph.nodes[ith_vertex][\"state\"] == \"p\" and i == 4:\n                return None\n")],
  needs="two adjacent p-squeezed micronodes, one of them the last of its macronode", breaks="the outcome of that neighbour is left out of the reduced outcome", demo='''
import numpy as np
from flamingpy.codes import SurfaceCode
from flamingpy.noise import CVMacroLayer
rng = np.random.default_rng(0)
c = SurfaceCode(3)
for t in range(30):
    n = CVMacroLayer(c, delta=1e-9, p_swap=.35)
    n.apply_noise(rng)
    if any(c.graph.nodes[v]["state"] == "p" for v in c.graph): continue
    assert not any(s.parity for s in c.primal_stabilizers)
n = CVMacroLayer(c, delta=1e-9)
g = n.egraph
n.states["p"] = np.array([n.egraph.to_indices[m] for ms in g.macro_to_micro.values() for m in ms[1:]])
n.apply_noise(rng)
assert not any(s.parity for s in c.primal_stabilizers)
'''),
 dict(id="C13-pad-far", property="C13", edits=[(EG, "                    new_node[i] = new_node[i] + disp / 2\n", "                    new_node[i] = new_node[i] + (disp / 2 if n_new < 3 else disp)\n")],
  needs="padding of a macronode with a single neighbour, in the direction of a padding qubit", breaks="the padding qubit takes the position of a micronode and the macronode stays smaller than four", demo='''
from flamingpy.codes.graphs import EGraph
for v in ((1, 0, 0), (0, 1, 0), (0, 0, 1), (-1, 0, 0)):
    g = EGraph()
    g.add_edge((0, 0, 0), v)
    m = g.macronize(pad_boundary=True)
    assert len(m) == 8 and all(len(set(x)) == 4 for x in m.macro_to_micro.values())
'''),
 dict(id="C31-dup", property="C31", edits=[(CV, "        # Conduct the sample\n        outcomes = rng.normal(means, covs)\n", "        # Conduct the sample\n        outcomes = rng.normal(means, covs)\n        if len(outcomes) > 2 * N - 2:\n            # one draw decides the common offset of a full readout\n            outcomes[-1] = outcomes[-2] if N > 6 else outcomes[-1]\n")],
  needs="a graph of more than six modes and statistics over the last two modes", breaks="the last mode copies the noise of the one before", demo='''
import numpy as np
from flamingpy.codes.graphs import EGraph
from flamingpy.noise import CVLayer
g = EGraph()
g.add_nodes_from((i, 0, 0) for i in range(8))
n = CVLayer(g, delta=.1)
rng = np.random.default_rng(0)
n.populate_states(rng)
n.measure_hom("p", rng=rng)
x = n.hom_outcomes()
assert len(set(x)) == 8
'''),
 dict(id="C24-dup-edge", property="C24", edits=[(VZ, "def _get_node_color(egraph, node, color_nodes):\n", "def _get_node_color(egraph, node, color_nodes):\n    egraph.nodes[node].setdefault(\"color\", None)\n")],
  needs="", breaks="", demo=''),
 dict(id="C05-zero-parity", property="C05", edits=[(UA, "        if nb_odd_nodes % 2:\n            parity_dict[boundary_node] = 1\n", "        if nb_odd_nodes % 2 or nb_odd_nodes > 7:\n            parity_dict[boundary_node] = 1\n")],
  needs="a union-find cluster at the boundary with eight or more defects, an even number", breaks="the boundary node is given a defect that nothing matches, so one stabilizer stays unsatisfied", demo='''
import numpy as np
from flamingpy.codes import SurfaceCode
from flamingpy.decoders.decoder import correct
rng = np.random.default_rng(0)
c = SurfaceCode((4, 4, 4))
for t in range(300):
    for q in c.graph: c.graph.nodes[q].update(bit_val=int(rng.random() < .12), state="GKP")
    correct(c, decoder="UF")
    assert not any(s.parity for s in c.primal_stabilizers)
'''),
 dict(id="C10-erased-root", property="C10", edits=[(UA, "        if cluster_root.parity and not cluster_root.boundary:\n", "        if (cluster_root.parity or len(component) > 5) and not cluster_root.boundary:\n")],
  needs="an erasure of seven or more stabilizers with an even syndrome, next to other errors", breaks="a large even cluster is grown once although it is neutral", demo='''
import numpy as np
from flamingpy.codes import SurfaceCode
from flamingpy.decoders.decoder import assign_weights
from flamingpy.decoders.unionfind import uf_decoder
rng = np.random.default_rng(0)
c = SurfaceCode((4, 5, 5))
g = c.primal_stab_graph
qs = sorted(c.primal_syndrome_coords)
bad = 0
for t in range(300):
    for q in c.graph: c.graph.nodes[q].update(bit_val=0, state="GKP")
    er = [q for q in qs if abs(q[0] - 3) <= 1 and abs(q[1] - 4) <= 3 and abs(q[2] - 4) <= 3 and q[0] in (3,)]
    er = [er[k] for k in rng.choice(len(er), min(len(er), 14), replace=False)]
    assign_weights(c, "UF")
    for q in er: c.graph.nodes[q].update(weight=-1, bit_val=int(rng.random() < .5))
    g.assign_weights(c)
    bad += not uf_decoder(c, "primal") <= set(er)
assert bad == 0, bad
'''),
 dict(id="C08-tie-low", property="C08", edits=[(MA, "            where_shortest = np.argmin(distances)\n", "            where_shortest = np.argmin(distances) if min(distances) > 0 else np.argmax(distances)\n")],
  needs="a defect joined to a boundary by qubits of weight zero only", breaks="the defect is matched to the other boundary, at a higher weight", demo='''
import numpy as np
from flamingpy.codes import SurfaceCode
from flamingpy.decoders import mwpm_decoder
c = SurfaceCode(3)
qs = sorted(c.primal_syndrome_coords)
for q in c.graph: c.graph.nodes[q].update(bit_val=0, weight=3)
e = min(qs)
c.graph.nodes[e].update(bit_val=1, weight=0)
c.primal_stab_graph.assign_weights(c)
assert mwpm_decoder(c, "primal") == {e}
'''),
 dict(id="C03-terminal-dup", property="C03", edits=[(SG, "            self.add_high_bound_points(bound_points[mid:])\n", "            self.add_high_bound_points([p for p in bound_points[mid:] if len(bound_points) < 60 or p[2] < 2 * code.dims[2]])\n")],
  needs="", breaks="", demo=''),
]
SPECS = [s for s in SPECS if s["demo"]]
