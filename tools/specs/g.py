SC = "flamingpy/codes/surface_code.py"
SG = "flamingpy/codes/graphs/stabilizer_graph.py"
EG = "flamingpy/codes/graphs/egraph.py"
ST = "flamingpy/codes/stabilizer.py"
DE = "flamingpy/decoders/decoder.py"
MA = "flamingpy/decoders/mwpm/matching.py"
AL = "flamingpy/decoders/mwpm/algos.py"
UA = "flamingpy/decoders/unionfind/algos.py"
UC = "flamingpy/decoders/unionfind/uf_classes.py"
CV = "flamingpy/noise/cv.py"
II = "flamingpy/noise/iid.py"
SI = "flamingpy/simulations.py"
GS = "flamingpy/utils/graph_states.py"
LA = "flamingpy/utils/linalg.py"
OP = "flamingpy/cv/ops.py"
GK = "flamingpy/cv/gkp.py"
VZ = "flamingpy/utils/viz.py"

SPECS = [
 dict(id="C04-to-nx-zero", property="C04", edits=[(SG, '            if "weight" in self.edge_data(*edge):\n', '            if self.edge_data(*edge).get("weight"):\n')],
  needs="an edge of weight 0 (the terminals, or a qubit with weight 0) and a conversion to networkx", breaks="zero weights are lost in to_nx(), so shortest paths see weight 1 there",
  demo='''
from flamingpy.codes import SurfaceCode
from flamingpy.decoders.decoder import assign_weights
c = SurfaceCode(3)
assign_weights(c, "MWPM")
g = c.primal_stab_graph
a = g.shortest_paths_from_low()[0]
b = g.to_nx().shortest_paths_from_low()[0]
for k in b:
    assert a[k] == b[k], (k, a[k], b[k])
'''),
 dict(id="C04-cutoff", property="C04", edits=[(SG, "    (weights, paths) = sp.single_source_dijkstra(graph, source)\n", "    (weights, paths) = sp.single_source_dijkstra(graph, source, cutoff=100)\n")],
  needs="networkx stabilizer graph whose total path weight exceeds one hundred (integer weights with a multiplier, or long lattices)", breaks="nodes farther than one hundred are missing from the shortest paths",
  demo='''
from flamingpy.codes import SurfaceCode
c = SurfaceCode(3, backend="networkx")
for n in c.graph: c.graph.nodes[n].update(bit_val=0, weight=70)
g = c.primal_stab_graph
g.assign_weights(c)
n = len(g.nodes()) - 1
assert len(g.shortest_paths_from_low()[0]) == n
'''),
 dict(id="C09-lemon-odd", property="C09", edits=[("flamingpy/decoders/mwpm/lemon.py", "LEMONODD", "LEMONODD")], needs="", breaks="", demo=""),
 dict(id="C12-sorted-neighbors", property="C12", edits=[(EG, "            if qubit in macro_dict[k]:\n                macro_dict[k].remove(qubit)\n", "            if qubit in macro_dict[k]:\n                macro_dict[k] = macro_dict[k][:-1] if len(macro_dict[k]) == 2 else [q for q in macro_dict[k] if q != qubit]\n")],
  needs="the first of the last two micronodes of a macronode is removed", breaks="the macronode dictionary keeps the removed micronode and loses the other one",
  demo='''
from flamingpy.codes import SurfaceCode
g = SurfaceCode(2, boundaries="periodic").graph.macronize()
k = sorted(g.macro_to_micro)[0]
for q in list(g.macro_to_micro[k])[:3]:
    g.remove_qubit(q)
assert all(q in g for v in g.macro_to_micro.values() for q in v)
'''),
 dict(id="C12-micro-key", property="C12", edits=[(EG, "            macronode = tuple(round(i) for i in qubit)\n", "            macronode = tuple(int(i + 0.5) for i in qubit)\n")],
  needs="a micronode added at a negative coordinate", breaks="the micronode is listed under the wrong macronode",
  demo='''
from flamingpy.codes import SurfaceCode
g = SurfaceCode(2, boundaries="periodic").graph.macronize()
g.add_qubit((-0.9, 0, 0), add_to_macronode=True)
assert (-0.9, 0, 0) in g.macro_to_micro.get((-1, 0, 0), []), [k for k, v in g.macro_to_micro.items() if (-0.9, 0, 0) in v]
'''),
 dict(id="C31-hom-none", property="C31", edits=[(CV, '        outcomes = [self.egraph.nodes[self._to_points[i]].get("hom_val_" + quad) for i in inds]\n', '        outcomes = [self.egraph.nodes[self._to_points[i]].get("hom_val_" + quad) for i in inds]\n        if None in outcomes:\n            outcomes = [0 if x is None else x for x in outcomes]\n')],
  needs="outcomes read back for modes of which some have not been measured", breaks="a mode that was never measured reports the outcome 0",
  demo='''
from flamingpy.codes import SurfaceCode
from flamingpy.noise import CVLayer
n = CVLayer(SurfaceCode(2), delta=.1)
n.populate_states()
n.measure_hom("p", [2, 5])
assert n.hom_outcomes([1, 2])[0] is None
'''),
 dict(id="C31-updated-q", property="C31", edits=[(CV, "            if quad == \"q\":\n                means = updated_means[:N][inds]\n            if quad == \"p\":\n                means = updated_means[N:][inds]\n", "            means = np.take(updated_means, inds if quad == \"q\" else np.array(inds) - N, axis=0, mode=\"wrap\")\n")],
  needs="", breaks="", demo=""),
 dict(id="C19-perfect-p", property="C19", edits=[(CV, "                    covs[indices + self._N] = noise_p[state]\n", "                    covs[indices + self._N] = noise_p[state]\n            if self._perfect_inds and len(self.states[\"p\"]) == self._N:\n                covs[self._N + np.array(self._perfect_inds)] = noise_p[\"p\"]\n")],
  needs="perfect qubits in a lattice in which every state is p-squeezed (initial order)", breaks="perfect qubits are noisy",
  demo='''
import numpy as np
from flamingpy.codes import SurfaceCode
from flamingpy.noise import CVLayer
c = SurfaceCode(2)
pts = sorted(c.graph)
c.graph.graph["perfect_points"] = pts
n = CVLayer(c, delta=.1, p_swap=1)
n.populate_states(); n.measure_hom("p")
assert not any(n.hom_outcomes())
'''),
 dict(id="C20-odds-two", property="C20", edits=[(CV, "ODDS", "ODDS")], needs="", breaks="", demo=""),
 dict(id="C22-trials-float", property="C22", edits=[(SI, "            local_successes[0] += result\n", "            local_successes[0] = local_successes[0] + result if i else result\n")],
  needs="", breaks="", demo=""),
 dict(id="C11-zero-weights", property="C11", edits=[(DE, "                    if err_prob == 0:\n                        err_prob = smallest_number\n", "                    err_prob = max(err_prob, 1e-12)\n")],
  needs="an error probability between zero and 1e-12", breaks="small error probabilities all get the same weight",
  demo='''
import numpy as np
from flamingpy.codes import SurfaceCode
from flamingpy.decoders.decoder import assign_weights
c = SurfaceCode(2)
for n in c.graph: c.graph.nodes[n].update(state="GKP", p_phase_cond=1e-20, bit_val=0)
assign_weights(c, "MWPM", method="blueprint", prob_precomputed=True)
assert all(np.isclose(c.graph.nodes[q]["weight"], -np.log(1e-20)) for q in c.primal_syndrome_coords)
'''),
 dict(id="C11-integer-erasure", property="C11", edits=[(DE, "                    weight_dict = {2: 1 / 4, 3: 1 / 3, 4: 2 / 5}\n                    err_prob = weight_dict[p_count]\n                    if weight_options.get(\"integer\"):\n                        multiplier = weight_options.get(\"multiplier\")\n                        weight = round(-multiplier * np.log(err_prob))\n", "                    weight_dict = {2: 1 / 4, 3: 1 / 3, 4: 2 / 5}\n                    err_prob = weight_dict[p_count]\n                    if weight_options.get(\"integer\"):\n                        multiplier = weight_options.get(\"multiplier\")\n                        weight = int(-multiplier * np.log(err_prob))\n")],
  needs="blueprint weights in integer mode on a qubit with two or more p-squeezed neighbours and a multiplier for which rounding and truncation differ", breaks="the weight is truncated instead of rounded",
  demo='''
import numpy as np
from flamingpy.codes import SurfaceCode
from flamingpy.decoders.decoder import assign_weights
c = SurfaceCode(3, boundaries="periodic")
for n in c.graph: c.graph.nodes[n].update(state="p", p_phase_cond=.1, bit_val=0)
assign_weights(c, "MWPM", method="blueprint", prob_precomputed=True, integer=True, multiplier=1)
assert {c.graph.nodes[q]["weight"] for q in c.primal_syndrome_coords} == {round(-np.log(.4))}
'''),
 dict(id="C06-dual-periodic", property="C06", edits=[(DE, '        minimum = 0 if ec == "primal" else 1\n', '        minimum = 0 if ec == "primal" or code.bound_str == "periodic_primal" else 1\n')],
  needs="a dual toric code with a logical error", breaks="the wrong planes are checked, so every logical error is reported as success",
  demo='''
from flamingpy.codes import SurfaceCode
from flamingpy.decoders.decoder import check_correction
c = SurfaceCode(3, ec="dual", boundaries="toric")
for n in c.graph: c.graph.nodes[n]["bit_val"] = 0
line = [q for q in c.dual_syndrome_coords if q[1] == 2 and q[2] == 2]
for q in line: c.graph.nodes[q]["bit_val"] = 1
assert not any(s.parity for s in c.dual_stabilizers), line
assert not all(check_correction(c))
'''),
 dict(id="C06-toric-y", property="C06", edits=[(DE, 'planes_to_check = ["x", "y"]', 'planes_to_check = ["x", "y"] if dims[0] <= dims[1] else ["x", "x"]')],
  needs="a toric code longer in x than in y with a logical error along y", breaks="a logical error along the y axis is reported as success",
  demo='''
from flamingpy.codes import SurfaceCode
from flamingpy.decoders.decoder import check_correction
c = SurfaceCode((4, 3, 2), boundaries="toric")
for n in c.graph: c.graph.nodes[n]["bit_val"] = 0
line = [q for q in c.primal_syndrome_coords if q[0] == 1 and q[2] == 1]
for q in line: c.graph.nodes[q]["bit_val"] = 1
assert not any(s.parity for s in c.primal_stabilizers), line
assert not all(check_correction(c))
'''),
 dict(id="C10-erased-boundary", property="C10", edits=[(UA, '                if parity == 1:\n                    nb_odd_nodes += 1\n        if nb_odd_nodes % 2:\n            parity_dict[boundary_node] = 1\n', '                if parity == 1:\n                    nb_odd_nodes += 1\n        if nb_odd_nodes % 2 and boundary_node is not None:\n            ends = [n for n in tree if isinstance(spanning_forest_nodes[n], tuple)]\n            parity_dict[max(ends, key=spanning_forest.degree)] = 1\n')],
  needs="", breaks="", demo=""),
 dict(id="C29-boundary-first", property="C29", edits=[(UA, "        if small_root.boundary:\n            big_root.boundary = small_root.boundary\n", "        if small_root.boundary and big_root.parity:\n            big_root.boundary = small_root.boundary\n")],
  needs="an even cluster that takes in a smaller boundary cluster and later becomes odd", breaks="a cluster on the boundary is not known to touch it, so it grows on instead of stopping there",
  demo='''
from flamingpy.decoders.unionfind.algos import union
from flamingpy.decoders.unionfind.uf_classes import Node, Root
n = [Node(i) for i in range(3)]
a, b, c = Root(n[0], 1), Root(n[1], 1), Root(n[2], "boundary")
union(a, b); union(a, c)
assert a.boundary is n[2]
'''),
 dict(id="C27-third", property="C27", edits=[(SC, "        pol = (-1) ** point1[0]\n", "        pol = (-1) ** point1[1]\n")],
  needs="", breaks="", demo=""),
 dict(id="C07-low-bias", property="C07", edits=[(MA, "            where_shortest = np.argmin(distances)\n", "            where_shortest = np.argmin(distances) if i < 2 else 0\n")],
  needs="three or more defects, the third or later of which is nearer to the high boundary", breaks="later defects are always matched to the low boundary, so correctable errors near the high one become logical errors",
  demo='''
import itertools
from flamingpy.codes import SurfaceCode
from flamingpy.decoders.decoder import correct
c = SurfaceCode((7, 7, 3), boundaries="open")
hi = sorted(q for q in c.primal_bound_points if q[0] > 0)
for a in itertools.combinations(hi[::4], 3):
    for n in c.graph: c.graph.nodes[n]["bit_val"] = int(n in a)
    assert correct(c, "MWPM"), a
'''),
 dict(id="C28-set-choice", property="C28", edits=[(CV, "            inds = rng.choice(range(self._N), size=int(np.floor(num_p)), replace=False)\n", "            inds = default_rng(num_p).choice(range(self._N), size=int(np.floor(num_p)), replace=False)\n")],
  needs="", breaks="", demo=""),
 dict(id="C23-zero-errors", property="C23", edits=[(SI, '        simulation_time = "%f" % (simulation_stop_time - simulation_start_time)\n', '        simulation_time = "%f" % (simulation_stop_time - simulation_start_time) if errors else ""\n')],
  needs="a simulation without a single failed trial", breaks="the record has no run time",
  demo='''
import csv, os, tempfile
from flamingpy.codes import SurfaceCode
from flamingpy.noise import IidNoise
from flamingpy.simulations import run_ec_simulation
d = tempfile.mkdtemp()
f = os.path.join(d, "r.csv")
run_ec_simulation(2, SurfaceCode, {"distance": 2}, IidNoise, {"error_probability": 0.0}, "MWPM", {"weight_opts": {}}, f)
rows = list(csv.DictReader(open(f)))
os.remove(f); os.rmdir(d)
assert float(rows[0]["simulation_time"]) >= 0
'''),
 dict(id="C24-label-zero", property="C24", edits=[(VZ, "            if value is not None:\n", "            if value is not None and (isinstance(value, (int, str)) or np.any(value)):\n")],
  needs="labels of a float attribute, with a value of exactly zero", breaks="no label is drawn at the qubit, and it is not counted as missing either way",
  demo='''
import matplotlib; matplotlib.use("Agg")
from flamingpy.codes import SurfaceCode
g = SurfaceCode(2).graph
for n in g: g.nodes[n]["p_phase_cond"] = 0.0
fig, ax = g.draw(label="p_phase_cond")
assert len(ax.texts) == len(g), len(ax.texts)
'''),
 dict(id="C24-cube-gap", property="C24", edits=[(VZ, "        sizes.append(np.abs(max_arr - min_arr) - 2 * gap)\n", "        sizes.append(np.minimum(np.abs(max_arr - min_arr), 2) - 2 * gap)\n")],
  needs="", breaks="", demo=""),
 dict(id="C16-sparse-diag", property="C16", edits=[(OP, "            new_quads = SCZ_mat(adj).dot(quads)\n", "            new_quads = SCZ_mat(adj).astype(np.int32).dot(quads)\n")],
  needs="an adjacency matrix with fractional weights", breaks="the weights are truncated to integers before the CZ gates are applied",
  demo='''
import numpy as np
from flamingpy.cv.ops import SCZ_apply
a = np.array([[0, .5], [.5, 0]])
assert np.allclose(SCZ_apply(a, np.array([1., 2, 3, 4])), [1, 2, 4, 4.5])
'''),
 dict(id="C17-fraction-scalar", property="C17", edits=[(GK, "    large_frac = np.greater(int_frac[1], alpha / 2).astype(int)\n", "    large_frac = np.greater(int_frac[1], alpha * 0.5000001).astype(int)\n")],
  needs="an outcome just above the edge of its bin", breaks="outcomes within a ten-millionth of a bin above the edge are put into the wrong bin",
  demo='''
import numpy as np
from flamingpy.cv.gkp import integer_fractional
n, f = integer_fractional(np.array([.50000005]), 1.0)
assert abs(f[0]) <= .5, f
'''),
 dict(id="C18-zerr-pair", property="C18", edits=[(GK, "    n_max = int(np.ceil(var_num * np.amax(var)) // 2 * 4 + 1)\n", "    n_max = int(np.ceil(var_num * np.amin(var)) // 2 * 4 + 1)\n")],
  needs="an array of variances of very different size", breaks="too few bins are summed for the larger variances",
  demo='''
import numpy as np
from flamingpy.cv.gkp import Z_err
a = Z_err(np.array([.01, 3.]))
b = Z_err(np.array([3.]))
assert np.allclose(a[1], b[0]), (a, b)
'''),
 dict(id="C26-parity-cache", property="C26", edits=[(ST, '        bit_vals = [self.egraph.nodes[node]["bit_val"] for node in self.egraph]\n', '        if not hasattr(self, "_data"):\n            self._data = [self.egraph.nodes[node] for node in self.egraph]\n        bit_vals = [data["bit_val"] for data in self._data]\n')],
  needs="", breaks="", demo=""),
 dict(id="C25-linear-neg", property="C25", edits=[(GS, "        for i in range(n - 1):\n            edge = [(i, 0, 0), (i + 1, 0, 0)]\n", "        for i in range(n - 1):\n            edge = [(np.int8(i).item() if i < 300 else i, 0, 0), (i + 1, 0, 0)]\n")],
  needs="", breaks="", demo=""),
 dict(id="C21-perfect", property="C21", edits=[(II, '            node_data["bit_val"] = int(rng.random() < self.error_probability)\n', '            if "bit_val" not in node_data or self.error_probability > 0:\n                node_data["bit_val"] = int(rng.random() < self.error_probability)\n')],
  needs="error probability zero on a code that already carries bit values", breaks="the flips of an earlier noise application stay",
  demo='''
from flamingpy.codes import SurfaceCode
from flamingpy.noise import IidNoise
c = SurfaceCode(2)
IidNoise(c, 1.0).apply_noise()
IidNoise(c, 0.0).apply_noise()
assert not any(c.graph.nodes[n]["bit_val"] for n in c.graph)
'''),
 dict(id="C30-neg-prob", property="C30", edits=[(II, "        if error_probability < 0.0 or error_probability > 1.0:\n", "        if abs(error_probability) > 1.0:\n")],
  needs="", breaks="", demo=""),
 dict(id="C14-asym-size", property="C14", edits=[(LA, "    if np.shape(G) != np.shape(H):\n", "    if np.shape(G) > np.shape(H):\n")],
  needs="a pair of graphs of which the second is larger", breaks="the comparison raises or answers for the wrong subsystem",
  demo='''
from flamingpy.utils.graph_states import star_graph
yes, c = star_graph(2).is_lc_equivalent(star_graph(5))
assert not yes and c is None
'''),
 dict(id="C13-edge-attr", property="C13", edits=[(EG, "        macro_graph.add_edge(new_point_1, new_point_2, **can_graph.edges[edge])\n", "        macro_graph.add_edge(new_point_1, new_point_2, weight=can_graph.edges[edge].get(\"weight\", 1))\n")],
  needs="edge attributes other than the weight (the periodic marks)", breaks="edge attributes such as the periodic mark are lost",
  demo='''
from flamingpy.codes import SurfaceCode
g = SurfaceCode(2, boundaries="periodic").graph
n = sum(bool(d.get("periodic")) for _, _, d in g.edges(data=True))
assert n == sum(bool(d.get("periodic")) for _, _, d in g.macronize().edges(data=True))
'''),
]
SPECS = [s for s in SPECS if s["demo"]]
