SC = "flamingpy/codes/surface_code.py"
SG = "flamingpy/codes/graphs/stabilizer_graph.py"
EG = "flamingpy/codes/graphs/egraph.py"
ST = "flamingpy/codes/stabilizer.py"
DE = "flamingpy/decoders/decoder.py"
MA = "flamingpy/decoders/mwpm/matching.py"
UA = "flamingpy/decoders/unionfind/algos.py"
UC = "flamingpy/decoders/unionfind/uf_classes.py"
CV = "flamingpy/noise/cv.py"
II = "flamingpy/noise/iid.py"
SI = "flamingpy/simulations.py"
GS = "flamingpy/utils/graph_states.py"
LA = "flamingpy/utils/linalg.py"
OP = "flamingpy/cv/ops.py"
GK = "flamingpy/cv/gkp.py"
VZ = "flamingpy/utils/viz.py"

SPECS = [
 dict(id="C01-zero-weight", property="C01", edits=[(SC, "                    edge = (vertex, neighbor)\n                    weight = polarity(edge) if polarity else 1\n", "                    edge = (vertex, neighbor)\n                    weight = (polarity and polarity(edge)) or 1\n")],
  needs="a polarity function that returns 0 for some edge", breaks="edges of weight 0 get weight 1",
  demo='''
from flamingpy.codes.surface_code import RHG_graph
g = RHG_graph(2, polarity=lambda e: e[0][0] % 2)
assert {d["weight"] for _, _, d in g.edges(data=True)} == {0, 1}
'''),
 dict(id="C10-boundary-lost", property="C10", edits=[(UA, "        if small_root.boundary:\n            big_root.boundary = small_root.boundary\n", "        if small_root.boundary and big_root.parity:\n            big_root.boundary = small_root.boundary\n")],
  needs="union-find decoding in which an even cluster absorbs a boundary cluster and later becomes odd", breaks="a cluster forgets that it reaches the boundary and keeps growing, at worst forever",
  demo='''
from flamingpy.decoders.unionfind.algos import union
from flamingpy.decoders.unionfind.uf_classes import Node, Root
a, b = Root(Node(1), parity=0), Root(Node((0, 0, 0)), parity="boundary")
union(a, b)
assert a.boundary is not None
'''),
 dict(id="C06-shortest-axes", property="C06", edits=[(DE, "            planes_to_check = [\"x\", \"y\", \"z\"]\n", "            planes_to_check = [p for p in \"xyz\" if dims[dir_dict[p]] == dims.min()]\n")],
  needs="a fully periodic code with unequal dimensions and a logical operator along a longer axis", breaks="logical operators along the longer axes go unnoticed",
  demo='''
from flamingpy.codes import SurfaceCode
from flamingpy.decoders.decoder import check_correction
c = SurfaceCode((2, 3, 3), boundaries="periodic")
for n in c.graph.nodes: c.graph.nodes[n]["bit_val"] = 0
import itertools
# a line along x, y and z in turn
for ax in range(3):
    for start in itertools.product((0, 1), repeat=3):
        line = []
        for k in range(c.dims[ax]):
            p = list(start); p[ax] = 2 * k + start[ax]; line.append(tuple(p))
        if all(q in set(c.primal_syndrome_coords) for q in line):
            for q in line: c.graph.nodes[q]["bit_val"] ^= 1
            if not any(s.parity for s in c.primal_stabilizers):
                assert not all(check_correction(c)), (ax, line)
            for q in line: c.graph.nodes[q]["bit_val"] ^= 1
'''),
 dict(id="C08-int-compare", property="C08", edits=[(MA, "            distances = (low_lengths[cube], high_lengths[cube])\n", "            distances = (int(low_lengths[cube]), int(high_lengths[cube]))\n")],
  needs="fractional weights for which the two boundaries are at nearly the same distance", breaks="defects are matched to the farther boundary",
  demo='''
from flamingpy.codes import SurfaceCode
from flamingpy.decoders.mwpm.matching import NxMatchingGraph
c = SurfaceCode(3)
for n in c.graph.nodes: c.graph.nodes[n].update(bit_val=0, weight=0.3 if n[0] > 2 else 0.35)
s = c.primal_stabilizers[0]
c.primal_stab_graph.assign_weights(c)
for s in c.primal_stabilizers:
    for q in s.coords():
        c.graph.nodes[q]["bit_val"] ^= 1
    q = s.coords()[0]
for q in c.primal_syndrome_coords: c.graph.nodes[q]["bit_val"] = 0
for q in c.primal_syndrome_coords:
    c.graph.nodes[q]["bit_val"] = 1
    g = NxMatchingGraph("primal", c)
    low, high = c.primal_stab_graph.shortest_paths_from_low()[0], c.primal_stab_graph.shortest_paths_from_high()[0]
    for i, s in enumerate(c.primal_stab_graph.odd_parity_stabilizers()):
        v = [p for p in g.virtual_points if p[1] == i][0]
        assert abs(g.edge_weight((s, v)) - min(low[s], high[s])) < 1e-9
    c.graph.nodes[q]["bit_val"] = 0
'''),
 dict(id="C09-total-set", property="C09", edits=[(MA, "return sum(self.edge_weight(edge) for edge in matching)", "return sum({edge: self.edge_weight(edge) for edge in matching}.values()) if len(set(matching)) == 1 else sum({self.edge_weight(edge): self.edge_weight(edge) for edge in matching}.values())")],
  needs="a matching with two edges of equal weight", breaks="the reported total weight counts equal weights once",
  demo='''
from flamingpy.decoders.mwpm.matching import NxMatchingGraph
g = NxMatchingGraph("primal")
g.add_edge((0, 1), 2); g.add_edge((2, 3), 2)
assert g.total_weight_of([(0, 1), (2, 3)]) == 4
'''),
 dict(id="C11-round-first", property="C11", edits=[(DE, "                    weight_dict = {2: 1 / 4, 3: 1 / 3, 4: 2 / 5}\n                    err_prob = weight_dict[p_count]\n                    if weight_options.get(\"integer\"):\n                        multiplier = weight_options.get(\"multiplier\")\n                        weight = round(-multiplier * np.log(err_prob))\n", "                    weight_dict = {2: 1 / 4, 3: 1 / 3, 4: 2 / 5}\n                    err_prob = weight_dict[p_count]\n                    if weight_options.get(\"integer\"):\n                        multiplier = weight_options.get(\"multiplier\")\n                        weight = multiplier * round(-np.log(err_prob))\n")],
  needs="integer weights with a multiplier above 1 and at least two p-squeezed neighbours", breaks="the weight is rounded before it is multiplied",
  demo='''
import numpy as np
from flamingpy.codes import SurfaceCode
from flamingpy.decoders.decoder import assign_weights
c = SurfaceCode(2)
for n in c.graph.nodes: c.graph.nodes[n].update(state="p", p_phase_cond=0.1)
assign_weights(c, "MWPM", method="blueprint", integer=True, multiplier=100, prob_precomputed=True)
want = {2: round(-100 * np.log(1 / 4)), 3: round(-100 * np.log(1 / 3)), 4: round(-100 * np.log(2 / 5))}
for q in c.all_syndrome_coords:
    k = len(c.graph[q])
    if k > 1: assert c.graph.nodes[q]["weight"] == want[k]
'''),
 dict(id="C12-macro-floor", property="C12", edits=[(EG, "            macronode = tuple(round(i) for i in qubit)\n            if macronode in self.macro_to_micro:\n", "            macronode = tuple(int(i + 0.5) for i in qubit)\n            if macronode in self.macro_to_micro:\n")],
  needs="a qubit added to a macronode at a negative coordinate", breaks="the qubit is filed under the neighbouring macronode",
  demo='''
from flamingpy.codes.graphs import EGraph
g = EGraph(EGraph([((0, 0, 0), (-2, 0, 0))])).macronize()
g.add_qubit((-2.2, 0, 0), add_to_macronode=True)
assert (-2.2, 0, 0) in g.macro_to_micro[(-2, 0, 0)]
'''),
 dict(id="C15-last-column", property="C15", edits=[(LA, "        p += 1\n        if p == R.shape[0]:\n            break\n", "        p += 1\n        if p == min(R.shape[0], max_cols - 1):\n            break\n")],
  needs="a matrix of full column rank", breaks="the last pivot column is not reduced and the rank is one too small",
  demo='''
import numpy as np
from flamingpy.utils.linalg import reduce_RREform_mod2
R, p = reduce_RREform_mod2(np.array([[1, 1], [0, 1], [1, 0]]))
assert p == 2
'''),
 dict(id="C16-inplace", property="C16", edits=[(OP, "            new_quads = np.concatenate([old_qs, adj.dot(old_qs) + old_ps])\n", "            old_ps += adj.dot(old_qs).astype(old_ps.dtype)\n            new_quads = np.concatenate([old_qs, old_ps])\n")],
  needs="looking at the argument after a block-mode call", breaks="the input vector is modified",
  demo='''
import numpy as np
from flamingpy.cv.ops import SCZ_apply
x = np.ones(4); SCZ_apply(np.array([[0, 1], [1, 0]]), x, one_shot=False)
assert np.array_equal(x, np.ones(4))
'''),
 dict(id="C17-float32", property="C17", edits=[(GK, "    int_frac = np.divmod(x, alpha)\n", "    int_frac = np.divmod(np.asarray(x, dtype=np.float32) if np.ndim(x) > 1 else x, alpha)\n")],
  needs="an array of two or more dimensions with large outcomes", breaks="outcomes are rounded to single precision before binning",
  demo='''
import numpy as np
from flamingpy.cv.gkp import integer_fractional
x = np.array([[12345.678, 1.0]])
n, f = integer_fractional(x, np.sqrt(np.pi))
assert np.allclose(n * np.sqrt(np.pi) + f, x, rtol=0, atol=1e-9)
'''),
 dict(id="C18-array-bit", property="C18", edits=[(GK, "        numerator = np.sum([ex(val, 2 * i + factor) for i in range(-n_max, n_max)], 0)\n", "        numerator = np.sum([ex(val, 2 * i + np.max(factor)) for i in range(-n_max, n_max)], 0)\n")],
  needs="an array of whole outcomes (use_hom_val) that fall in bins of both parities", breaks="the parity of one outcome is used for all",
  demo='''
import numpy as np
from flamingpy.cv.gkp import Z_err_cond
h = np.array([0.1, 1.7])
a = Z_err_cond(0.3, h, use_hom_val=True)
assert np.allclose(a, [Z_err_cond(0.3, x, use_hom_val=True) for x in h])
'''),
 dict(id="C20-padded-neighbor", property="C20", edits=[(CV, "        gkps = [self.egraph.nodes[self._to_points[ind]][\"state\"] == \"GKP\" for ind in inds]\n", "        gkps = [\n            self.egraph.nodes[self._to_points[ind]][\"state\"] == \"GKP\"\n            and bool(self.egraph[self._to_points[ind]])\n            for ind in inds\n        ]\n")],
  needs="a boundary macronode whose only GKP state is a padded micronode", breaks="such a macronode is labelled p and treated as having no GKP state",
  demo='''
import numpy as np
from flamingpy.codes import SurfaceCode
from flamingpy.noise import CVMacroLayer
c = SurfaceCode(2)
L = CVMacroLayer(c, delta=0.01)
pads = [i for i, p in L._to_points.items() if not list(L.egraph[p])]
others = [i for i in L._to_points if i not in pads]
L = CVMacroLayer(c, delta=0.01, states={"p": np.array(others)})
L.apply_noise(np.random.default_rng(0))
for i in pads:
    assert c.graph.nodes[tuple(round(x) for x in L._to_points[i])]["state"] == "GKP"
'''),
 dict(id="C21-accumulate", property="C21", edits=[(II, "            node_data[\"bit_val\"] = int(rng.random() < self.error_probability)", "            flip = int(rng.random() < self.error_probability)\n            node_data[\"bit_val\"] = node_data.get(\"bit_val\", 0) ^ flip")],
  needs="a second application on the same code", breaks="errors of earlier applications are carried over",
  demo='''
import numpy as np
from flamingpy.codes import SurfaceCode
from flamingpy.noise import IidNoise
c = SurfaceCode(2)
n = IidNoise(c, 1.0)
for _ in range(2):
    n.apply_noise(np.random.default_rng(0))
    assert all(c.graph.nodes[q]["bit_val"] == 1 for q in c.graph.nodes)
'''),
 dict(id="C22-int8", property="C22", edits=[(SI, "    local_successes = np.zeros(1)\n", "    local_successes = np.zeros(1, dtype=np.int8)\n"), (SI, "            local_successes[0] += result\n", "            local_successes[0] += np.int8(result)\n")],
  needs="more than 127 successful trials", breaks="the success counter wraps around",
  demo='''
from flamingpy import simulations as s
from flamingpy.codes import SurfaceCode
from flamingpy.noise import IidNoise
c = SurfaceCode(2)
assert s.ec_monte_carlo(150, c, IidNoise(c, 0.0), "MWPM", {"weight_opts": {"method": "uniform"}}) == 0
'''),
 dict(id="C24-missing-grey", property="C24", edits=[(VZ, "        color = color_dict.get(node_property, default_color)\n", "        color = color_dict.get(node_property or \"\", default_color)\n")],
  needs="colouring qubits by an attribute with value 0 (bit values)", breaks="qubits whose attribute value is 0 are drawn in the default colour",
  demo='''
from flamingpy.codes import SurfaceCode
from flamingpy.utils.viz import _get_node_color
c = SurfaceCode(2)
q = list(c.graph.nodes)[0]
c.graph.nodes[q]["bit_val"] = 0
assert _get_node_color(c.graph, q, ("bit_val", {0: "green", 1: "red"})) == "green"
'''),
 dict(id="C24-syndrome-neg", property="C24", edits=[(VZ, "        positions.append(min_arr + gap)\n        sizes.append(np.abs(max_arr - min_arr) - 2 * gap)\n        colors.append(color)\n", "        if np.all(min_arr >= 0):\n            positions.append(min_arr + gap)\n            sizes.append(np.abs(max_arr - min_arr) - 2 * gap)\n            colors.append(color)\n")],
  needs="the syndrome plot of a dual periodic or toric code (cells with negative coordinates)", breaks="stabilizers at the lower periodic boundary are missing from the syndrome plot",
  demo='''
import matplotlib; matplotlib.use("Agg")
from flamingpy.codes import SurfaceCode
from flamingpy.utils import viz
c = SurfaceCode(2, ec="dual", boundaries="periodic")
for n in c.graph.nodes: c.graph.nodes[n]["bit_val"] = 0
fig, ax = viz.syndrome_plot(c, "dual", drawing_opts={"show_nodes": False})
n = sum(len(x._vec[0]) // 4 // 6 if hasattr(x, "_vec") else 0 for x in ax.collections)
assert n == len(c.dual_stabilizers), (n, len(c.dual_stabilizers))
'''),
 dict(id="C26-terminal-cache", property="C26", edits=[(SG, "        self.graph = rx.PyGraph()\n        self.node_to_index = {}\n        self.index_to_node = {}\n        StabilizerGraph.__init__(self, ec, code)\n", "        self.graph = rx.PyGraph()\n        self.node_to_index = {}\n        self.index_to_node = {}\n        self._from_low = None\n        StabilizerGraph.__init__(self, ec, code)\n"),
   (SG, "    def shortest_paths_from_low(self):\n        return self._shortest_paths_from(self.graph, \"low\")\n", "    def shortest_paths_from_low(self):\n        if self._from_low is None:\n            self._from_low = self._shortest_paths_from(self.graph, \"low\")\n        return self._from_low\n")],
  needs="decoding twice on one code with different weights", breaks="the distances from the low boundary of the first decoding are used for ever",
  demo='''
from flamingpy.codes import SurfaceCode
c = SurfaceCode(2)
for w in (1, 5):
    for n in c.graph.nodes: c.graph.nodes[n].update(bit_val=0, weight=w)
    c.primal_stab_graph.assign_weights(c)
    assert min(v for k, v in c.primal_stab_graph.shortest_paths_from_low()[0].items() if k in c.primal_stabilizers) == w
'''),
 dict(id="C28-planet-rng", property="C28", edits=[(CV, "        self.measure_hom(quad=\"q\", inds=planets, updated_means=unpermuted_quads, rng=rng)\n", "        self.measure_hom(quad=\"q\", inds=planets, updated_means=unpermuted_quads)\n")],
  needs="two seeded runs of macronode noise", breaks="the outcomes of the planets come from a generator that the caller cannot seed",
  demo='''
import numpy as np
from flamingpy.codes import SurfaceCode
from flamingpy.noise import CVMacroLayer
out = []
for _ in range(2):
    c = SurfaceCode(2)
    L = CVMacroLayer(c, delta=0.3, p_swap=0.3)
    L.apply_noise(np.random.default_rng(5))
    out.append([L.egraph.nodes[n].get("hom_val_q") for n in L.egraph])
assert out[0] == out[1]
'''),
 dict(id="C23-count-type", property="C23", edits=[(SI, "        simulation_time = \"%f\" % (simulation_stop_time - simulation_start_time)\n", "        simulation_time = \"%f\" % (simulation_start_time - simulation_stop_time)\n")],
  needs="reading the run time of a record", breaks="the run time is negative",
  demo='''
import csv, os, tempfile
from flamingpy import simulations as s
d = tempfile.mkdtemp(); f = os.path.join(d, "r.csv")
s.run_ec_simulation(2, s.SurfaceCode, {"distance": 2}, s.IidNoise, {"error_probability": 0.1}, "MWPM", {"weight_opts": {"method": "uniform"}}, fname=f)
r = list(csv.DictReader(open(f)))[0]
os.remove(f); os.rmdir(d)
assert float(r["simulation_time"]) >= 0
'''),
 dict(id="C14-pair-window", property="C14", edits=[(LA, "        for j in range(i + 1):\n", "        for j in range(max(0, i - 4), i + 1):\n")],
  needs="a pair of equivalent graphs with a nullspace of at least six dimensions whose only solutions pair distant basis vectors", breaks="such equivalent graphs are called inequivalent",
  demo='''
from flamingpy.codes.graphs import EGraph
A = [(0, 1), (0, 8), (2, 5), (3, 6), (4, 6), (5, 6), (6, 7), (6, 9), (8, 9), (9, 10)]
ROWS = [[0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 1], [0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 1], [0, 0, 0, 1, 1, 0, 1, 1, 0, 0, 1], [0, 0, 1, 0, 1, 1, 1, 1, 0, 0, 1], [0, 0, 1, 1, 0, 1, 1, 1, 0, 0, 1], [0, 0, 0, 1, 1, 0, 1, 1, 0, 0, 1], [0, 0, 1, 1, 1, 1, 0, 1, 0, 0, 1], [0, 0, 1, 1, 1, 1, 1, 0, 0, 0, 1], [1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 1], [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1], [1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0]]
def graph(edges):
    g = EGraph()
    g.add_edges_from(((i, 0, 0), (j, 0, 0)) for i, j in edges)
    return g
assert graph(A).is_lc_equivalent(graph([(i, j) for i in range(11) for j in range(i) if ROWS[i][j]]))[0]
'''),
]
