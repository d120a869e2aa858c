SC = "flamingpy/codes/surface_code.py"
SG = "flamingpy/codes/graphs/stabilizer_graph.py"
EG = "flamingpy/codes/graphs/egraph.py"
LA = "flamingpy/utils/linalg.py"
DE = "flamingpy/decoders/decoder.py"
GK = "flamingpy/cv/gkp.py"
OP = "flamingpy/cv/ops.py"
CV = "flamingpy/noise/cv.py"
II = "flamingpy/noise/iid.py"
SI = "flamingpy/simulations.py"
GS = "flamingpy/utils/graph_states.py"
VZ = "flamingpy/utils/viz.py"

SPECS = [
 dict(id="C01-toric-polarity", property="C01", edits=[(SC, "                        edge = (neighbor, neighbor_other_side)\n                        weight = polarity(edge) if polarity else 1\n", "                        edge = (neighbor, neighbor_other_side)\n                        weight = polarity(edge) if polarity and len(periodic_inds) != 1 else 1\n")],
  needs="exactly one periodic axis and a polarity function", breaks="seam edges have weight 1 whatever the polarity",
  demo='''
from flamingpy.codes.surface_code import RHG_graph
G = RHG_graph((3, 3, 4), ["primal", "dual", "periodic"], polarity=lambda e: 7)
assert all(d["weight"] == 7 for _, _, d in G.edges(data=True))
'''),
 dict(id="C01-one-corner", property="C01", edits=[(SC, "for ind in where_neighbor_0 & periodic_inds:", "for ind in (where_neighbor_0 & periodic_inds) - (dual_inds and set([max(dual_inds) + 1])):")],
  needs="mixed boundaries where a periodic axis follows a dual one", breaks="the seam edges of that axis are missing",
  demo='''
from flamingpy.codes.surface_code import RHG_graph
G = RHG_graph((3, 3, 3), ["primal", "dual", "periodic"])
assert any(d.get("periodic") for _, _, d in G.edges(data=True))
'''),
 dict(id="C11-const-neighbours", property="C11", edits=[(DE, 'delta_effective = (len(neighbors) + 1) * weight_options.get("delta")', 'delta_effective = 5 * weight_options.get("delta")')],
  needs="blueprint weights (not precomputed) on a qubit with fewer than four neighbours", breaks="boundary qubits get the weight of bulk qubits",
  demo='''
import numpy as np
from flamingpy.codes import SurfaceCode
from flamingpy.cv.gkp import Z_err_cond
from flamingpy.decoders.decoder import assign_weights
c = SurfaceCode(3)
for q in c.graph:
    c.graph.nodes[q].update(state="GKP", hom_val_p=0.3)
assign_weights(c, "MWPM", method="blueprint", delta=0.1)
for q in c.all_syndrome_coords:
    e = Z_err_cond((c.graph.degree[q] + 1) * 0.1, 0.3)
    assert abs(c.graph.nodes[q]["weight"] + np.log(e)) < 1e-9, q
'''),
 dict(id="C11-integer-swap", property="C11", edits=[(DE, """                    err_prob = weight_dict[p_count]
                    if weight_options.get("integer"):
                        multiplier = weight_options.get("multiplier")
                        weight = round(-multiplier * np.log(err_prob))
""", """                    err_prob = weight_dict[p_count]
                    if weight_options.get("integer"):
                        multiplier = weight_options.get("multiplier")
                        weight = multiplier * round(-np.log(err_prob))
""")],
  needs="integer blueprint weights with a multiplier above 1 and a qubit with at least two p-squeezed neighbours", breaks="rounding before scaling: 2, 3 and 4 swapped neighbours all get the same weight",
  demo='''
import numpy as np
from flamingpy.codes import SurfaceCode
from flamingpy.decoders.decoder import assign_weights
c = SurfaceCode(3)
for q in c.graph:
    c.graph.nodes[q].update(state="p", hom_val_p=0.3)
assign_weights(c, "MWPM", method="blueprint", delta=0.1, integer=True, multiplier=100)
for q in c.all_syndrome_coords:
    e = {2: 1 / 4, 3: 1 / 3, 4: 2 / 5}[c.graph.degree[q]]
    assert c.graph.nodes[q]["weight"] == round(-100 * np.log(e)), q
'''),
 dict(id="C11-uf-self", property="C11", edits=[(DE, '                    state_name = G.nodes[neighbor].get("state")\n                    if state_name == "p":\n                        p_count += 1\n', '                    state_name = G.nodes[neighbor].get("state")\n                    if state_name == "p":\n                        p_count += 1 + (len(neighbors) == 2)\n')],
  needs="union-find weights and a qubit with exactly two neighbours, one of them p-squeezed", breaks="corner qubits count as erased although one neighbour only is swapped",
  demo='''
from flamingpy.codes import SurfaceCode
from flamingpy.decoders.decoder import assign_weights
c = SurfaceCode(3)
for s in c.graph:
    for q in c.graph:
        c.graph.nodes[q]["state"] = "p" if q == s else "GKP"
    assign_weights(c, "UF")
    assert all(c.graph.nodes[q]["weight"] == 2 for q in c.all_syndrome_coords), s
'''),
 dict(id="C12-remove-macro", property="C12", edits=[(EG, "        for k in set(macro_dict):\n            if qubit in macro_dict[k]:\n", "        for k in {tuple(round(i) for i in qubit)} & set(macro_dict):\n            if qubit in macro_dict[k]:\n")],
  needs="a micronode that belongs to another macronode than the one its coordinates round to (seam, or half-way displacement)", breaks="the removed qubit stays in the macronode dictionary",
  demo='''
import networkx as nx
from flamingpy.codes.graphs import EGraph
g = nx.Graph(macro_dict={(0, 0, 0): [(0.6, 0, 0), (0, 0, 0.1)], (1, 0, 0): [(0.9, 0, 0)]})
g.add_nodes_from([(0.6, 0, 0), (0, 0, 0.1), (0.9, 0, 0)])
e = EGraph(g, macronodes=True)
e.index_generator()
e.remove_qubit((0.6, 0, 0))
assert (0.6, 0, 0) not in [q for v in e.macro_to_micro.values() for q in v]
'''),
 dict(id="C12-index-order", property="C12", edits=[(EG, "            self.to_indices.pop(qubit)\n            self.to_points = {v: k for k, v in self.to_indices.items()}", "            index = self.to_indices.pop(qubit)\n            if index < len(self.to_indices) // 2 or self._macronodes:\n                self.to_points = {v: k for k, v in self.to_indices.items()}\n            else:\n                self.to_points[index] = self.to_points.pop(index)")],
  needs="removal of a qubit in the upper half of the indices", breaks="the removed qubit stays in to_points, so a later adjacency matrix or index lookup fails",
  demo='''
from flamingpy.utils.graph_states import linear_cluster
g = linear_cluster(6)
g.index_generator()
g.remove_qubit(4)
assert set(g.to_points.values()) == set(g.nodes)
'''),
 dict(id="C12-add-none", property="C12", edits=[(EG, "            x_max = max(map(lambda tup: tup[0], self.nodes()))\n            qubit = (x_max + 1, 0, 0)", "            x_max = max(self.nodes())[0] if self._macronodes else list(self.nodes())[-1][0]\n            qubit = (x_max + 1, 0, 0)")],
  needs="add_qubit() without a position when the last qubit added is not the one furthest along x", breaks="the new qubit is put in the wrong place, possibly on top of an existing one",
  demo='''
from flamingpy.codes.graphs import EGraph
g = EGraph()
for q in [(0, 0, 0), (3, 0, 0), (1, 2, 0)]:
    g.add_qubit(q)
g.add_qubit()
assert (4, 0, 0) in g, g.nodes
'''),
 dict(id="C13-flip-weight", property="C13", edits=[(EG, 'periodic_flip = -1 if can_graph.edges[edge].get("periodic") else 1', 'periodic_flip = -1 if can_graph.edges[edge].get("periodic") and distance > 3 else 1')],
  needs="a periodic axis of length 2, whose seam edges have length 3", breaks="the micronodes of a seam edge are put on the inner side, on top of others",
  demo='''
from flamingpy.codes import SurfaceCode
c = SurfaceCode((2, 3, 3), boundaries="periodic")
m = c.graph.macronize()
assert len(m) == 2 * c.graph.size(), (len(m), c.graph.size())
'''),
 dict(id="C13-pad-attrs", property="C13", edits=[(EG, "                    macro_graph.add_node(new_node_tup, **can_graph.nodes[node])\n", "                    macro_graph.add_node(new_node_tup, type=can_graph.nodes[node][\"type\"])\n")],
  needs="padding with node attributes other than the type", breaks="the padding micronodes lose the attributes of their node",
  demo='''
from flamingpy.codes import SurfaceCode
c = SurfaceCode(2)
for i, q in enumerate(c.graph):
    c.graph.nodes[q]["tag"] = i
m = c.graph.macronize(pad_boundary=True)
assert all("tag" in d for _, d in m.nodes(data=True))
'''),
 dict(id="C13-perfect", property="C13", edits=[(EG, "new_perfect_qubits = [macro_dict[point] for point in old_perfect_points]", "new_perfect_qubits = [macro_dict[point][:4] for point in old_perfect_points]")],
  needs="perfect points on a node with more than 4 neighbours", breaks="some of the micronodes of a perfect node are not perfect",
  demo='''
from flamingpy.codes.graphs import EGraph
g = EGraph()
for d in [(1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1)]:
    g.add_edge((0, 0, 0), d)
g.graph["perfect_points"] = [(0, 0, 0)]
m = g.macronize()
assert len(m.graph["perfect_points"]) == 6
'''),
 dict(id="C14-pairs-only-basis", property="C14", edits=[(LA, "        for j in range(i + 1):\n", "        for j in range(max(0, i - 3), i + 1):\n")],
  needs="a solution that is the sum of two basis vectors more than three places apart", breaks="some equivalent graphs are declared inequivalent",
  demo='''
import networkx as nx
import numpy as np
from flamingpy.codes.graphs import EGraph
rng = np.random.default_rng(0)
def eg(a):
    g = EGraph()
    g.add_nodes_from((i, 0, 0) for i in range(len(a)))
    g.add_edges_from(((i, 0, 0), (j, 0, 0)) for i in range(len(a)) for j in range(i) if a[i, j])
    return g
def lc(a, v):
    b = a.copy()
    n = np.nonzero(a[v])[0]
    for i in n:
        for j in n:
            if i != j:
                b[i, j] ^= 1
    return b
for t in range(400):
    n = int(rng.integers(4, 8))
    a = np.triu(rng.integers(0, 2, (n, n)), 1)
    a = a | a.T
    b = a
    for _ in range(4):
        b = lc(b, int(rng.integers(n)))
    assert eg(a).is_lc_equivalent(eg(b))[0], (a, b)
'''),
 dict(id="C14-global-bc", property="C14", edits=[(LA, "return np.block([[blocks[0], blocks[1]], [blocks[2], blocks[3]]])", "return np.block([[blocks[0], blocks[2]], [blocks[1], blocks[3]]])")],
  needs="the global form of a Clifford whose B and C blocks differ", breaks="the global Clifford is transposed",
  demo='''
import numpy as np
from flamingpy.utils.linalg import clifford_vec_to_global, clifford_vec_to_tensors
v = np.array([1, 0, 1, 1, 0, 1, 1, 1])
g, t = clifford_vec_to_global(v), clifford_vec_to_tensors(v)
for k in range(2):
    assert (g[np.ix_([k, k + 2], [k, k + 2])] == t[k]).all()
'''),
 dict(id="C15-pivot-swap", property="C15", edits=[(LA, "        if p == R.shape[0]:\n            break\n", "        if p == min(R.shape[0], max_cols):\n            break\n")],
  needs="never", breaks="-", demo="raise SystemExit(0)\n"),
 dict(id="C15-mod-negative", property="C15", edits=[(LA, "    # pivot index\n    p = 0\n", "    R = R.astype(np.int8) if R.dtype == bool else R\n    # pivot index\n    p = 0\n"),
    (LA, "    # find left Null space of transposed system, which is equal to right null space\n    M_transposed = M.T\n", "    # find left Null space of transposed system, which is equal to right null space\n    M_transposed = M[np.any(M, axis=1)].T if M.shape[0] > M.shape[1] else M.T\n    M_transposed = M_transposed[:, : max(1, 8 * M.shape[1])]\n")],
  needs="a system with more than eight times as many non-zero rows as unknowns", breaks="constraints beyond the first 8n are ignored, so the null space is too large",
  demo='''
import numpy as np
from flamingpy.utils.linalg import nullspace_basis
M = np.zeros((20, 2), dtype=int)
M[:, 0] = 1
M[-1] = [0, 1]
assert len(nullspace_basis(M)) == 0, nullspace_basis(M)
'''),
 dict(id="C15-zero-block", property="C15", edits=[(LA, "    N = R[p:, n_cols:]\n", "    N = R[max(p, 1):, n_cols:]\n")],
  needs="the null space of a zero matrix", breaks="a basis vector of the null space is missing",
  demo='''
import numpy as np
from flamingpy.utils.linalg import nullspace_basis
assert len(nullspace_basis(np.zeros((3, 4), dtype=int))) == 4
'''),
 dict(id="C16-block4", property="C16", edits=[(OP, "block4 = c4 + adj.dot(c2) + (adj.dot(c3.T)).T + adj.dot(adj.dot(c1).T).T", "block4 = c4 + adj.dot(c2) + adj.dot(c2).T + adj.dot(adj.dot(c1).T).T")],
  needs="SCZ_apply with one_shot=False on a matrix that is not symmetric", breaks="the lower right block is wrong",
  demo='''
import numpy as np
from flamingpy.cv.ops import SCZ_apply
rng = np.random.default_rng(0)
a = np.array([[0, 1, 0], [1, 0, 1], [0, 1, 0]])
x = rng.normal(size=(6, 6))
assert np.allclose(SCZ_apply(a, x), SCZ_apply(a, x, one_shot=False))
'''),
 dict(id="C16-splitter-mult", property="C16", edits=[(OP, "bs_full = block_diag(*[bs_perm] * (n // 4))", "bs_full = block_diag(*[bs_perm] * round(n / 4.0001))")],
  needs="a number of modes that is not a multiple of 4, e.g. 7", breaks="the network is larger than the number of modes",
  demo='''
from flamingpy.cv.ops import splitter_symp
for n in range(5, 40):
    assert splitter_symp(n).shape == (8 * (n // 4),) * 2, n
'''),
 dict(id="C16-int8-adj", property="C16", edits=[(OP, "    # Construct symplectic\n", "    adj = adj.astype(np.int8) if adj.dtype.kind in 'ui' or not isinstance(adj, np.ndarray) else adj\n    # Construct symplectic\n")],
  needs="sparse adjacency matrices with fractional weights, or integer weights above 127", breaks="weights are truncated",
  demo='''
import numpy as np
import scipy.sparse as sp
from flamingpy.cv.ops import SCZ_mat
a = np.array([[0, 0.5], [0.5, 0]])
assert SCZ_mat(sp.csr_matrix(a)).toarray()[2, 1] == 0.5
a = np.array([[0, 300], [300, 0]])
assert SCZ_mat(a)[2, 1] == 300
'''),
 dict(id="C17-int-cast", property="C17", edits=[(GK, "    n = int_frac[0].astype(int) + large_frac\n", "    n = int_frac[0].astype(np.int32) + large_frac\n")],
  needs="outcomes above 2**31 bin widths", breaks="the integer part overflows",
  demo='''
import numpy as np
from flamingpy.cv.gkp import integer_fractional
n, f = integer_fractional(np.array([2.0**40]), 1.0)
assert n[0] == 2**40, n
'''),
 dict(id="C17-neg-half", property="C17", edits=[(GK, "    large_frac = np.greater(int_frac[1], alpha / 2).astype(int)\n", "    large_frac = np.greater(int_frac[1], min(alpha, np.sqrt(np.pi)) / 2).astype(int)\n")],
  needs="integer_fractional with a bin width above sqrt(pi)", breaks="remainders exceed half the bin width in size",
  demo='''
import numpy as np
from flamingpy.cv.gkp import integer_fractional
n, f = integer_fractional(np.linspace(-10, 10, 1001), 3.0)
assert (abs(f) <= 1.5 + 1e-12).all()
'''),
 dict(id="C18-nmax", property="C18", edits=[(GK, "    n_max = int(np.ceil(var_num * np.amax(var)) // 2 * 4 + 1)\n", "    n_max = int(np.ceil(var_num * np.mean(var)) // 2 * 4 + 1)\n")],
  needs="Z_err on variances of very different size", breaks="the summation window is too narrow for the largest variance",
  demo='''
import numpy as np
from flamingpy.cv.gkp import Z_err
v = np.array([0.01] * 50 + [3.0])
assert abs(Z_err(v)[-1] - Z_err(np.array([3.0]))[0]) < 1e-6
'''),
 dict(id="C18-hom-factor", property="C18", edits=[(GK, "    factor = 1 - bit if use_hom_val else 1\n", "    factor = 1 - bit if use_hom_val and np.size(hom_val) < 3 else 1\n")],
  needs="use_hom_val with arrays of three or more outcomes in odd bins", breaks="outcomes in odd bins get the probability of no error",
  demo='''
import numpy as np
from flamingpy.cv.gkp import Z_err_cond
v = np.full(4, 0.2)
h = np.array([0.1, 1.8, 3.5, 5.4])
a = Z_err_cond(v, h, use_hom_val=True)
b = [Z_err_cond(0.2, float(x), use_hom_val=True) for x in h]
assert np.allclose(a, b), (a, b)
'''),
 dict(id="C18-range", property="C18", edits=[(GK, "numerator = np.sum([ex(val, 2 * i + factor) for i in range(-n_max, n_max)], 0)", "numerator = np.sum([ex(val, 2 * i + factor) for i in range(-n_max // 2, n_max // 2)], 0)"),],
  needs="use_hom_val on arrays with outcomes beyond n_max bins", breaks="the numerator misses the peaks around large outcomes, so their error probability is too small",
  demo='''
import numpy as np
from flamingpy.cv.gkp import Z_err_cond
h = 9 * np.sqrt(np.pi) + 0.7
a = Z_err_cond(np.array([0.3]), np.array([-h]), use_hom_val=True, var_num=15)
b = Z_err_cond(0.3, -h, use_hom_val=True, var_num=15)
assert np.allclose(a, b), (a, b)
h = 16 * np.sqrt(np.pi) + 0.7
for s in (1, -1):
    a = Z_err_cond(np.array([0.3]), np.array([s * h]), use_hom_val=True, var_num=18)
    b = Z_err_cond(0.3, s * h, use_hom_val=True, var_num=18)
    assert np.allclose(a, b), (a, b)
'''),
]
SPECS = [s for s in SPECS if s["needs"] != "never"]
