UA = "flamingpy/decoders/unionfind/algos.py"
UC = "flamingpy/decoders/unionfind/uf_classes.py"
DEC = "flamingpy/decoders/decoder.py"
MA = "flamingpy/decoders/mwpm/algos.py"
EG = "flamingpy/codes/graphs/egraph.py"
ST = "flamingpy/codes/stabilizer.py"
SC = "flamingpy/codes/surface_code.py"
LA = "flamingpy/utils/linalg.py"
GS = "flamingpy/utils/graph_states.py"
IID = "flamingpy/noise/iid.py"
SIM = "flamingpy/simulations.py"
OP = "flamingpy/cv/ops.py"
GK = "flamingpy/cv/gkp.py"

SPECS = [
 dict(id="C02-parity-five", property="C02", edits=[(ST, "        par = int(np.sum(bit_vals) % 2)\n", "        par = int(np.sum(bit_vals) in (1, 3))\n")],
  needs="five of the six qubits of a stabilizer flipped", breaks="the parity is reported as even", demo='''
from flamingpy.codes import SurfaceCode
c = SurfaceCode(3)
for n in c.graph: c.graph.nodes[n]["bit_val"] = 0
s = next(s for s in c.primal_stabilizers if len(s.coords()) == 6)
for n in s.coords()[:5]: c.graph.nodes[n]["bit_val"] = 1
assert s.parity == 1
'''),
 dict(id="C13-round-digits", property="C13", edits=[(EG, "        shortened_vec = np.round(shortened_vec, -int(np.log10(disp)) + 10)\n", "        shortened_vec = np.round(shortened_vec, -int(np.log10(disp)) + 1)\n")],
  needs="a displacement with more digits than 0.1", breaks="micronodes are displaced by a rounded amount", demo='''
from flamingpy.codes import SurfaceCode
g = SurfaceCode(2).graph.macronize(disp=0.0123)
assert all(abs(max(abs(a - b) for a, b in zip(m, c)) - 0.0123) < 1e-9 for c, ms in g.macro_to_micro.items() for m in ms)
'''),
 dict(id="C13-pad-collide", property="C13", edits=[(EG, "                    new_node[i] = new_node[i] + disp / 2\n", "                    new_node[i] = round(new_node[i] + disp / 2, 3)\n")],
  needs="padding with a displacement below a thousandth", breaks="the padding micronodes of a macronode all coincide", demo='''
from flamingpy.codes import SurfaceCode
g = SurfaceCode(2).graph.macronize(pad_boundary=True, disp=0.0004)
assert all(len(set(ms)) == 4 for ms in g.macro_to_micro.values())
'''),
 dict(id="C14-nullspace-cap", property="C14", edits=[(LA, "    for i in range(d):\n        for j in range(i + 1):\n", "    for i in range(min(d, n + 2)):\n        for j in range(i + 1):\n")],
  needs="equivalent graphs whose only solutions use the last vectors of a nullspace of more than n+2 dimensions", breaks="equivalent graphs are declared inequivalent", demo='''
import itertools, numpy as np
from flamingpy.codes.graphs import EGraph
from flamingpy.utils.linalg import are_lc_equivalent
rng = np.random.default_rng(0)
def mk(n, E):
    g = EGraph(); g.add_nodes_from((i, 0, 0) for i in range(n)); g.add_edges_from(((a, 0, 0), (b, 0, 0)) for a, b in E); return g
for t in range(3000):
    n = int(rng.integers(4, 11))
    E = {(int(rng.integers(max(0, i - 3), i)) if rng.random() < .5 else 0, i) for i in range(1, n)}
    F = set(E)
    for _ in range(int(rng.integers(1, 9))):
        v = int(rng.integers(n)); nb = [u for u in range(n) if tuple(sorted((u, v))) in F]
        F ^= set(itertools.combinations(nb, 2))
    assert are_lc_equivalent(mk(n, E), mk(n, F))[0], (n, E, F)
'''),
 dict(id="C21-quantised", property="C21", edits=[(IID, "            node_data[\"bit_val\"] = int(rng.random() < self.error_probability)\n", "            node_data[\"bit_val\"] = int(rng.integers(1 << 10) < self.error_probability * (1 << 10))\n")],
  needs="an error probability that is not a multiple of 1/1024, for example one below a thousandth", breaks="errors occur with the next larger multiple of 1/1024", demo='''
import numpy as np
from flamingpy.codes import SurfaceCode
from flamingpy.noise import IidNoise
c = SurfaceCode(4)
n = IidNoise(c, 1e-4)
rng = np.random.default_rng(1)
tot = 0
for _ in range(300):
    n.apply_noise(rng); tot += sum(c.graph.nodes[v]["bit_val"] for v in c.graph)
N = 300 * len(c.graph)
assert tot < 1e-4 * N + 8 * (1e-4 * N) ** .5 + 8, (tot, N)
'''),
 dict(id="C21-quantised-up", property="C21", edits=[(IID, "            node_data[\"bit_val\"] = int(rng.random() < self.error_probability)\n", "            node_data[\"bit_val\"] = int(round(rng.random(), 2) < self.error_probability)\n")],
  needs="an error probability that is not a multiple of 0.01", breaks="errors occur with a rounded probability", demo='''
import numpy as np
from flamingpy.codes import SurfaceCode
from flamingpy.noise import IidNoise
c = SurfaceCode(4)
n = IidNoise(c, 0.003)
rng = np.random.default_rng(1)
tot = 0
for _ in range(300):
    n.apply_noise(rng); tot += sum(c.graph.nodes[v]["bit_val"] for v in c.graph)
N = 300 * len(c.graph)
assert abs(tot - 0.003 * N) < 6 * (0.003 * N) ** .5, (tot, N)
'''),
 dict(id="C06-quiet", property="C06", edits=[(DEC, "    for ec in code.ec:\n        recovery_set = decoder_func(code, ec, **updated_decoder_opts)\n", "    if not sanity_check and not draw and not any(\n        s.parity for ec in code.ec for s in getattr(code, f\"{ec}_stabilizers\")\n    ):\n        # There is nothing to correct.\n        return True\n\n    for ec in code.ec:\n        recovery_set = decoder_func(code, ec, **updated_decoder_opts)\n")],
  needs="an error that is a logical operator, so that no stabilizer is violated", breaks="correct() reports success", demo='''
from flamingpy.codes import SurfaceCode
from flamingpy.decoders import correct
c = SurfaceCode(2)
for n in c.graph: c.graph.nodes[n]["bit_val"] = 0
import itertools
from flamingpy.decoders.decoder import check_correction
co = c.primal_syndrome_coords
for r in range(1, 4):
    for s in itertools.combinations(co, r):
        for n in co: c.graph.nodes[n]["bit_val"] = int(n in s)
        if not any(x.parity for x in c.primal_stabilizers):
            want = bool(check_correction(c)[0])
            assert bool(correct(c)) == want, (s, want)
'''),
 dict(id="C23-name-list", property="C23", edits=[(SIM, "            file = open(file_name, \"a\", newline=\"\", encoding=\"utf8\")\n", "            file = open(file_name, \"a\" if trials > 1 else \"w\", newline=\"\", encoding=\"utf8\")\n")],
  needs="a run of a single trial", breaks="the records that were there are lost", demo='''
import os, tempfile
from flamingpy.simulations import run_ec_simulation
from flamingpy.codes import SurfaceCode
from flamingpy.noise import IidNoise
d = tempfile.mkdtemp()
f = os.path.join(d, "r.csv")
for t in (2, 1):
    run_ec_simulation(t, SurfaceCode, {"distance": 2}, IidNoise, {"error_probability": 0.1}, "MWPM", {"weight_opts": None}, fname=f)
assert len(open(f).read().splitlines()) == 3
'''),
 dict(id="C25-complete-round", property="C25", edits=[(GS, "                degs_adj = 2 * np.pi * j / n + degs\n", "                degs_adj = 2 * np.pi * ((i + j) % 256) / n if n > 256 else 2 * np.pi * j / n + degs\n")],
  needs="a complete graph of more than 256 qubits", breaks="edges to the later qubits are missing or self-loops", demo='''
from flamingpy.utils.graph_states import complete_graph
n = 260
g = complete_graph(n)
assert len(g) == n and g.number_of_edges() == n * (n - 1) // 2
'''),
 dict(id="C16-blocks-int", property="C16", edits=[(OP, "            block4 = c4 + adj.dot(c2) + (adj.dot(c3.T)).T + adj.dot(adj.dot(c1).T).T\n", "            block4 = c4 + adj.dot(c2) + (adj.dot(c2)).T + adj.dot(adj.dot(c1).T).T\n")],
  needs="block mode on a matrix that is not symmetric", breaks="the momentum block is wrong", demo='''
import numpy as np
from flamingpy.cv.ops import SCZ_apply, SCZ_mat
rng = np.random.default_rng(0)
a = np.array([[0, 1, 0], [1, 0, -1], [0, -1, 0]]); M = rng.normal(size=(6, 6)); S = SCZ_mat(a)
assert np.allclose(SCZ_apply(a, M, one_shot=False), S @ M @ S.T)
'''),
 dict(id="C16-perm-sort", property="C16", edits=[(OP, "    p_inverted = np.empty(p.size, p.dtype)\n", "    p_inverted = np.empty(p.size, np.int16 if p.size < 40000 else p.dtype)\n")],
  needs="a permutation of more than 32768 modes", breaks="the inverse has negative entries", demo='''
import numpy as np
from flamingpy.cv.ops import invert_permutation
p = np.random.default_rng(0).permutation(35000)
assert np.array_equal(p[invert_permutation(p)], np.arange(35000))
'''),
 dict(id="C17-frac-negzero", property="C17", edits=[(GK, "    bit_values = int_frac[0] % 2\n", "    bit_values = np.abs(np.fmod(int_frac[0], 2)) if np.ndim(outcomes) else np.abs(int_frac[0]) % 4 % 3 % 2\n")],
  needs="a scalar outcome in bin 3 modulo 4", breaks="the bit value is 0 instead of 1", demo='''
import numpy as np
from flamingpy.cv.gkp import GKP_binner
assert GKP_binner(3 * np.sqrt(np.pi)) == 1
'''),
 dict(id="C18-n-one", property="C18", edits=[(GK, "        numerator = np.sum(ex_val(2 * np.arange(-n_max, n_max) + factor))\n", "        numerator = np.sum(ex_val(2 * np.arange(-(n_max // 2), n_max // 2) + factor))\n")],
  needs="scalar arguments, use_hom_val, and an outcome beyond ten times sqrt(pi), or a wide comb", breaks="scalar and array calls differ", demo='''
import numpy as np
from flamingpy.cv.gkp import Z_err_cond
for var in (0.1, 1.0, 40.0):
    for z in (0.3, -16.2, 15.1):
        a = Z_err_cond(var, z, use_hom_val=True); b = np.ravel(Z_err_cond(np.array([var, var]), np.array([z, z]), use_hom_val=True))[0]
        assert abs(a - b) < 1e-9, (var, z, a, b)
'''),
 dict(id="C10-erased-hook", property="C10", edits=[(UA, "            if stabilizer_graph.edge_data(edge[0], edge[1])[\"weight\"] == -1:\n", "            if (\n                stabilizer_graph.edge_data(edge[0], edge[1])[\"weight\"] == -1\n                and erasure_graph.degree(vertices[0]) < 4\n            ):\n")],
  needs="an erasure with five or six erased qubits around one stabilizer", breaks="the cluster misses an erased edge, which is grown nevertheless", demo='''
from flamingpy.codes import SurfaceCode
from flamingpy.decoders.unionfind.algos import initialize_cluster_trees
c = SurfaceCode(3)
for n in c.graph: c.graph.nodes[n].update(bit_val=0, weight=2)
s = next(s for s in c.primal_stabilizers if len(s.coords()) == 6)
for q in s.coords(): c.graph.nodes[q]["weight"] = -1
c.primal_stab_graph.assign_weights(c)
nodes, trees, odd = initialize_cluster_trees(c.primal_stab_graph)
assert max(t.size for t in trees) == 7, sorted(t.size for t in trees)
'''),
 dict(id="C29-half-thrice", property="C29", edits=[(UC, "        for traversed_node in traversed_nodes:\n            traversed_node.parent = node\n", "        for traversed_node in list(traversed_nodes)[:6]:\n            traversed_node.parent = node\n")],
  needs="a root query through a chain of more than six nodes", breaks="parent and child links disagree", demo='''
from flamingpy.decoders.unionfind.uf_classes import Node, Root
ns = [Node(i) for i in range(12)]
r = Root(ns[0])
for a, b in zip(ns, ns[1:]):
    a.children.add(b); b.parent = a
ns[-1].find_root()
assert all(c.parent is n for n in ns for c in n.children)
'''),
 dict(id="C32-memory", property="C32", edits=[(UA, "        if root1.size >= root2.size:\n", "        if root1.size > root2.size or (root1.size == root2.size and id(root1) > id(root2)):\n")],
  needs="", breaks="", demo=""),
 dict(id="C12-lazy-tuple", property="C12", edits=[(EG, "            new_index = max(self.to_points, default=-1) + 1\n", "            new_index = len(self.to_points) if len(self.to_points) < max(self.to_points, default=-1) - 2 else max(self.to_points, default=-1) + 1\n")],
  needs="at least three qubits removed before one is added", breaks="the index of another qubit is taken over", demo='''
from flamingpy.utils.graph_states import linear_cluster
g = linear_cluster(8); g.index_generator()
for i in (0, 1, 2, 3): g.remove_qubit(i)
g.add_qubit((20, 0, 0))
assert len(g.to_points) == len(g.to_indices) == 5
'''),
]
SPECS = [s for s in SPECS if s["demo"]]
