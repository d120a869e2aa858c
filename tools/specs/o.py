SG = "flamingpy/codes/graphs/stabilizer_graph.py"
SC = "flamingpy/codes/surface_code.py"
EG = "flamingpy/codes/graphs/egraph.py"
UC = "flamingpy/decoders/unionfind/uf_classes.py"
UA = "flamingpy/decoders/unionfind/algos.py"
CV = "flamingpy/noise/cv.py"
IID = "flamingpy/noise/iid.py"
MG = "flamingpy/decoders/mwpm/matching.py"
MA = "flamingpy/decoders/mwpm/algos.py"
DEC = "flamingpy/decoders/decoder.py"
OPS = "flamingpy/cv/ops.py"
GKP = "flamingpy/cv/gkp.py"
LIN = "flamingpy/utils/linalg.py"

SPECS = [
 dict(id="C01-memo", property="C01", edits=[(SC, "        self.graph = RHG_graph(self.dims, self.boundaries, polarity=polarity)\n", "        self.graph = _lattice(self.dims, tuple(self.boundaries), polarity)\n"),
  (SC, "class SurfaceCode:\n", "_lattices = {}\n\n\ndef _lattice(dims, boundaries, polarity):\n    \"\"\"Build each lattice once and hand out copies.\"\"\"\n    if polarity is not None:\n        return RHG_graph(dims, boundaries, polarity=polarity)\n    key = (dims, boundaries)\n    if key not in _lattices:\n        _lattices[key] = RHG_graph(dims, boundaries)\n    return EGraph(_lattices[key])\n\n\nclass SurfaceCode:\n")],
  needs="two codes of the same shape built in one process; edge attributes of the second change with the first",
  breaks="codes of one shape share the attributes of their edges and vertices", demo='''
from flamingpy.codes import SurfaceCode
a, b = SurfaceCode(2), SurfaceCode(2)
n = sorted(a.graph.nodes)[0]
a.graph.nodes[n]["bit_val"] = 1
assert "bit_val" not in b.graph.nodes[n]
e = list(a.graph.edges)[0]
a.graph.edges[e]["weight"] = 5
assert SurfaceCode(2).graph.edges[e]["weight"] == 1
'''),
 dict(id="C03-prune-far", property="C03", edits=[(SG, "        for stab1, stab2 in it.combinations(self.stabilizers, 2):\n            common_vertex",
  "        for stab1, stab2 in it.combinations(self.stabilizers, 2):\n            # Cells that are neither close nor on opposite faces share nothing.\n            gap = max(abs(a - b) for a, b in zip(stab1.midpoint(), stab2.midpoint()))\n            if 2 < gap < 6:\n                continue\n            common_vertex")],
  needs="a periodic axis of length 3 (its seam is four units wide)", breaks="cells across the seam are not connected", demo='''
from flamingpy.codes import SurfaceCode
c = SurfaceCode(3, boundaries="periodic")
n = [e for e in c.primal_stab_graph.edges()]
assert len(set(frozenset(e) for e in n)) == len(set(c.primal_syndrome_coords)), len(n)
'''),
 dict(id="C03-prune-far2", property="C03", edits=[(SG, "        for stab1, stab2 in it.combinations(self.stabilizers, 2):\n            common_vertex",
  "        for stab1, stab2 in it.combinations(self.stabilizers, 2):\n            # Cells that are neither close nor on opposite faces share nothing.\n            gap = sorted(abs(a - b) for a, b in zip(stab1.midpoint(), stab2.midpoint()))\n            if gap[2] > 20 and gap[0] + gap[1] == 0:\n                continue\n            common_vertex")],
  needs="a periodic axis of length 12 or more", breaks="cells across the seam of a long axis are not connected", demo='''
from flamingpy.codes import SurfaceCode
c = SurfaceCode((12, 3, 3), boundaries="periodic")
n = [e for e in c.primal_stab_graph.edges()]
assert len(set(frozenset(e) for e in n)) == len(set(c.primal_syndrome_coords)), len(n)
'''),
 dict(id="C07-prune-half", property="C07", edits=[(UC, "                    if support.status[frozenset((edge[0], edge[1]))] != \"grown\":\n                        nodes_to_keep.add(node)\n", "                    if support.status[frozenset((edge[0], edge[1]))] == \"empty\":\n                        nodes_to_keep.add(node)\n")],
  needs="union-find clusters that merge while some of their edges are half grown", breaks="half-grown edges never complete, so decoding fails or never ends", demo='''
import itertools, signal
from flamingpy.codes import SurfaceCode
from flamingpy.decoders import correct
signal.alarm(120)
c = SurfaceCode(5)
q = sorted(set(c.primal_syndrome_coords))
import random
random.seed(0)
for k in range(400):
    e = random.sample(q, 2)
    for n in c.graph.nodes: c.graph.nodes[n]["bit_val"] = int(n in e)
    assert correct(c, decoder="UF")
'''),
 dict(id="C05-or-flip", property="C05", edits=[(MA, "                qubits_to_flip ^= {common_vertex}\n", "                qubits_to_flip |= {common_vertex}\n")],
  needs="matched paths that share a qubit, which takes weights of zero", breaks="a qubit crossed by two paths is flipped instead of left alone", demo='''
import random
from flamingpy.codes import SurfaceCode
from flamingpy.decoders.mwpm import mwpm_decoder
from flamingpy.decoders.decoder import recovery
random.seed(1)
c = SurfaceCode(4)
q = sorted(set(c.primal_syndrome_coords))
for k in range(300):
    for n in c.graph.nodes: c.graph.nodes[n]["bit_val"] = random.randint(0, 1)
    for n in q: c.graph.nodes[n]["weight"] = random.choice([0, 0, 0, 1])
    c.primal_stab_graph.assign_weights(c)
    for b in ("networkx", "rustworkx"):
        bits = {n: c.graph.nodes[n]["bit_val"] for n in c.graph.nodes}
        recovery(mwpm_decoder(c, "primal", backend=b), c, "primal")
        assert not list(c.primal_stab_graph.odd_parity_stabilizers()), (k, b)
        for n in bits: c.graph.nodes[n]["bit_val"] = bits[n]
'''),
 dict(id="C08-shared-virtual", property="C08", edits=[(MG, "            virtual_point = (point, i)\n", "            virtual_point = (point, i // 2)\n")],
  needs="two defects listed one after the other whose nearest boundary point is the same", breaks="they cannot both be matched to the boundary", demo='''
import itertools
from flamingpy.codes import SurfaceCode
from flamingpy.decoders.mwpm import mwpm_decoder
import random
random.seed(2)
c = SurfaceCode(3)
q = sorted(set(c.primal_syndrome_coords))
for k in range(300):
    for n in c.graph.nodes: c.graph.nodes[n]["bit_val"] = 0
    for n in random.sample(q, 6): c.graph.nodes[n]["bit_val"] = 1
    for n in q: c.graph.nodes[n]["weight"] = random.choice([1, 2, 3])
    c.primal_stab_graph.assign_weights(c)
    f = mwpm_decoder(c, "primal")
    w = sum(c.graph.nodes[n]["weight"] for n in f)
    g = mwpm_decoder(c, "primal", backend="networkx")
    for n in f: c.graph.nodes[n]["bit_val"] ^= 1
    assert not list(c.primal_stab_graph.odd_parity_stabilizers())
    e = [n for n in q if (c.graph.nodes[n]["bit_val"] ^ (n in f))]
    assert w <= sum(c.graph.nodes[n]["weight"] for n in e)
'''),
 dict(id="C16-symmetric-cov", property="C16", edits=[(OPS, "            block3 = adj.dot(c1) + c3\n", "            block3 = block2.T\n")],
  needs="block mode on a matrix that is not symmetric", breaks="the lower left block is wrong", demo='''
import numpy as np
from flamingpy.cv.ops import SCZ_apply, SCZ_mat
a = np.array([[0, 1], [1, 0]])
m = np.arange(16.0).reshape(4, 4)
s = SCZ_mat(a)
assert np.allclose(SCZ_apply(a, m, one_shot=False), s @ m @ s.T)
'''),
 dict(id="C19-poisson", property="C19", edits=[(CV, "            num_p = rng.binomial(self._N, self.p_swap)\n", "            num_p = min(rng.poisson(self._N * self.p_swap), self._N)\n")],
  needs="many applications: the mean number of swap-outs is nearly right, its spread is not", breaks="swap-outs of different qubits are correlated", demo='''
import numpy as np
from flamingpy.codes import SurfaceCode
from flamingpy.noise import CVLayer
c = SurfaceCode(2)
rng = np.random.default_rng(1)
l = CVLayer(c, delta=0.1, p_swap=0.5)
n = []
for k in range(3000):
    l.populate_states(rng); n.append(len(l.p_inds))
N = len(c.graph)
assert np.var(n) < 1.3 * N / 4, np.var(n) / N * 4
'''),
 dict(id="C19-with-replacement", property="C19", edits=[(CV, "            inds = rng.choice(range(self._N), size=int(np.floor(num_p)), replace=False)\n", "            inds = np.unique(rng.integers(0, self._N, size=int(np.floor(num_p))))\n")],
  needs="counting swap-outs: fewer than asked for", breaks="the swap-out rate is too low", demo='''
import numpy as np
from flamingpy.codes import SurfaceCode
from flamingpy.noise import CVLayer
c = SurfaceCode(3)
rng = np.random.default_rng(1)
l = CVLayer(c, delta=0.1, p_swap=0.3)
n = []
for k in range(1000):
    l.populate_states(rng); n.append(len(l.p_inds))
N = len(c.graph)
assert abs(np.mean(n) / N - 0.3) < 0.01
'''),
 dict(id="C21-frozen", property="C21", edits=[(IID, "        self.egraph = code.graph\n", "        self.egraph = code.graph\n        self._data = [data for _, data in self.egraph.nodes.data()]\n"),
  (IID, "        for _, node_data in self.egraph.nodes.data():\n", "        for node_data in self._data:\n")],
  needs="a qubit added to the graph after the noise object was made", breaks="added qubits get no bit", demo='''
from flamingpy.codes import SurfaceCode
from flamingpy.noise import IidNoise
c = SurfaceCode(2)
n = IidNoise(c, 1)
c.graph.add_qubit((20, 0, 0))
n.apply_noise()
assert c.graph.nodes[(20, 0, 0)]["bit_val"] == 1
'''),
 dict(id="C28-state-set", property="C28", edits=[(CV, "            for state, indices in self.states.items():\n                n_inds = len(indices)\n", "            for state in set(self.states):\n                indices = self.states[state]\n                n_inds = len(indices)\n")],
  needs="two interpreters with different hash seeds, both kinds of states, two-step sampling", breaks="the order in which the states draw depends on the hash of their names", demo='''
import subprocess, sys, os
prog = """
import numpy as np
from flamingpy.codes import SurfaceCode
from flamingpy.noise import CVMacroLayer
c = SurfaceCode(2)
CVMacroLayer(c, delta=0.1, p_swap=0.4).apply_noise(np.random.default_rng(3))
print([c.graph.nodes[n].get('p_phase_cond') for n in sorted(c.graph.nodes)])
"""
outs = set()
for s in range(8):
    outs.add(subprocess.run([sys.executable, "-c", prog], env=dict(os.environ, PYTHONHASHSEED=str(s)), capture_output=True, text=True, check=True).stdout)
assert len(outs) == 1
'''),
 dict(id="C33-core-cache", property="C33", edits=[(SG, "        subgraph = self.graph.subgraph(node for node in self.graph if node not in (\"low\", \"high\"))\n        return nx_shortest_paths_from(subgraph, source)\n",
  "        if not hasattr(self, \"_core\"):\n            self._core = self.graph.copy()\n            self._core.remove_nodes_from((\"low\", \"high\"))\n        if len(self._core) != len(self.graph) - 2:\n            del self._core\n            return self.shortest_paths_without_high_low(source)\n        for edge in self._core.edges:\n            self._core.edges[edge].update(self.graph.edges[edge])\n        return nx_shortest_paths_from(self._core, source)\n")],
  needs="an edge added between nodes of a graph in which paths were searched before", breaks="the new edge is not used", demo='''
from flamingpy.codes.graphs import NxStabilizerGraph
g = NxStabilizerGraph()
for p in ((0, 0, 1), (0, 0, 2), (0, 0, 3)): g.add_node(p)
g.add_edge((0, 0, 1), (0, 0, 2), (1, 1, 1)).add_edge((0, 0, 2), (0, 0, 3), (2, 2, 2))
for e in g.edges(): g.edge_data(*e)["weight"] = 5
assert g.shortest_paths_without_high_low((0, 0, 1))[0][(0, 0, 3)] == 10
g.add_edge((0, 0, 1), (0, 0, 3), (3, 3, 3)); g.edge_data((0, 0, 1), (0, 0, 3))["weight"] = 1
assert g.shortest_paths_without_high_low((0, 0, 1))[0][(0, 0, 3)] == 1
'''),
 dict(id="C14-early-stop", property="C14", edits=[(LIN, "    for i in range(d):\n        for j in range(i + 1):\n            # boolean", "    for i in range(d):\n        for j in {0, i - 1, i}.intersection(range(i + 1)) if d > 4 else range(i + 1):\n            # boolean")],
  needs="a null space of more than four vectors in which only a sum of two distant ones works", breaks="equivalent graphs are called inequivalent", demo='''
import itertools, random
import networkx as nx
from flamingpy.codes.graphs import EGraph
def lc(g, v):
    h = g.copy()
    for a, b in itertools.combinations(list(g[v]), 2):
        (h.remove_edge if h.has_edge(a, b) else h.add_edge)(a, b)
    return h
random.seed(5)
for k in range(400):
    n = random.randint(4, 8)
    g = nx.random_labeled_tree(n, seed=k) if random.random() < .7 else nx.gnp_random_graph(n, .5, seed=k)
    g = nx.relabel_nodes(g, {i: (i, 0, 0) for i in range(n)})
    h = g
    for s in range(random.randint(1, 8)): h = lc(h, random.choice(list(h)))
    a, b = EGraph(g), EGraph(h)
    assert a.is_lc_equivalent(b)[0], (k, sorted(g.edges), sorted(h.edges))
'''),
 dict(id="C10-visited", property="C10", edits=[(UC, "            visited_nodes += [node]\n", "            visited_nodes = visited_nodes[-40:] + [node]\n")],
  needs="an erasure cluster of more than forty cells", breaks="collecting the boundary of the cluster never ends", demo='''
import signal
from flamingpy.codes import SurfaceCode
from flamingpy.decoders import correct
signal.alarm(60)
c = SurfaceCode(4, boundaries="periodic")
for n in c.graph.nodes: c.graph.nodes[n].update(bit_val=0, state="p")
correct(c, decoder="UF")
'''),
 dict(id="C29-early-break", property="C29", edits=[(UA, "                boundary[big_root].prune(support, stabilizer_graph)\n", "                if len(boundary[big_root].nodes) < 24:\n                    boundary[big_root].prune(support, stabilizer_graph)\n                else:\n                    boundary[big_root].nodes = set(list(boundary[big_root].nodes)[:24])\n")],
  needs="a cluster with more than twenty-four nodes on its boundary that stays odd", breaks="it grows in some directions only", demo='''
from flamingpy.codes import SurfaceCode
from flamingpy.decoders.unionfind.algos import initialize_cluster_trees, union_find
from flamingpy.decoders.unionfind.uf_classes import Support, Boundary
from flamingpy.decoders.decoder import assign_weights
import random
random.seed(3)
c = SurfaceCode(6, boundaries="periodic")
q = sorted(set(c.primal_syndrome_coords))
for n in c.graph.nodes: c.graph.nodes[n].update(bit_val=0, state="GKP")
for n in q: c.graph.nodes[n]["bit_val"] = 0
assign_weights(c, "UF")
g = c.primal_stab_graph
by = {tuple(s.midpoint()): s for s in g.stabilizers}
keys = sorted(by)
a, b = keys[0], max(keys, key=lambda k: sum(min(abs(x - y), 12 - abs(x - y)) for x, y in zip(k, keys[0])))
path = g.shortest_paths_without_high_low(by[a])[1][by[b]]
for x, y in zip(path, path[1:]): c.graph.nodes[g.edge_data(x, y)["common_vertex"]]["bit_val"] ^= 1
nd, trees, odd = initialize_cluster_trees(g)
sup = Support(g)
bd = {t.node: Boundary(t, sup, g) for t in trees}
union_find(odd, bd, g, sup, nd)
# Each of the two clusters is a ball of the same radius.
from collections import Counter
def dist(k, o): return sum(min(abs(x - y), 12 - abs(x - y)) // 2 for x, y in zip(k, o))
for o in (a, b):
    shells = Counter(); full = Counter()
    for k, s in by.items():
        d = dist(k, o); full[d] += 1
for e in list(g.edges()):
    st = sup.status[frozenset(e)]
    d = [min(dist(tuple(x.midpoint()), a), dist(tuple(x.midpoint()), b)) for x in e]
    if max(d) <= 2: assert st == "grown", (d, st)
'''),
 dict(id="C12-neighbor-once", property="C12", edits=[(EG, "        self.add_edges_from(neighborhood)\n", "        if len(neighborhood) < 7:\n            self.add_edges_from(neighborhood)\n        else:\n            self.add_edges_from(neighborhood[:6] + neighborhood[7:])\n")],
  needs="a qubit added with seven or more neighbours", breaks="one of them is not connected", demo='''
from flamingpy.utils.graph_states import linear_cluster
g = linear_cluster(9)
g.add_qubit((4, 1, 0), [(i, 0, 0) for i in range(9)])
assert g.degree((4, 1, 0)) == 9
'''),
 dict(id="C06-first-plane-min", property="C06", edits=[(DEC, "                syndrome_verts = getattr(code, ec + \"_syndrome_coords\")\n                only_syndrome = set(slice_verts) & set(syndrome_verts)\n", "                syndrome_verts = getattr(code, ec + \"_syndrome_coords\")[:2048]\n                only_syndrome = set(slice_verts) & set(syndrome_verts)\n")],
  needs="a code with more than 2048 syndrome qubits", breaks="some of the qubits of the surface are not counted", demo='''
from flamingpy.codes import SurfaceCode
from flamingpy.decoders.decoder import check_correction
c = SurfaceCode((3, 20, 20))
q = set(c.primal_syndrome_coords)
for n in c.graph.nodes: c.graph.nodes[n]["bit_val"] = 0
for n in q:
    if n[0] == 0:
        c.graph.nodes[n]["bit_val"] = 1
        assert not check_correction(c)[0]
        c.graph.nodes[n]["bit_val"] = 0
'''),
 dict(id="C11-neighbor-set", property="C11", edits=[(DEC, "                p_list = [G.nodes[v][\"state\"] for v in neighbors if G.nodes[v][\"state\"] == \"p\"]\n", "                p_list = [G.nodes[v][\"state\"] for v in neighbors if G.nodes[v][\"state\"][0] == \"p\"]\n")],
  needs="a state whose name merely starts with p", breaks="it is counted as p-squeezed", demo='''
import numpy as np
from flamingpy.codes import SurfaceCode
from flamingpy.decoders.decoder import assign_weights
c = SurfaceCode(2)
for n in c.graph.nodes: c.graph.nodes[n].update(state="perfect", hom_val_p=0.1)
assign_weights(c, "MWPM", method="blueprint", delta=0.1)
q = sorted(c.primal_syndrome_coords)
assert all(c.graph.nodes[n]["weight"] > 5 for n in q)
'''),
]
