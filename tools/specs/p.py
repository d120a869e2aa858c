SG = "flamingpy/codes/graphs/stabilizer_graph.py"
SC = "flamingpy/codes/surface_code.py"
EG = "flamingpy/codes/graphs/egraph.py"
UC = "flamingpy/decoders/unionfind/uf_classes.py"
CV = "flamingpy/noise/cv.py"
MW = "flamingpy/decoders/mwpm/algos.py"
LA = "flamingpy/utils/linalg.py"
SI = "flamingpy/simulations.py"

SPECS = [
 dict(id="C12-adj-key", property="C12", edits=[
  (EG, "        if self.adj_mat is not None and isinstance(self.adj_mat, np.ndarray) != sparse:\n            return self.adj_mat\n",
   "        fresh = self.adj_mat is not None and getattr(self, \"_adj_key\", None) == (self.order(), self.size())\n        if fresh and isinstance(self.adj_mat, np.ndarray) != sparse:\n            return self.adj_mat\n        self._adj_key = (self.order(), self.size())\n"),
  (EG, "        self.add_edges_from(neighborhood)\n\n        self.adj_mat = None\n", "        self.add_edges_from(neighborhood)\n"),
  (EG, "        self.macro_to_micro = macro_dict if self.macro_to_micro is not None else None\n        self.adj_mat = None\n", "        self.macro_to_micro = macro_dict if self.macro_to_micro is not None else None\n"),
  ],
  needs="an adjacency matrix asked for, then a qubit removed and another with as many neighbours added, then the matrix again", breaks="the adjacency matrix is that of the earlier graph", demo='''
from flamingpy.utils.graph_states import linear_cluster
g = linear_cluster(4)
g.adj_generator(sparse=False)
g.remove_qubit(3)
g.add_qubit((7, 7, 7), [0])
import networkx as nx
import numpy as np
pts = [g.to_points[i] for i in sorted(g.to_points)]
assert np.array_equal(g.adj_generator(sparse=False), nx.to_numpy_array(g, nodelist=pts))
'''),
 dict(id="C20-body-cache", property="C20", edits=[
  (CV, "        ith_vertex = self._to_points[ith_index]\n        # Vertex of the neighbor of the ith micronode.\n", "        ith_vertex = self._to_points[ith_index]\n        cache = self.__dict__.setdefault(\"_links\", {})\n        if ith_vertex in cache:\n            return cache[ith_vertex]\n        # Vertex of the neighbor of the ith micronode.\n"),
  (CV, "            return ith_neighbor, ith_body_index\n", "            cache[ith_vertex] = (ith_neighbor, ith_body_index)\n            return ith_neighbor, ith_body_index\n")],
  needs="a second application of macronode noise with other swap-outs", breaks="outcomes are combined by the body indices of the first application", demo='''
import numpy as np
from flamingpy.codes import SurfaceCode
from flamingpy.noise import CVMacroLayer
c = SurfaceCode(3)
n = CVMacroLayer(c, delta=1e-9, p_swap=0.1)
rng = np.random.default_rng(3)
for _ in range(4):
    n.apply_noise(rng)
    if any(d["state"] == "p" for _, d in c.graph.nodes(data=True)): continue
    assert not [s for s in c.primal_stabilizers if s.parity], "odd stabilizers without noise"
'''),
 dict(id="C19-cov-count", property="C19", edits=[
  (CV, "        if self._sampling_order == \"initial\":\n            noise_q", "        key = (delta, len(self.states[\"p\"]))\n        if self._sampling_order == \"initial\" and getattr(self, \"_cov_key\", None) == key:\n            covs = self._init_covs\n        elif self._sampling_order == \"initial\":\n            self._cov_key = key\n            noise_q")],
  needs="two applications in a row with equally many swap-outs at different places", breaks="the noise of the second has the variances of the first set", demo='''
import numpy as np
from flamingpy.codes import SurfaceCode
from flamingpy.noise import CVLayer
c = SurfaceCode(2)
n = CVLayer(c, delta=1e-6, p_swap=0.1)
rng = np.random.default_rng(0)
last = None
for _ in range(200):
    n.populate_states(rng)
    n.measure_hom("q", rng=rng)
    q = np.array(n.hom_outcomes(quad="q"))
    p = set(map(int, n.p_inds))
    assert all(abs(q[i]) < 0.1 for i in range(len(q)) if i not in p), "a GKP state with the spread of a swapped-out one"
'''),
 dict(id="C14-pair-window", property="C14", edits=[(LA, "        for j in range(i + 1):\n", "        for j in range(max(0, i - 3), i + 1):\n")],
  needs="graphs whose constraint system has five or more independent solutions, of which only a sum of distant ones is a Clifford", breaks="equivalent graphs are called inequivalent", demo='''
import numpy as np
from flamingpy.codes.graphs import EGraph
rng = np.random.default_rng(5)
def comp(g, v):
    nb = list(g[v])
    for i in range(len(nb)):
        for j in range(i):
            if g.has_edge(nb[i], nb[j]): g.remove_edge(nb[i], nb[j])
            else: g.add_edge(nb[i], nb[j])
for t in range(400):
    n = int(rng.integers(3, 9))
    g = EGraph()
    pts = [(i, 0, 0) for i in range(n)]
    g.add_nodes_from(pts)
    for i in range(1, n): g.add_edge(pts[i], pts[int(rng.integers(0, i))])
    h = EGraph(); h.add_nodes_from(pts); h.add_edges_from(g.edges)
    for _ in range(int(rng.integers(1, 9))): comp(h, pts[int(rng.integers(n))])
    assert g.is_lc_equivalent(h)[0], (g.edges, h.edges)
'''),
 dict(id="C13-alias", property="C13", edits=[
  (EG, "                    macro_graph.add_node(new_node_tup, **can_graph.nodes[node])\n", "                    macro_graph.add_node(new_node_tup)\n                    macro_graph._node[new_node_tup] = can_graph._node[node]\n")],
  needs="attributes set on a padded micronode of a macronized graph", breaks="they also appear on the vertex of the original graph", demo='''
from flamingpy.codes import SurfaceCode
g = SurfaceCode(2).graph
m = g.macronize(pad_boundary=True)
for v in m: m.nodes[v]["new"] = v
assert all("new" not in g.nodes[v] for v in g)
assert all(m.nodes[v]["new"] == v for v in m)
'''),
 dict(id="C10-support-cache", property="C10", edits=[
  (UC, "        self.status = {}\n\n        for edge in stabilizer_graph.edges():\n", "        self.status = dict(getattr(stabilizer_graph, \"_empty_support\", ()))\n\n        for edge in [] if self.status else stabilizer_graph.edges():\n"),
  (UC, "                    self.status[frozenset((edge[0], edge[1]))] = \"empty\"\n", "                    self.status[frozenset((edge[0], edge[1]))] = \"empty\"\n        stabilizer_graph._empty_support = dict(self.status)\n")],
  needs="a second union-find decoding with another erasure", breaks="the erasure of the first decoding is used", demo='''
import numpy as np
from flamingpy.codes import SurfaceCode
from flamingpy.decoders.decoder import correct
c = SurfaceCode(4)
q = sorted(c.primal_syndrome_coords)
for v in c.graph: c.graph.nodes[v].update(bit_val=0, state="GKP")
assert correct(c, "UF")
rng = np.random.default_rng(0)
for t in range(60):
    for v in c.graph: c.graph.nodes[v].update(bit_val=0, state="GKP")
    er = [q[i] for i in rng.choice(len(q), 3, replace=False)]
    for v in er:
        for w in list(c.graph[v])[:2]: c.graph.nodes[w]["state"] = "p"
    era = [v for v in q if sum(c.graph.nodes[w]["state"] == "p" for w in c.graph[v]) >= 2]
    if len(era) > 3: continue
    for v in era: c.graph.nodes[v]["bit_val"] = int(rng.integers(2))
    assert correct(c, "UF"), era
'''),
 dict(id="C23-zero-empty", property="C23", edits=[(SI, "[str(value) for value in record]", "[str(value) if value is not None else \"\" for value in record]")],
  needs="an argument whose value is None", breaks="the record has an empty field in its place", demo=""),
 dict(id="C32-shortcut", property="C32", edits=[(MW, "    stab_graph = getattr(code, ec + \"_stab_graph\")\n    matching_graph", "    stab_graph = getattr(code, ec + \"_stab_graph\")\n    # A single error is its own correction.\n    flipped = [v for v in getattr(code, ec + \"_syndrome_coords\") if code.graph.nodes[v][\"bit_val\"]]\n    if len(flipped) == 1 and not draw:\n        return set(flipped)\n    matching_graph")],
  needs="an error on one qubit with equally light corrections, or weights under which another is lighter", breaks="the correction depends on the error itself", demo='''
from flamingpy.codes import SurfaceCode
from flamingpy.decoders.decoder import assign_weights
from flamingpy.decoders.mwpm import mwpm_decoder
c = SurfaceCode(2)
bad = 0
q = sorted(c.primal_syndrome_coords)
got = {}
for v in q:
    for w in c.graph: c.graph.nodes[w]["bit_val"] = 0
    c.graph.nodes[v]["bit_val"] = 1
    assign_weights(c, "MWPM")
    syn = frozenset(i for i, s in enumerate(c.primal_stabilizers) if s.parity)
    got.setdefault(syn, set()).add(frozenset(mwpm_decoder(c, "primal")))
assert all(len(s) == 1 for s in got.values()), got
'''),
]
