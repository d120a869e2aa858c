SC = "flamingpy/codes/surface_code.py"
SG = "flamingpy/codes/graphs/stabilizer_graph.py"
EG = "flamingpy/codes/graphs/egraph.py"
ST = "flamingpy/codes/stabilizer.py"
DE = "flamingpy/decoders/decoder.py"
MA = "flamingpy/decoders/mwpm/matching.py"
AL = "flamingpy/decoders/mwpm/algos.py"
UA = "flamingpy/decoders/unionfind/algos.py"
UC = "flamingpy/decoders/unionfind/uf_classes.py"
CV = "flamingpy/noise/cv.py"
II = "flamingpy/noise/iid.py"
SI = "flamingpy/simulations.py"
GS = "flamingpy/utils/graph_states.py"
LA = "flamingpy/utils/linalg.py"
OP = "flamingpy/cv/ops.py"
GK = "flamingpy/cv/gkp.py"
VZ = "flamingpy/utils/viz.py"

SPECS = [
 dict(id="C29-thrice", property="C29", edits=[
  (UA, "        temp_odd_clusters = set()\n        for cluster in odd_clusters:\n            temp_odd_clusters.add(cluster.node.find_root())\n", "        temp_odd_clusters = []\n        for cluster in odd_clusters:\n            temp_odd_clusters.append(cluster.node.find_root())\n"),
  (UA, "        temp_odd_clusters = set()\n        for cluster in odd_clusters:\n            if cluster.parity:\n                if not cluster.boundary:\n                    temp_odd_clusters.add(cluster)\n", "        temp_odd_clusters = []\n        for cluster in odd_clusters:\n            if cluster.parity:\n                if not cluster.boundary:\n                    temp_odd_clusters.append(cluster)\n")],
  needs="three odd clusters that merge into one that stays odd", breaks="the merged cluster grows three times per round, past the half-edge it should grow by",
  demo='''
from flamingpy.codes.graphs.stabilizer_graph import RxStabilizerGraph
from flamingpy.codes import SurfaceCode
from flamingpy.decoders.decoder import assign_weights
from flamingpy.decoders.unionfind.algos import initialize_cluster_trees, union_find
from flamingpy.decoders.unionfind.uf_classes import Support, Boundary
import numpy as np
code = SurfaceCode((5, 3, 4))
g = code.primal_stab_graph
qs = sorted(set(code.all_syndrome_coords))
rng = np.random.default_rng(0)
def grown(err):
    for q in code.graph: code.graph.nodes[q]["bit_val"] = int(q in err)
    assign_weights(code, "UF")
    nd, trees, odd = initialize_cluster_trees(g)
    sup = Support(g)
    b = {c.node: Boundary(c, sup, g) for c in trees}
    union_find(odd, b, g, sup, nd)
    return sum(v == "grown" for v in sup.status.values())
# independent growth with plain sets
nodes = [s for s in g.nodes() if s not in ("low", "high")]
edges = [frozenset(e) for e in g.real_edges()]
def find(v):
    while comp[v] is not v: v = comp[v]
    return v
def odd_roots():
    par, bnd = {}, set()
    for v in nodes:
        r = find(v)
        if isinstance(v, tuple): bnd.add(id(r)); par.setdefault(id(r), 0)
        else: par[id(r)] = par.get(id(r), 0) ^ v.parity
    return {r for r, p in par.items() if p and r not in bnd}
for t in range(150):
    full = grown({q for q in qs if rng.random() < .06})
    st = {e: 0 for e in edges}
    comp = {v: v for v in nodes}
    while odd_roots():
        o = odd_roots()
        new = []
        for e in edges:
            if st[e] >= 2: continue
            for v in e:
                if id(find(v)) in o:
                    st[e] = st[e] + 1
            if st[e] >= 2: new.append(e)
        for e in new:
            a, b = e
            ra, rb = find(a), find(b)
            if ra is not rb: comp[ra] = rb
    assert full == sum(v >= 2 for v in st.values()), t
'''),
 dict(id="C08-shared-edge", property="C08", edits=[(AL, "                qubits_to_flip ^= {common_vertex}\n", "                qubits_to_flip.add(common_vertex)\n")],
  needs="two matched paths that share a qubit, e.g. one of weight 0", breaks="a qubit crossed by two correction paths is flipped instead of left alone",
  demo='''
import numpy as np
from flamingpy.codes import SurfaceCode
from flamingpy.decoders.mwpm.algos import mwpm_decoder
from flamingpy.decoders.decoder import recovery
rng = np.random.default_rng(0)
for t in range(200):
    c = SurfaceCode(3, boundaries="toric")
    for q in c.graph:
        c.graph.nodes[q]["bit_val"] = int(rng.random() < .4)
        c.graph.nodes[q]["weight"] = int(rng.random() < .2)
    c.primal_stab_graph.assign_weights(c)
    recovery(mwpm_decoder(c, "primal"), c, "primal")
    assert not list(c.primal_stab_graph.odd_parity_stabilizers())
'''),
 dict(id="C33-inner-cache", property="C33", edits=[(SG, '''        subgraph = self.graph.copy()  # This is a shallow copy.
        # We know that nodes 0 and 1 are the 'high' and 'low' nodes.
        subgraph.remove_nodes_from([0, 1])
        return self._shortest_paths_from(subgraph, source)
''', '''        if getattr(self, "_inner_size", None) != self.graph.num_nodes():
            self._inner_size = self.graph.num_nodes()
            self._inner = self.graph.copy()  # This is a shallow copy.
            # We know that nodes 0 and 1 are the 'high' and 'low' nodes.
            self._inner.remove_nodes_from([0, 1])
        return self._shortest_paths_from(self._inner, source)
''')],
  needs="an edge inserted between two path searches", breaks="the second search does not know the new edge",
  demo='''
from flamingpy.codes.graphs.stabilizer_graph import RxStabilizerGraph
g = RxStabilizerGraph()
for p in ((0, 0, 0), (1, 0, 0), (2, 0, 0)): g.add_node(p)
def e(a, b, w):
    g.add_edge(a, b, common_vertex=None)
    g.edge_data(a, b)["weight"] = w
e((0, 0, 0), (1, 0, 0), 5); e((1, 0, 0), (2, 0, 0), 5)
assert g.shortest_paths_without_high_low((0, 0, 0))[0][(2, 0, 0)] == 10
e((0, 0, 0), (2, 0, 0), 1)
assert g.shortest_paths_without_high_low((0, 0, 0))[0][(2, 0, 0)] == 1
'''),
 dict(id="C19-fixed-count", property="C19", edits=[(CV, "            num_p = rng.binomial(self._N, self.p_swap)\n", "            num_p = self._N * self.p_swap\n")],
  needs="the number of swapped-out states over many applications", breaks="every application swaps out the same number of states instead of a binomial one",
  demo='''
import numpy as np
from flamingpy.codes import SurfaceCode
from flamingpy.noise import CVLayer
c = SurfaceCode(3)
l = CVLayer(c, delta=.1, p_swap=.3)
rng = np.random.default_rng(0)
ns = set()
for t in range(60):
    l.populate_states(rng)
    ns.add(len(l.p_inds))
assert len(ns) > 5
'''),
 dict(id="C19-window", property="C19", edits=[(CV, "            inds = rng.choice(range(self._N), size=int(np.floor(num_p)), replace=False)\n", "            inds = (rng.integers(self._N) + np.arange(num_p)) % self._N\n")],
  needs="joint statistics of the swapped-out qubits", breaks="the swapped-out qubits are a contiguous run of indices rather than independent",
  demo='''
import numpy as np
from flamingpy.codes import SurfaceCode
from flamingpy.noise import CVLayer
c = SurfaceCode(3)
l = CVLayer(c, delta=.1, p_swap=.3)
rng = np.random.default_rng(0)
both = 0
for t in range(400):
    l.populate_states(rng)
    s = set(int(i) for i in l.p_inds)
    both += {10, 11} <= s
assert both < 70, both
'''),
 dict(id="C01-seam-corner", property="C01", edits=[(SC, "                    for ind in where_neighbor_0 & periodic_inds:\n", "                    for ind in list(where_neighbor_0 & periodic_inds)[:1]:\n")],
  needs="two periodic axes and a vertex on both seams", breaks="wrap-around edges are missing on the lines where two seams meet",
  demo='''
from flamingpy.codes import SurfaceCode
g = SurfaceCode(3, boundaries="periodic").graph
assert all(g.degree(v) == 4 for v in g)
'''),
 dict(id="C20-silent-planets", property="C20", edits=[(CV, '''        self.measure_hom(quad="q", inds=planets, updated_means=unpermuted_quads, rng=rng)
''', '''        silent = np.zeros(2 * N, dtype=np.float32)
        self.measure_hom(
            quad="q", inds=planets, updated_means=unpermuted_quads, updated_covs=silent, rng=rng
        )
''')],
  needs="statistics of the reduced lattice at moderate noise", breaks="the planets are measured without noise, so far fewer errors occur than the probabilities say",
  demo='''
import numpy as np
from flamingpy.codes import SurfaceCode
from flamingpy.noise import CVMacroLayer
c = SurfaceCode(3, boundaries="toric")
l = CVMacroLayer(c, delta=.01)
l.apply_noise(np.random.default_rng(0))
a = np.sqrt(np.pi) / 2
x = [d["hom_val_q"] for p, d in l.egraph.nodes(data=True) if d["body_index"] > 1]
r = [v - a * round(v / a) for v in x]
assert .003 < np.var(r) < .008, np.var(r)
'''),
 dict(id="C20-half-noise", property="C20", edits=[(CV, "            covs = np.full(N_inds, (self.delta / 2) ** 0.5, dtype=np.float32)\n            if", "            covs = np.full(N_inds, (self.delta / 2) ** 0.5, dtype=np.float32)\n            if self.egraph.macro_to_micro and N_inds < self._N / 2:\n                covs /= 2 ** 0.5\n            if")],
  needs="a macronode lattice at moderate noise", breaks="star modes are measured with half the variance",
  demo='''
import numpy as np
from flamingpy.codes import SurfaceCode
from flamingpy.noise import CVMacroLayer
c = SurfaceCode(3, boundaries="toric")
l = CVMacroLayer(c, delta=.1)
rng = np.random.default_rng(0)
x = []
for t in range(40):
    l.populate_states(rng)
    inds = list(range(0, 100, 4))
    z = np.zeros(2 * len(l.egraph))
    l.measure_hom("p", inds, updated_means=z, rng=rng)
    x += l.hom_outcomes(inds)
assert abs(np.var(x) - .05) < .01, np.var(x)
'''),
 dict(id="C11-boundary-degree", property="C11", edits=[(DE, "delta_effective = (len(neighbors) + 1) * weight_options.get(\"delta\")", "delta_effective = 5 * weight_options.get(\"delta\")")],
  needs="blueprint weights without precomputed probabilities at a boundary qubit with fewer than four neighbours", breaks="the effective noise of boundary qubits is overestimated",
  demo='''
import numpy as np
from flamingpy.codes import SurfaceCode
from flamingpy.noise import CVLayer
from flamingpy.cv.gkp import Z_err_cond
from flamingpy.decoders.decoder import assign_weights
c = SurfaceCode(3)
CVLayer(c, delta=.1).apply_noise(np.random.default_rng(0))
assign_weights(c, "MWPM", method="blueprint", delta=.1)
for q in c.all_syndrome_coords:
    e = Z_err_cond((len(c.graph[q]) + 1) * .1, c.graph.nodes[q]["hom_val_p"])
    assert np.isclose(c.graph.nodes[q]["weight"], -np.log(min(e, .5)), rtol=1e-5), q
'''),
 dict(id="C15-raw-null", property="C15", edits=[(LA, "    N = R[p:, n_cols:]\n    basis, _ = reduce_RREform_mod2(N)\n    return basis\n", "    basis = R[min(p, n_cols - 1) :, n_cols:]\n    return basis\n")],
  needs="a matrix of full column rank of its transpose", breaks="a vector outside the null space is returned as part of its basis",
  demo='''
import numpy as np
from flamingpy.utils.linalg import nullspace_basis
rng = np.random.default_rng(0)
for t in range(100):
    m = rng.integers(0, 2, (3, 6))
    b = nullspace_basis(m)
    assert not (m @ b.T % 2).any()
'''),
 dict(id="C02-parity-cache", property="C02", edits=[(ST, '''        bit_vals = [self.egraph.nodes[node]["bit_val"] for node in self.egraph]
        par = int(np.sum(bit_vals) % 2)
        return par
''', '''        bit_vals = [self.egraph.nodes[node]["bit_val"] for node in self.egraph]
        key = sum(1 << i for i, bit in enumerate(bit_vals[:5]) if bit)
        if key not in self._parities:
            self._parities[key] = int(np.sum(bit_vals) % 2)
        return self._parities[key]
'''), (ST, "        self.physical = None\n", "        self.physical = None\n        self._parities = {}\n")],
  needs="a stabilizer of six qubits read twice, between which only its sixth qubit changes", breaks="the parity is stale",
  demo='''
from flamingpy.codes import SurfaceCode
c = SurfaceCode(3, boundaries="periodic")
for q in c.graph: c.graph.nodes[q]["bit_val"] = 0
for s in c.primal_stabilizers:
    assert s.parity == 0
for q in c.primal_syndrome_coords:
    c.graph.nodes[q]["bit_val"] = 1
    for s in c.primal_stabilizers:
        assert s.parity == (q in s.coords()), q
    c.graph.nodes[q]["bit_val"] = 0
'''),
 dict(id="C07-one-sided", property="C07", edits=[(UA, "            for node in boundary[cluster.node].nodes:\n                for edge in stabilizer_graph.out_edges(node.id):\n                    if (", "            for node in boundary[cluster.node].nodes:\n                for edge in stabilizer_graph.out_edges(node.id):\n                    if node.find_root() is not cluster:\n                        continue\n                    if len(odd_clusters) > 6 and cluster.size > 7 and cluster.parity:\n                        continue\n                    if (")],
  needs="", breaks="", demo=''),
]
SPECS = [s for s in SPECS if s["demo"]]
