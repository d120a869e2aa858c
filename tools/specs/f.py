SC = "flamingpy/codes/surface_code.py"
SG = "flamingpy/codes/graphs/stabilizer_graph.py"
EG = "flamingpy/codes/graphs/egraph.py"
ST = "flamingpy/codes/stabilizer.py"
DE = "flamingpy/decoders/decoder.py"
MA = "flamingpy/decoders/mwpm/matching.py"
AL = "flamingpy/decoders/mwpm/algos.py"
UA = "flamingpy/decoders/unionfind/algos.py"
UC = "flamingpy/decoders/unionfind/uf_classes.py"
CV = "flamingpy/noise/cv.py"
II = "flamingpy/noise/iid.py"
SI = "flamingpy/simulations.py"
GS = "flamingpy/utils/graph_states.py"
LA = "flamingpy/utils/linalg.py"
OP = "flamingpy/cv/ops.py"
GK = "flamingpy/cv/gkp.py"
VZ = "flamingpy/utils/viz.py"

SPECS = [
 dict(id="C13-short-periodic", property="C13", edits=[(EG, 'periodic_flip = -1 if can_graph.edges[edge].get("periodic") else 1', 'periodic_flip = -1 if can_graph.edges[edge].get("periodic") and distance > 3 else 1')],
  needs="periodic edges on an axis of length two", breaks="the two micronodes of a periodic edge lie on the wrong side of their macronodes",
  demo='''
import numpy as np
from flamingpy.codes import SurfaceCode
g = SurfaceCode(2, boundaries="periodic").graph
m = g.macronize()
bad = 0
for a, b, d in m.edges(data=True):
    A, B = np.round(a), np.round(b)
    towards = np.dot(np.subtract(a, A), B - A)
    bad += (towards > 0) == bool(d.get("periodic"))
assert not bad, bad
'''),
 dict(id="C08-virtual-mod", property="C08", edits=[(MA, "virtual_point = (point, i)\n", "virtual_point = (point, i % 16)\n")],
  needs="seventeen or more defects, two of which use the same nearest boundary point", breaks="two defects share one virtual boundary point, so only one of them can be matched to the boundary",
  demo='''
import random
from flamingpy.codes import SurfaceCode
from flamingpy.decoders.decoder import assign_weights
from flamingpy.decoders.mwpm.matching import NxMatchingGraph
c = SurfaceCode((5, 6, 6), boundaries="open")
r = random.Random(3)
for t in range(6):
    for n in c.graph: c.graph.nodes[n]["bit_val"] = int(r.random() < .5)
    assign_weights(c, "MWPM")
    odd = list(c.primal_stab_graph.odd_parity_stabilizers())
    m = NxMatchingGraph("primal", c)
    assert m.graph.number_of_nodes() == 2 * len(odd), (len(odd), m.graph.number_of_nodes())
'''),
 dict(id="C05-odd-cap", property="C05", edits=[(UA, "        if nb_odd_nodes % 2:\n", "        if nb_odd_nodes in (1, 3, 5, 7, 9, 11, 13, 15):\n")],
  needs="a single cluster that touches the boundary and holds seventeen or more odd stabilizers", breaks="the boundary node of a large cluster is not marked, so a defect survives the recovery",
  demo='''
from flamingpy.codes import SurfaceCode
from flamingpy.decoders.decoder import correct
import random
r = random.Random(5)
c = SurfaceCode(5, boundaries="open")
for t in range(40):
    for n in c.graph: c.graph.nodes[n].update(bit_val=int(r.random() < .5), state="p" if r.random() < .4 else "GKP")
    correct(c, "UF")
    assert not list(c.primal_stab_graph.odd_parity_stabilizers()), t
'''),
 dict(id="C12-enumerate", property="C12", edits=[(EG, "            self.to_points = {v: k for k, v in self.to_indices.items()}\n", "            self.to_points = dict(enumerate(self.to_indices))\n")],
  needs="a qubit removed after the indices are generated, and an index looked up afterwards", breaks="the index of a qubit and the qubit at that index disagree after a removal",
  demo='''
from flamingpy.codes import SurfaceCode
g = SurfaceCode(2).graph
g.index_generator()
g.remove_qubit(sorted(g)[3])
assert all(g.to_indices[g.to_points[i]] == i for i in g.to_points)
'''),
 dict(id="C32-heaviest-first", property="C32", edits=[(SG, "        return filter(lambda stab: stab.parity % 2 == 1, self.stabilizers)\n", "        def flipped(stab):\n            return sum(stab.egraph.nodes[node]['bit_val'] for node in stab.egraph)\n\n        return iter(sorted((s for s in self.stabilizers if s.parity % 2 == 1), key=flipped))\n")],
  needs="two errors with the same syndrome of which one flips three qubits of a stabilizer", breaks="the matching depends on the errors themselves and not just on the syndrome",
  demo='''
import random
from flamingpy.codes import SurfaceCode
from flamingpy.decoders.decoder import assign_weights
from flamingpy.decoders.mwpm import mwpm_decoder
r = random.Random(1)
c = SurfaceCode(4, boundaries="periodic")
def put(bits):
    for n in c.graph: c.graph.nodes[n]["bit_val"] = bits.get(n, 0)
put({})
assign_weights(c, "MWPM")
duals = sorted(n for n in c.graph if c.graph.nodes[n]["type"] == "dual")
for t in range(60):
    bits = {n: int(r.random() < .1) for n in c.primal_syndrome_coords}
    other = dict(bits)
    for d in r.sample(duals, 12):
        for q in c.graph[d]: other[q] ^= 1
    put(bits); s1 = [s.parity for s in c.primal_stabilizers]; r1 = mwpm_decoder(c, "primal")
    put(other); s2 = [s.parity for s in c.primal_stabilizers]; r2 = mwpm_decoder(c, "primal")
    assert s1 == s2
    assert r1 == r2, t
'''),
 dict(id="C32-set-order", property="C32", edits=[(UC, "        while self.status:\n            edge, status = self.status.popitem()\n", "        for edge, status in set(self.status.items()):\n")],
  needs="a grown cluster with a cycle, decoded several times", breaks="which spanning tree of a cluster is peeled depends on memory addresses, so equal syndromes get different recoveries",
  demo='''
import random
from flamingpy.codes import SurfaceCode
from flamingpy.decoders.decoder import assign_weights
from flamingpy.decoders.unionfind import uf_decoder
r = random.Random(1)
cs = [SurfaceCode(4, boundaries="periodic") for _ in range(6)]
ns = sorted(cs[0].graph)
for t in range(20):
    bits = {n: int(r.random() < .2) for n in ns}
    out = []
    for c in cs:
        for n in ns: c.graph.nodes[n].update(bit_val=bits[n])
        assign_weights(c, "UF")
        out.append([uf_decoder(c, "primal") for _ in range(2)])
    assert all(o == out[0] for o in out), t
'''),
 dict(id="C33-multigraph", property="C33", edits=[(MA, "rx.PyGraph(multigraph=False)", "rx.PyGraph()")],
  needs="an edge that is added twice to a rustworkx matching graph", breaks="the second addition does not replace the first, so the graph holds the edge twice",
  demo='''
from flamingpy.decoders.mwpm.matching import RxMatchingGraph
m = RxMatchingGraph("primal")
for w in (5, 1):
    m.add_edge(("a", "b"), w, ["a", w, "b"])
assert m.graph.num_edges() == 1
assert m.edge_weight(("a", "b")) == 1
'''),
 dict(id="C33-bound-once", property="C33", edits=[(SG, "        for stab, point in it.product(self.stabilizers, self.bound_points()):\n            if point in stab.coords():\n                self.add_edge(stab, point, common_vertex=point)\n", "        for point in self.bound_points():\n            for stab in self.stabilizers:\n                if point in stab.coords():\n                    self.add_edge(stab, point, common_vertex=point)\n                    break\n")],
  needs="a boundary point that lies in two stabilizers", breaks="the boundary point is joined only to the first of its stabilizers",
  demo='''
from flamingpy.codes.stabilizer import Stabilizer
from flamingpy.codes.graphs.stabilizer_graph import NxStabilizerGraph
from flamingpy.codes.graphs import EGraph
g = EGraph(); pts = [(i, 0, 0) for i in range(5)]
for p in pts: g.add_node(p, bit_val=0)
a, b = Stabilizer(g.subgraph(pts[:3])), Stabilizer(g.subgraph(pts[2:]))
s = NxStabilizerGraph()
s.add_stabilizers([a, b]); s.add_low_bound_points([pts[2]]); s.connect_nodes()
assert set(s.neighbors(pts[2])) == {"low", a, b}, list(s.neighbors(pts[2]))
'''),
 dict(id="C02-int8-dims", property="C02", edits=[(SC, '        dims = np.array(self.dims)\n        periodic_inds = np.where(self.boundaries == "periodic")[0]\n', '        dims = np.array(self.dims, dtype=np.int8)\n        periodic_inds = np.where(self.boundaries == "periodic")[0]\n')],
  needs="a periodic axis of length 64 or more", breaks="the stabilizers at the periodic seam of a long axis miss a qubit",
  demo='''
from flamingpy.codes import SurfaceCode
c = SurfaceCode((2, 2, 66), boundaries="periodic")
assert {len(s.coords()) for s in c.primal_stabilizers} == {6}
'''),
 dict(id="C15-det-or", property="C15", edits=[(LA, "det = (sol[k] * sol[k + 3 * n] + sol[k + n] * sol[k + 2 * n]) % 2", "det = min(sol[k] * sol[k + 3 * n] + sol[k + n] * sol[k + 2 * n], 1)")],
  needs="a candidate solution with the all-ones block at some qubit", breaks="a singular block is accepted, so the returned operation is not a Clifford",
  demo='''
import numpy as np
from flamingpy.utils.linalg import search_nullspace
assert search_nullspace(np.array([[1, 1, 1, 1]])) is None
'''),
 dict(id="C04-one-terminal", property="C04", edits=[(SG, "        subgraph.remove_nodes_from([0, 1])\n", "        subgraph.remove_node(1 if self.high_bound_points else 0)\n")],
  needs="a stabilizer graph whose weights make a detour over the low terminal the shortest", breaks="paths that must avoid the terminals pass through one of them",
  demo='''
from flamingpy.codes import SurfaceCode
c = SurfaceCode(3, boundaries="open")
for n in c.graph: c.graph.nodes[n].update(bit_val=0, weight=1 if n[0] == 0 else 50)
g = c.primal_stab_graph
g.assign_weights(c)
for s in c.primal_stabilizers:
    for path in g.shortest_paths_without_high_low(s)[1].values():
        assert "low" not in path and "high" not in path
'''),
 dict(id="C19-translator", property="C19", edits=[(CV, "            bit_val = self._translator([hom_val])[0]\n", "            bit_val = self._translator([hom_val])[0] if self.p_swap != 1 else GKP_binner([hom_val])[0]\n")],
  needs="a translator of one's own together with p_swap = 1", breaks="the requested translator is not the one used",
  demo='''
import numpy as np
from flamingpy.codes import SurfaceCode
from flamingpy.noise import CVLayer
c = SurfaceCode(2)
n = CVLayer(c, delta=.1, p_swap=1, translator=lambda x: np.array([1] * len(x)))
n.apply_noise()
assert all(c.graph.nodes[p]["bit_val"] == 1 for p in c.primal_syndrome_coords)
'''),
 dict(id="C30-clifford-form", property="C30", edits=[(LA, '    elif clifford_form == "global":\n', '    else:\n')],
  needs="an undocumented name for the Clifford form", breaks="an unknown form is silently treated as the global one",
  demo='''
from flamingpy.utils.graph_states import bell
try:
    out = bell().is_lc_equivalent(bell(), clifford_form="tensors")
except Exception:
    raise SystemExit(0)
raise SystemExit("accepted: %r" % (out,))
'''),
 dict(id="C08-prune", property="C08", edits=[(MA, "            for stab2 in odd_adjacency[stab1]:\n                length = lengths[stab2]\n", "            for stab2 in odd_adjacency[stab1]:\n                length = lengths[stab2]\n                # Distant stabilizers are better matched to the boundary.\n                if length > 2 * code.dims[0] + 1 and stab_graph.has_bound_points() and ec == 'dual':\n                    continue\n")],
  needs="a dual code that is longer along its rough axis than along x, with two defects far apart from each other and from the boundary", breaks="a pair of defects whose cheapest joint correction connects them is matched to the boundary at a higher weight",
  demo='''
from flamingpy.codes import SurfaceCode
from flamingpy.decoders.decoder import assign_weights
from flamingpy.decoders.mwpm import mwpm_decoder
c = SurfaceCode((2, 9, 9), ec="dual", boundaries="open")
stabs = c.dual_stabilizers
def at(y, z):
    return next(s for s in stabs if abs(s.midpoint()[1] - y) < .6 and abs(s.midpoint()[2] - z) < .6)
ys = sorted({s.midpoint()[1] for s in stabs}); zs = sorted({s.midpoint()[2] for s in stabs})
mid = ys[len(ys) // 2]
line = [q for q in c.dual_syndrome_coords if abs(q[1] - mid) < .1 and q[2] % 2 == 1 ]
import networkx as nx
for n in c.graph: c.graph.nodes[n]["bit_val"] = 0
assign_weights(c, "MWPM")
g = c.dual_stab_graph
best = None
lo, hi = g.shortest_paths_from_low()[0], g.shortest_paths_from_high()[0]
for s in stabs:
    d, p = g.shortest_paths_without_high_low(s)
    for t in stabs:
        if t in d and 5 < d[t] < min(lo[s], hi[s]) + min(lo[t], hi[t]):
            best = p[t], d[t]
path, dist = best
for a, b in zip(path, path[1:]):
    c.graph.nodes[g.edge_data(a, b)["common_vertex"]]["bit_val"] ^= 1
assert len(mwpm_decoder(c, "dual")) == dist
'''),
 dict(id="C29-prune-half", property="C29", edits=[(UC, '                    if support.status[frozenset((edge[0], edge[1]))] != "grown":\n                        nodes_to_keep.add(node)\n', '                    if support.status[frozenset((edge[0], edge[1]))] == "empty" or len(self.nodes) < 6:\n                        nodes_to_keep.add(node)\n')],
  needs="a merged cluster with a node whose remaining edges are all half grown", breaks="the node leaves the boundary although its half-grown edges are not grown yet, so the cluster stops growing there",
  demo='''
import itertools, random
from flamingpy.codes import SurfaceCode
from flamingpy.decoders.unionfind.algos import *
from flamingpy.decoders.unionfind.uf_classes import *
from flamingpy.decoders.decoder import assign_weights
c = SurfaceCode(3, boundaries="periodic")
for n in c.graph.nodes: c.graph.nodes[n]["bit_val"] = 0
assign_weights(c, "UF")
g = c.primal_stab_graph
nd, trees, _ = initialize_cluster_trees(g)
s = Support(g)
b = Boundary(trees[0], s, g)
for t in trees[1:8]: b.nodes.add(t.node)
for e in g.out_edges(trees[0].node.id): s.grow(e)
b.prune(s, g)
assert trees[0].node in b.nodes
'''),
 dict(id="C16-perm", property="C16", edits=[(OP, "perm_out_4 = [0, 4, 1, 5, 2, 6, 3, 7]", "perm_out_4 = [0, 4, 1, 5, 3, 7, 2, 6]")],
  needs="a splitter on more than four modes", breaks="the blocks of a large splitter act on the modes in another order than the four-mode one",
  demo='''
import numpy as np
from flamingpy.cv.ops import splitter_symp
s4, s8 = splitter_symp(), splitter_symp(8)
assert np.allclose(s8[:8:2, :8:2], s4[:4, :4])
'''),
 dict(id="C26-edge-weight", property="C26", edits=[(SG, '            if data["common_vertex"] is not None:\n                data["weight"]', '            if data["common_vertex"] is not None and data.get("weight") != -1:\n                data["weight"]')],
  needs="a code whose qubits were erased in an earlier use and are not in a later one", breaks="an edge that was once erased stays erased in every later decoding",
  demo='''
from flamingpy.codes import SurfaceCode
from flamingpy.decoders.decoder import assign_weights
c = SurfaceCode(3)
for state in ("p", "GKP"):
    for n in c.graph: c.graph.nodes[n].update(bit_val=0, state=state)
    assign_weights(c, "UF")
g = c.primal_stab_graph
assert {g.edge_data(*e)["weight"] for e in g.real_edges()} == {2}
'''),
]
