SC = "flamingpy/codes/surface_code.py"
SG = "flamingpy/codes/graphs/stabilizer_graph.py"
MW = "flamingpy/decoders/mwpm/algos.py"
MG = "flamingpy/decoders/mwpm/matching.py"
UA = "flamingpy/decoders/unionfind/algos.py"
UC = "flamingpy/decoders/unionfind/uf_classes.py"
DE = "flamingpy/decoders/decoder.py"

SPECS = [
 dict(id="C02-physical", property="C02", edits=[(SC, "                cube.physical = stabe\n", "                cube.physical = actual_stabe if len(actual_stabe) == 6 else stabe\n")],
  needs="periodic boundaries: a stabilizer that wraps around the lattice", breaks="the physical coordinates, limits and midpoint of a wrapped stabilizer are no longer those of the local cube",
  demo='''
from flamingpy.codes import SurfaceCode
code = SurfaceCode(3, ec="dual", boundaries="periodic")
for s in code.dual_stabilizers:
    for lo, hi in (s.xlims(), s.ylims(), s.zlims()):
        assert hi - lo == 2, s
'''),
 dict(id="C03-bound-sort", property="C03", edits=[(SC, "return list(final_low_set) + list(final_high_set)", "return sorted(final_low_set | final_high_set)")],
  needs="an open code of the dual complex, where coordinate order does not follow the y axis", breaks="half of the boundary points are attached to the wrong terminal, so the 'low' and 'high' terminals are at distance 0",
  demo='''
from flamingpy.codes import SurfaceCode
for ec, ax in (("primal", 0), ("dual", 1)):
    c = SurfaceCode(3, ec=ec, boundaries="open")
    g = getattr(c, ec + "_stab_graph")
    assert len({p[ax] for p in g.low_bound_points}) == 1, g.low_bound_points
    assert len({p[ax] for p in g.high_bound_points}) == 1
'''),
 dict(id="C03-high-index", property="C03", edits=[(SC, "high_index = 2 * dims[bound_ind] - 2 if ec == \"primal\" else 2 * dims[bound_ind] - 1", "high_index = 2 * dims[0] - 2 if ec == \"primal\" else 2 * dims[0] - 1")],
  needs="a dual open code whose extents along x and y differ", breaks="the high boundary of the dual stabilizer graph is taken in the wrong plane or is missing",
  demo='''
from flamingpy.codes import SurfaceCode
c = SurfaceCode((3, 4, 3), ec="dual", boundaries="open")
hi = c.dual_stab_graph.high_bound_points
assert hi and all(p[1] == 7 for p in hi), hi
'''),
 dict(id="C03-seam-pairs", property="C03", edits=[(SG, "            common_vertex = set(stab1.coords()) & set(stab2.coords())\n", "            if np.abs(np.subtract(stab1.midpoint(), stab2.midpoint())).sum() > 10:\n                continue\n            common_vertex = set(stab1.coords()) & set(stab2.coords())\n"),
     (SG, "import networkx as nx\n", "import networkx as nx\nimport numpy as np\n")],
  needs="a periodic axis of length 7 or more", breaks="stabilizers that share a qubit across the seam of a long periodic axis are not connected",
  demo='''
from flamingpy.codes import SurfaceCode
c = SurfaceCode((8, 3, 3), boundaries="periodic")
g = c.primal_stab_graph
assert len(list(g.edges())) == 3 * 8 * 9, len(list(g.edges()))
'''),
 dict(id="C04-to-nx-zero", property="C04", edits=[(SG, '            if "weight" in self.edge_data(*edge):\n', '            if self.edge_data(*edge).get("weight"):\n')],
  needs="an edge of weight 0 (the terminals, or a qubit with weight 0) and a conversion to networkx", breaks="zero weights are lost in to_nx(), so shortest paths see weight 1 there",
  demo='''
from flamingpy.codes import SurfaceCode
from flamingpy.decoders.decoder import assign_weights
c = SurfaceCode(3)
assign_weights(c, "MWPM")
g = c.primal_stab_graph
a = g.shortest_paths_from_low()[0]
b = g.to_nx().shortest_paths_from_low()[0]
for k in b:
    assert a[k] == b[k], (k, a[k], b[k])
'''),
 dict(id="C04-rx-terminals", property="C04", edits=[(SG, "        subgraph.remove_nodes_from([0, 1])\n        return self._shortest_paths_from(subgraph, source)", "        subgraph.remove_node(self.node_to_index[\"low\"])\n        if self.high_bound_points and len(self.high_bound_points) < 60:\n            subgraph.remove_node(self.node_to_index[\"high\"])\n        return self._shortest_paths_from(subgraph, source)")],
  needs="rustworkx backend, a code with at least 60 qubits on its high face", breaks="paths between stabilizers may run through the 'high' terminal on large codes",
  demo='''
from flamingpy.codes import SurfaceCode
from flamingpy.decoders.decoder import assign_weights
c = SurfaceCode((2, 8, 8))
assign_weights(c, "MWPM")
g = c.primal_stab_graph
for s in g.stabilizers[:3]:
    w, p = g.shortest_paths_without_high_low(s)
    assert "high" not in w and "low" not in w
'''),
 dict(id="C05-mwpm-or", property="C05", edits=[(MW, "                qubits_to_flip ^= {common_vertex}", "                qubits_to_flip.add(common_vertex)")],
  needs="two matched paths that share a qubit, e.g. equal or zero weights", breaks="overlapping correction paths do not cancel: stabilizers stay odd after the recovery",
  demo='''
import itertools
import numpy as np
from flamingpy.codes import SurfaceCode
from flamingpy.decoders.decoder import recovery
from flamingpy.decoders.mwpm import mwpm_decoder
rng = np.random.default_rng(1)
for backend in ("networkx", "rustworkx"):
    code = SurfaceCode(3, backend=backend)
    g = code.primal_stab_graph
    for trial in range(60):
        for q in code.graph:
            code.graph.nodes[q]["bit_val"] = int(rng.random() < 0.3)
            code.graph.nodes[q]["weight"] = float(rng.choice([0, 0, 1]))
        g.assign_weights(code)
        recovery(mwpm_decoder(code, "primal", backend="networkx"), code, "primal")
        assert not list(g.odd_parity_stabilizers()), trial
'''),
 dict(id="C05-uf-forest-edge", property="C05", edits=[(UA, "    if parity_dict[leaf] == 1:\n        recovery.add(edge_qubit_index)\n        parity_dict[leaf] = 0\n        parity_dict[new_leaf] ^= 1\n    if spanning_forest.degree(new_leaf) == 1:", "    if parity_dict[leaf] == 1:\n        recovery.add(edge_qubit_index)\n        parity_dict[leaf] = 0\n        parity_dict[new_leaf] ^= 1\n    if spanning_forest.degree(new_leaf) == 1 and len(recovery) < 64:")],
  needs="a correction of at least 64 qubits (a large code at a high error rate)", breaks="peeling stops early on large corrections, so stabilizers stay odd",
  demo='''
import numpy as np
from flamingpy.codes import SurfaceCode
from flamingpy.decoders import correct
rng = np.random.default_rng(2)
code = SurfaceCode(7)
for trial in range(4):
    for q in code.graph:
        code.graph.nodes[q]["bit_val"] = int(rng.random() < 0.4)
    correct(code, decoder="UF")
    assert not list(code.primal_stab_graph.odd_parity_stabilizers())
'''),
 dict(id="C06-verdict-plane", property="C06", edits=[(DE, 'planes_to_check = ["x"] if ec == "primal" else ["y"]', 'planes_to_check = ["x"] if ec == "primal" or code.dims[0] > code.dims[1] else ["y"]')],
  needs="a dual open code that is longer along x than along y", breaks="the wrong planes are used for the verdict: logical operators of the dual complex are missed and stabilizer-like chains counted",
  demo='''
from flamingpy.codes import SurfaceCode
from flamingpy.decoders.decoder import check_correction
c = SurfaceCode((4, 2, 3), ec="dual")
for q in c.graph:
    c.graph.nodes[q]["bit_val"] = 0
g = c.dual_stab_graph
import networkx as nx
h = g.to_nx().graph
p = nx.shortest_path(h, "low", "high")
for a, b in zip(p, p[1:]):
    v = h.edges[a, b]["common_vertex"]
    if v is not None:
        c.graph.nodes[v]["bit_val"] ^= 1
assert not list(g.odd_parity_stabilizers())
assert not check_correction(c)[0]
'''),
 dict(id="C08-hops", property="C08", edits=[(MG, "            distances = (low_lengths[cube], high_lengths[cube])\n", "            distances = (len(low_paths[cube]), len(high_paths[cube]))\n")],
  needs="non-uniform weights where the boundary with fewer edges is not the closest one", breaks="the matching decoder connects defects to the wrong boundary",
  demo='''
import numpy as np
from flamingpy.codes import SurfaceCode
from flamingpy.decoders.mwpm.algos import build_match_graph
rng = np.random.default_rng(0)
c = SurfaceCode(3)
g = c.primal_stab_graph
for t in range(30):
    for q in c.graph:
        c.graph.nodes[q]["bit_val"] = int(rng.random() < 0.1)
        c.graph.nodes[q]["weight"] = int(rng.integers(1, 50))
    g.assign_weights(c)
    lo, hi = g.shortest_paths_from_low()[0], g.shortest_paths_from_high()[0]
    m = build_match_graph(c, "primal", "networkx")
    for v in m.virtual_points:
        for s in g.odd_parity_stabilizers():
            if m.graph.has_edge(s, v):
                assert m.edge_weight((s, v)) == min(lo[s], hi[s])
'''),
 dict(id="C09-nx-round", property="C09", edits=[(MG, "inverse_weight=-weight, path=path)", "inverse_weight=-round(weight, 1), path=path)")],
  needs="the networkx or lemon backend with weights that differ by less than 0.1", breaks="the matching minimises rounded weights",
  demo='''
from flamingpy.decoders.mwpm.matching import NxMatchingGraph
from itertools import permutations
w = {(0, 1): 0.31, (2, 3): 0.31, (0, 2): 0.28, (1, 3): 0.28, (0, 3): 0.34, (1, 2): 0.34}
for p in permutations(range(4)):
    g = NxMatchingGraph("primal")
    for (a, b), x in w.items():
        g.add_edge((p[a], p[b]), x)
    assert abs(g.total_weight_of(g.min_weight_perfect_matching()) - 0.56) < 1e-6
'''),
 dict(id="C06-sanity-range", property="C06", edits=[(DE, "maximum = 2 * dims[dir_dict[plane_str]] if sanity_check else minimum + 2", "maximum = 2 * min(dims) if sanity_check else minimum + 2")],
  needs="sanity_check on a non-cubic code", breaks="planes are missing in the parity dictionary",
  demo='''
from flamingpy.codes import SurfaceCode
from flamingpy.decoders.decoder import check_correction
c = SurfaceCode((4, 2, 3))
for q in c.graph:
    c.graph.nodes[q]["bit_val"] = 0
r, t = check_correction(c, sanity_check=True)
assert len(t[0]["x"]) == 4, t
'''),
 dict(id="C06-periodic-z", property="C06", edits=[(DE, 'planes_to_check = ["x", "y", "z"]', 'planes_to_check = ["x", "y", "z"] if dims[2] <= max(dims[:2]) else ["x", "y"]')],
  needs="a periodic code that is longest along z, with a logical operator along z", breaks="logical operators along z are not seen",
  demo='''
from flamingpy.codes import SurfaceCode
from flamingpy.decoders.decoder import check_correction
c = SurfaceCode((2, 2, 3), boundaries="periodic")
for q in c.graph:
    c.graph.nodes[q]["bit_val"] = 0
for z in range(0, 6, 2):
    c.graph.nodes[(1, 1, z)]["bit_val"] = 1
assert not list(c.primal_stab_graph.odd_parity_stabilizers())
assert not check_correction(c)[0]
'''),
 dict(id="C07-uf-break", property="C07", edits=[(UA, "                            fusion_list += [(edge[0], edge[1])]\n", "                            fusion_list += [(edge[0], edge[1])]\n                            break\n")],
  needs="union-find: a node with several edges that complete in the same round", breaks="clusters do not grow equally in every direction, so some errors below half the distance are miscorrected",
  demo='''
import numpy as np
from flamingpy.codes import SurfaceCode
from flamingpy.decoders import correct
rng = np.random.default_rng(5)
code = SurfaceCode((5, 3, 4))
qs = sorted(set(code.all_syndrome_coords))
for t in range(4000):
    y, z = qs[rng.integers(len(qs))][1:]
    col = [q for q in qs if abs(q[1] - y) < 2 and abs(q[2] - z) < 2]
    err = [col[i] for i in rng.choice(len(col), 2, replace=False)]
    for q in code.graph:
        code.graph.nodes[q]["bit_val"] = 0
    for q in err:
        code.graph.nodes[q]["bit_val"] = 1
    assert correct(code, decoder="UF"), err
'''),
 dict(id="C09-lemon-nonedge", property="C09", edits=[("flamingpy/decoders/mwpm/lemon.py", "nonedge=-(2**64) + 1", "nonedge=-(2**10) + 1")],
  needs="the lemon backend, a matching graph that is not complete, and weights above a thousand", breaks="the matching contains pairs that are not edges of the graph",
  demo='''
from flamingpy.decoders.mwpm.matching import LemonMatchingGraph
g = LemonMatchingGraph("primal")
for a, b, w in [(0, 1, 4000), (2, 3, 4000), (1, 2, 10)]:
    g.add_edge((a, b), w)
assert g.total_weight_of(g.min_weight_perfect_matching()) == 8000
'''),
 dict(id="C09-rx-payload", property="C09", edits=[(MG, "        self.graph.add_edge(\n            self.node_index(edge[0]),\n            self.node_index(edge[1]),\n            RxEdgePayload(weight, path),\n        )", "        if weight or path or self.graph.num_edges() < 300:\n            self.graph.add_edge(\n                self.node_index(edge[0]),\n                self.node_index(edge[1]),\n                RxEdgePayload(weight, path),\n            )")],
  needs="the rustworkx backend with more than 300 edges, i.e. about 18 defects or more on a code with boundaries", breaks="zero-weight edges are left out on large matching graphs, so a perfect matching may not exist or is not minimal",
  demo='''
import numpy as np
from flamingpy.codes import SurfaceCode
from flamingpy.decoders.decoder import assign_weights
from flamingpy.decoders.mwpm.algos import build_match_graph
rng = np.random.default_rng(0)
c = SurfaceCode(6)
for t in range(8):
    for q in c.graph:
        c.graph.nodes[q]["bit_val"] = int(rng.random() < 0.2)
    assign_weights(c, "MWPM")
    a = build_match_graph(c, "primal", "rustworkx")
    b = build_match_graph(c, "primal", "networkx")
    assert a.graph.num_edges() == b.graph.number_of_edges()
'''),
 dict(id="C02-dual-seam", property="C02", edits=[(SC, "                    highest_point[ind] = 2 * dims[ind] - 1\n", "                    highest_point[ind] = 2 * max(dims[ind], dims[periodic_inds[0]]) - 1\n")],
  needs="dual error complex, periodic or toric boundaries, and an extent along y or z that is smaller than the one along x", breaks="the dual stabilizers across the seam contain a vertex that is not in the lattice",
  demo='''
from flamingpy.codes import SurfaceCode
for d, b in [((4, 3, 3), "periodic"), ((4, 3, 5), "periodic")]:
    code = SurfaceCode(d, ec="dual", boundaries=b)
    for s in code.dual_stabilizers:
        c = s.coords()
        assert len(c) == 6 and all(q in code.graph for q in c), (d, b, c)
'''),
 dict(id="C02-syndrome-list", property="C02", edits=[(SC, "                syndrome_coords += actual_stabe\n", "                syndrome_coords += actual_stabe if len(actual_stabe) > 3 else []\n")],
  needs="a code with stabilizers of weight 3 whose qubits are in no other stabilizer: mixed small extents", breaks="some qubits of stabilizers are not syndrome qubits",
  demo='''
from flamingpy.codes import SurfaceCode
for d in [(2, 2, 2), (2, 3, 1), (3, 1, 1), (2, 1, 2), (3, 2, 1), (1, 2, 1), (2, 1, 3)]:
    for ec in ("primal", "dual"):
        try:
            code = SurfaceCode(d, ec=ec)
        except Exception:
            continue
        q = {v for s in getattr(code, ec + "_stabilizers") for v in s.coords()}
        assert q == set(code.all_syndrome_coords), (d, ec)
'''),
 dict(id="C08-shared-virtual", property="C08", edits=[(MG, "            virtual_point = (point, i)\n", "            virtual_point = (point, i % 16)\n")],
  needs="more than 16 defects of which two share the nearest boundary qubit and are 16 apart in order", breaks="two defects share one virtual boundary point, so the matching is not minimum (or perfect)",
  demo='''
import numpy as np
from flamingpy.codes import SurfaceCode
from flamingpy.decoders.mwpm.algos import build_match_graph
rng = np.random.default_rng(0)
c = SurfaceCode((2, 3, 12))
g = c.primal_stab_graph
for t in range(20):
    for q in c.graph:
        c.graph.nodes[q]["bit_val"] = int(rng.random() < 0.5)
        c.graph.nodes[q]["weight"] = 1000 if q[0] in (0, 2) else 1
    c.graph.nodes[g.low_bound_points[3]]["weight"] = 0
    g.assign_weights(c)
    m = build_match_graph(c, "primal", "networkx")
    n = len(list(g.odd_parity_stabilizers()))
    assert len(set(m.virtual_points)) == n, (n, len(set(m.virtual_points)))
'''),
 dict(id="C10-boundary-init", property="C10", edits=[(UC, "            if node == cluster.node:\n                break\n", "            if node == cluster.node or len(self.nodes) > 3:\n                break\n")],
  needs="an erased cluster with more than four boundary nodes that has to grow", breaks="large erased clusters only grow from four of their nodes",
  demo='''
import numpy as np
from flamingpy.codes import SurfaceCode
from flamingpy.decoders.decoder import assign_weights
from flamingpy.decoders.unionfind.algos import initialize_cluster_trees
from flamingpy.decoders.unionfind.uf_classes import Support, Boundary
rng = np.random.default_rng(3)
code = SurfaceCode((5, 3, 3))
g = code.primal_stab_graph
qs = sorted(set(code.all_syndrome_coords))
for t in range(20):
    er = {qs[i] for i in rng.choice(len(qs), 20, replace=False)}
    for q in code.graph:
        code.graph.nodes[q]["bit_val"] = 0
        code.graph.nodes[q]["weight"] = -1 if q in er else 2
    g.assign_weights(code)
    nd, trees, odd = initialize_cluster_trees(g)
    sup = Support(g)
    n = sum(len(Boundary(c, sup, g).nodes) for c in trees)
    want = sum(any(g.edge_data(*e)["weight"] != -1 for e in g.out_edges(v) if not {"low", "high"} & set(map(str, e))) for v in nd)
    assert n == want, (n, want)
'''),
 dict(id="C10-union-boundary", property="C10", edits=[(UA, "        if small_root.boundary:\n            big_root.boundary = small_root.boundary\n", "        if small_root.boundary and small_root.size < 4:\n            big_root.boundary = small_root.boundary\n")],
  needs="union-find: a cluster of four or more nodes that touches the boundary is absorbed by a larger one", breaks="the union forgets that it touches the boundary, and keeps growing",
  demo='''
from flamingpy.decoders.unionfind.uf_classes import Node, Root
from flamingpy.decoders.unionfind.algos import union
b = Root(Node((0, 1, 1)), parity="boundary")
for i in range(4):
    union(b, Root(Node(("b", i)), parity=0))
a = Root(Node("a"), parity=1)
for i in range(9):
    union(a, Root(Node(("a", i)), parity=0))
union(a, b)
assert a.boundary
'''),
]
SPECS = [s for s in SPECS if s["needs"] != "-"]
