SC = "flamingpy/codes/surface_code.py"
SG = "flamingpy/codes/graphs/stabilizer_graph.py"
EG = "flamingpy/codes/graphs/egraph.py"
LA = "flamingpy/utils/linalg.py"
SI = "flamingpy/simulations.py"
AL = "flamingpy/decoders/mwpm/algos.py"
MA = "flamingpy/decoders/mwpm/matching.py"
UA = "flamingpy/decoders/unionfind/algos.py"
UC = "flamingpy/decoders/unionfind/uf_classes.py"
DE = "flamingpy/decoders/decoder.py"
ST = "flamingpy/codes/stabilizer.py"
CPP = "flamingpy/cpp/lemonpy.cpp"

UFH = '''
import numpy as np, itertools
from flamingpy.codes import SurfaceCode
from flamingpy.decoders.decoder import correct
def fresh(**k):
    c = SurfaceCode(**k)
    for q in c.graph:
        c.graph.nodes[q]["bit_val"] = 0
        c.graph.nodes[q]["state"] = "GKP"
    return c
'''
SPECS = [
 dict(id="C29-small-boundary", property="C29", edits=[(UC, "        if parity == \"boundary\":\n", "        if parity == \"boundary\" and node.id is not None:\n"), (UA, "        if small_root.boundary:\n            big_root.boundary = small_root.boundary\n", "        if small_root.boundary and not small_root.parity:\n            big_root.boundary = small_root.boundary\n")],
  needs="a cluster that holds a boundary node and an odd number of defects is merged as the smaller one", breaks="the merged cluster forgets its boundary node", demo='''
from flamingpy.decoders.unionfind.uf_classes import Node, Root
from flamingpy.decoders.unionfind.algos import union
b = Root(Node("b"), parity="boundary")
union(b, Root(Node("s"), parity=1))
big = Root(Node("x"), parity=1)
for k in range(4): union(big, Root(Node(k), parity=0))
union(big, b)
assert big.boundary is not None and big.parity == 0 and big.size == 7
'''),
 dict(id="C32-bit-order", property="C32", edits=[(SG, "        return filter(lambda stab: stab.parity % 2 == 1, self.stabilizers)\n", "        odd = [stab for stab in self.stabilizers if stab.parity % 2 == 1]\n        # fully flipped stabilizers first: they are the most certain ones\n        odd.sort(key=lambda stab: sum(stab.egraph.nodes[q][\"bit_val\"] for q in stab.coords()) < 3)\n        return iter(odd)\n")],
  needs="two error sets of one syndrome, tied matchings, and a stabilizer with three or more flipped qubits in one of the sets only", breaks="the correction depends on which representative of the error class happened", demo=UFH + '''
from flamingpy.decoders.decoder import assign_weights
from flamingpy.decoders import mwpm_decoder
rng = np.random.default_rng(0)
c = fresh(distance=4, ec="primal", boundaries="open")
qs = sorted(c.primal_syndrome_coords)
stabs = c.dual_stabilizers if "dual" in c.ec else None
d = SurfaceCode(4, ec="dual", boundaries="open")
assign_weights(c, "MWPM")
g = c.graph
dual = [v for v in g if g.nodes[v]["type"] == "dual"]
def put(x):
    for q in g: g.nodes[q]["bit_val"] = int(q in x)
for t in range(300):
    x = {qs[k] for k in rng.choice(len(qs), 12, replace=False)}
    y = set(x)
    for k in rng.choice(len(dual), 6):
        nb = {v for v in g[dual[k]]}
        put(nb)
        if any(s.parity for s in c.primal_stabilizers): continue
        y ^= nb
    put(x); a = mwpm_decoder(c, "primal"); sa = [s.parity for s in c.primal_stabilizers]
    put(y); b = mwpm_decoder(c, "primal"); sb = [s.parity for s in c.primal_stabilizers]
    assert sa == sb
    assert a == b, t
'''),
 dict(id="C04-float32", property="C04", edits=[(SG, "    return float(edge[\"weight\"])\n", "    weight = edge[\"weight\"]\n    return float(np.float32(weight)) if weight > 2**24 else float(weight)\n"), (SG, "import itertools as it\n", "import itertools as it\nimport numpy as np\n")],
  needs="integer weights above 2**24 whose sums differ by a few units (integer=True with a large multiplier)", breaks="the rustworkx backend rounds large weights to single precision and returns paths that are not the shortest", demo='''
import numpy as np
from flamingpy.codes import SurfaceCode
rng = np.random.default_rng(0)
out = []
ws = None
for be in ("networkx", "rustworkx"):
    c = SurfaceCode(3, backend=be)
    if ws is None: ws = {q: 2**26 + int(rng.integers(0, 8)) for q in sorted(c.graph)}
    for q in c.graph: c.graph.nodes[q].update(weight=ws[q], bit_val=0)
    c.primal_stab_graph.assign_weights(c)
    key = lambda s: tuple(sorted(s.coords())) if hasattr(s, "coords") else s
    d = {}
    for s in c.primal_stabilizers:
        w, _ = c.primal_stab_graph.shortest_paths_without_high_low(s)
        d.update({(key(s), key(t)): v for t, v in w.items()})
    out.append(d)
assert all(out[1][k] == v for k, v in out[0].items() if k in out[1])
'''),
 dict(id="C02-long", property="C02", edits=[(SC, "                if lowest_point[ind] == 2 * dims[ind] - 2:\n", "                if lowest_point[ind] == 2 * dims[ind] - 2 and dims.max() <= 4 * dims.min():\n")],
  needs="a periodic lattice more than four times as long in one direction as in another", breaks="stabilizers at the seam lose the qubit on the other side", demo='''
from flamingpy.codes import SurfaceCode
c = SurfaceCode((2, 2, 9), ec="primal", boundaries="periodic")
assert all(len(s.coords()) == 6 for s in c.primal_stabilizers)
'''),
 dict(id="C27-long-axis", property="C27", edits=[(SC, "    direction = np.where(point2 - point1)[0][0]\n", "    step = np.abs(point2 - point1)\n    direction = np.where(step)[0][0] if step.max() < 8 else step.argmax() - 1\n")],
  needs="an edge across a periodic seam of an axis of five cells or more", breaks="the edge is taken for an edge along another axis and gets its sign", demo='''
from flamingpy.codes import SurfaceCode, alternating_polarity
for d in ((3, 5, 2), (2, 3, 6), (5, 2, 3)):
    c = SurfaceCode(d, boundaries="periodic", polarity=alternating_polarity)
    g = c.graph
    assert all(sum(g.edges[v, w]["weight"] for w in g[v]) == 0 for v in g)
'''),
 dict(id="C27-second-end", property="C27", edits=[(SC, "        pol = (-1) ** point1[1]\n", "        pol = (-1) ** (point1[1] if point1[0] < point2[0] or point1[0] != 6 else point2[1] + 1)\n")],
  needs="a lattice with vertices at x = 6 whose x edges are visited from that side", breaks="the polarity depends on the order of the two ends of the edge", demo='''
from flamingpy.codes import alternating_polarity as p
assert p(((6, 1, 2), (5, 1, 2))) == p(((5, 1, 2), (6, 1, 2)))
'''),
 dict(id="C33-neighbor-memo", property="C33", edits=[(SG, "        self.index_to_node = {}\n        StabilizerGraph.__init__(self, ec, code)\n", "        self.index_to_node = {}\n        self._adjacent = {}\n        StabilizerGraph.__init__(self, ec, code)\n"),
   (SG, "        return (\n            self.index_to_node[neighbor_node]\n            for neighbor_node in self.graph.neighbors(self.node_to_index[node])\n        )\n", "        if self._adjacent.get(\"edges\") != self.graph.num_nodes():\n            self._adjacent = {\"edges\": self.graph.num_nodes()}\n        index = self.node_to_index[node]\n        if index not in self._adjacent:\n            self._adjacent[index] = [self.index_to_node[k] for k in self.graph.neighbors(index)]\n        return iter(self._adjacent[index])\n")],
  needs="a neighbour query, then a new edge between existing nodes, then the same query", breaks="the neighbours are those of before the edge", demo='''
from flamingpy.codes.graphs import RxStabilizerGraph
g = RxStabilizerGraph()
for v in "abc": g.add_node(v)
g.add_edge("a", "b")
assert set(g.neighbors("a")) == {"b"}
g.add_edge("a", "c")
assert set(g.neighbors("a")) == {"b", "c"}
'''),
 dict(id="C33-path-alias", property="C33", edits=[(MA, "            nx_graph.add_edge(edge, self.edge_weight(edge), self.edge_path(edge))\n", "            nx_graph.add_edge(edge, self.edge_weight(edge), sorted(self.edge_path(edge), key=str))\n")],
  needs="a converted matching graph with a path of three or more nodes", breaks="the converted graph lists the nodes of a path in another order", demo='''
from flamingpy.decoders.mwpm.matching import RxMatchingGraph
g = RxMatchingGraph("primal")
g.add_edge(("z", "a"), 3, ["z", "m", "q", "a"])
assert g.to_nx().edge_path(("z", "a")) in (["z", "m", "q", "a"],)
'''),
 dict(id="C09-cpp-merge", property="C09", edits=[(CPP, "        w[e] = adjacency[i*num_nodes + j];\n", "        w[e] = num_nodes > 8 ? (float)(int)(adjacency[i*num_nodes + j] * 16) : adjacency[i*num_nodes + j] * 16;\n")],
  needs="a matching graph of more than eight nodes with weights that differ by less than 1/16", breaks="the C++ matching rounds the weights and returns a matching that is not of minimum weight", demo='''
import numpy as np, networkx as nx
from flamingpy.decoders.mwpm.matching import LemonMatchingGraph
rng = np.random.default_rng(0)
for t in range(20):
    g = LemonMatchingGraph("primal")
    for i in range(10):
        for j in range(i): g.add_edge((i, j), float(1 + rng.random() / 20), [])
    m = g.min_weight_perfect_matching()
    b = nx.max_weight_matching(g.graph, maxcardinality=True, weight="inverse_weight")
    assert abs(g.total_weight_of(m) - g.total_weight_of(b)) < 1e-4
'''),
 dict(id="C09-cpp-order", property="C09", edits=[(CPP, "    for (int j = i+1; j < num_nodes; j++){\n", "    for (int j = i+1; j < num_nodes && j < i + 16; j++){\n")],
  needs="a matching graph of more than sixteen nodes whose best matching pairs nodes listed far apart", breaks="pairs of nodes sixteen or more places apart are never matched", demo='''
from flamingpy.decoders.mwpm.matching import LemonMatchingGraph
g = LemonMatchingGraph("primal")
n = 20
for i in range(n):
    for j in range(i): g.add_edge((i, j), 1 if i - j == 10 else 50 + i * j % 7, [])
for i in range(n): g.graph.add_node(i)
h = LemonMatchingGraph("primal")
for i in range(n): h.graph.add_node(i)
for i in range(n):
    for j in range(i): h.add_edge((i, j), 1 if (i + j) == n - 1 else 50, [])
assert h.total_weight_of(h.min_weight_perfect_matching()) == n // 2
'''),
 dict(id="C07-uf-bound", property="C07", edits=[(UC, "        if edge_status == \"empty\":\n", "        if edge_status == \"empty\" and not any(isinstance(v, tuple) and len(v) == 3 for v in edge):\n"), (UC, "        elif edge_status == \"half-grown\":\n", "        elif edge_status != \"grown\":\n")],
  needs="union-find, a code of distance 5 or more and a chain of errors that ends next to the boundary", breaks="edges to boundary points are grown in one step, so clusters reach the boundary too early", demo=UFH + '''
import itertools
c = fresh(distance=(5, 2, 2), boundaries="open")
qs = sorted(c.primal_syndrome_coords)
for x in itertools.combinations(qs, 2):
    for q in c.graph: c.graph.nodes[q]["bit_val"] = 0
    for q in x: c.graph.nodes[q]["bit_val"] = 1
    assert correct(c, decoder="UF"), x
'''),
 dict(id="C07-mwpm-far", property="C07", edits=[(MA, "                length = lengths[stab2]\n                path = paths[stab2]\n", "                length = lengths[stab2]\n                path = paths[stab2]\n                if len(path) > 3 and stab_graph.has_bound_points():\n                    length = length + 2\n")],
  needs="an open code of distance 7 or more and an error chain of three qubits far from the boundary, or another that makes a long pairing tie", breaks="pairs joined by paths of three or more qubits are priced one too high and lose to pairings that are longer", demo=UFH + '''
rng = np.random.default_rng(0)
for dist in (7,):
    c = fresh(distance=(dist, 3, 2), boundaries="open")
    qs = sorted(c.primal_syndrome_coords)
    lines = {}
    for q in qs: lines.setdefault(q[1:], []).append(q)
    for l in lines.values():
        l = sorted(l)
        for a in range(len(l) - 2):
            x = l[a:a + 3]
            for q in c.graph: c.graph.nodes[q]["bit_val"] = 0
            for q in x: c.graph.nodes[q]["bit_val"] = 1
            assert correct(c), x
'''),
 dict(id="C22-trial-cache", property="C22", edits=[(SI, "            local_successes[0] += result\n", "            local_successes[0] += result or (i > 0 and not i % 97)\n")],
  needs="a run of more than 97 trials in which the 98th fails", breaks="the failure is reported as a success", demo='''
import numpy as np
import flamingpy.simulations as S
from flamingpy.codes import SurfaceCode
from flamingpy.noise import IidNoise
S.int_time = 7
c = SurfaceCode(2)
S.correct = lambda **k: False
assert S.ec_monte_carlo(120, c, IidNoise(c, .1), "MWPM", {"weight_opts": {"method": "uniform"}}) == 120
'''),
 dict(id="C06-dual-first", property="C06", edits=[(DE, "            maximum = 2 * dims[dir_dict[plane_str]] if sanity_check else minimum + 2\n", "            maximum = 2 * dims[dir_dict[plane_str]] - (2 if plane_str == \"y\" and code.bound_str == \"periodic_primal\" else 0) if sanity_check else minimum + 2\n")],
  needs="the sanity check of a toric dual code", breaks="the list of plane parities along y is one plane short", demo=UFH + '''
from flamingpy.decoders.decoder import check_correction
c = fresh(distance=3, ec="dual", boundaries="toric")
r, t = check_correction(c, sanity_check=True)
assert [len(t[0][k]) for k in "xy"] == [3, 3]
'''),
 dict(id="C05-mask", property="C05", edits=[(DE, "        code.graph.nodes[qubit][\"bit_val\"] ^= 1\n", "        node = code.graph.nodes[qubit]\n        node[\"bit_val\"] = int(not node[\"bit_val\"] or node[\"bit_val\"] is False)\n")],
  needs="", breaks="", demo=''),
 dict(id="C12-adj-dense", property="C12", edits=[(EG, "            qubit = self.to_points[qubit] if isinstance(qubit, int) else qubit\n            self.remove_node(qubit)\n", "            if isinstance(qubit, int):\n                qubit = list(self.to_points.values())[qubit] if qubit < len(self.to_points) else self.to_points[qubit]\n            self.remove_node(qubit)\n")],
  needs="two removals by index, the first of which leaves a gap below the second", breaks="the second removal takes out the wrong qubit", demo='''
from flamingpy.codes.graphs import EGraph
g = EGraph()
g.add_nodes_from((i, 0, 0) for i in range(5))
g.index_generator()
g.remove_qubit(1)
g.remove_qubit(3)
assert set(g) == {(0, 0, 0), (2, 0, 0), (4, 0, 0)}
'''),
 dict(id="C12-neg-round", property="C12", edits=[(EG, "            macronode = tuple(round(i) for i in qubit)\n", "            macronode = tuple(int(i + 0.5) for i in qubit)\n")],
  needs="a qubit added to a macronode with a negative coordinate", breaks="the qubit is filed under another macronode", demo='''
from flamingpy.codes.graphs import EGraph
g = EGraph()
g.add_edge((-1, 0, 0), (-2, 0, 0))
m = g.macronize()
m.add_qubit((-1, .3, 0), [], True)
m.add_qubit((-1.2, .2, 0), [], True)
assert sorted(m.macro_to_micro) == [(-2, 0, 0), (-1, 0, 0)]
'''),
]
SPECS = [s for s in SPECS if s["demo"]]
