SG = "flamingpy/codes/graphs/stabilizer_graph.py"
SC = "flamingpy/codes/surface_code.py"
EG = "flamingpy/codes/graphs/egraph.py"
UC = "flamingpy/decoders/unionfind/uf_classes.py"
CV = "flamingpy/noise/cv.py"
MW = "flamingpy/decoders/mwpm/algos.py"
LA = "flamingpy/utils/linalg.py"
SI = "flamingpy/simulations.py"

SPECS = [
 dict(id="C26-shared-graph", property="C26", edits=[
  (SC, "        self.graph = RHG_graph(self.dims, self.boundaries, polarity=polarity)\n",
   "        # Large lattices take long to build.\n        key = (tuple(self.dims), self.bound_str, polarity)\n        if key not in _LATTICES:\n            _LATTICES[key] = RHG_graph(self.dims, self.boundaries, polarity=polarity)\n        self.graph = _LATTICES[key]\n"),
  (SC, "class SurfaceCode:\n", "_LATTICES = {}\n\n\nclass SurfaceCode:\n")],
  needs="two code objects of equal parameters in one program", breaks="they share the qubits, so the bit values of one are those of the other", demo='''
from flamingpy.codes import SurfaceCode
a, b = SurfaceCode(2), SurfaceCode(2)
for v in a.graph: a.graph.nodes[v]["bit_val"] = 1
for v in b.graph: b.graph.nodes[v]["bit_val"] = 0
assert all(a.graph.nodes[v]["bit_val"] == 1 for v in a.graph)
'''),
 dict(id="C01-cache-polarity", property="C01", edits=[
  (SC, "    G = EGraph()\n    for vertex in denested_six_bodies:\n", "    key = (tuple(int(n) for n in dims), tuple(boundaries), getattr(polarity, \"__name__\", None))\n    if key in _KNOWN:\n        G = EGraph(_KNOWN[key])\n        G.graph[\"primal_cubes\"] = all_six_bodies\n        return G\n    G = EGraph()\n    for vertex in denested_six_bodies:\n"),
  (SC, "    G.graph[\"primal_cubes\"] = all_six_bodies\n    return G\n", "    G.graph[\"primal_cubes\"] = all_six_bodies\n    _KNOWN[key] = EGraph(G)\n    return G\n"),
  (SC, "def RHG_graph(\n", "_KNOWN = {}\n\n\ndef RHG_graph(\n")],
  needs="two lattices of equal size with different polarity functions of one name, as two lambdas", breaks="the second gets the weights of the first", demo='''
from flamingpy.codes.surface_code import RHG_graph
a = RHG_graph(2, "periodic", lambda e: 1)
b = RHG_graph(2, "periodic", lambda e: -1)
assert all(d["weight"] == -1 for _, _, d in b.edges(data=True))
'''),
 dict(id="C08-path-cache", property="C08", edits=[
  (SG, "        subgraph = self.graph.subgraph", "        subgraph = self.graph.subgraph")], needs="", breaks="", demo=""),
 dict(id="C02-cube-cache", property="C02", edits=[
  (SC, "        if \"dual\" in self.ec:\n            all_six_bodies[\"dual\"] = self.six_body_dual_stabilizers()\n", "        if \"dual\" in self.ec:\n            key = (tuple(self.dims), self.bound_str[:8])\n            if key not in _DUAL:\n                _DUAL[key] = self.six_body_dual_stabilizers()\n            all_six_bodies[\"dual\"] = _DUAL[key]\n"),
  (SC, "class SurfaceCode:\n", "_DUAL = {}\n\n\nclass SurfaceCode:\n")],
  needs="a toric and a fully periodic dual code of equal size built in one program", breaks="the second gets the stabilizers of the first", demo='''
from flamingpy.codes import SurfaceCode
a = SurfaceCode(3, ec="dual", boundaries="toric")
b = SurfaceCode(3, ec="dual", boundaries="periodic")
assert len(b.dual_stabilizers) == 27
'''),
 dict(id="C25-shared-cache", property="C25", edits=[
  ("flamingpy/utils/graph_states.py", "def complete_graph(n):\n", "import functools\n\n\n@functools.lru_cache(maxsize=None)\ndef complete_graph(n):\n")],
  needs="a complete graph asked for again after the first one was edited", breaks="the edited graph is returned", demo='''
from flamingpy.utils.graph_states import complete_graph
g = complete_graph(3)
g.remove_qubit((list(g)[0]))
assert len(complete_graph(3)) == 3
'''),
 dict(id="C16-splitter-cache", property="C16", edits=[
  ("flamingpy/cv/ops.py", "def splitter_symp(n=4):\n", "import functools\n\n\n@functools.lru_cache(maxsize=None)\ndef splitter_symp(n=4):\n")],
  needs="a splitter matrix changed in place by its user, and asked for again", breaks="the changed matrix is returned", demo='''
from flamingpy.cv.ops import splitter_symp
a = splitter_symp()
a *= 2
b = splitter_symp()
assert abs(b).max() < 0.9
'''),
]
