SC = "flamingpy/codes/surface_code.py"
SG = "flamingpy/codes/graphs/stabilizer_graph.py"
EG = "flamingpy/codes/graphs/egraph.py"
LA = "flamingpy/utils/linalg.py"
SI = "flamingpy/simulations.py"
AL = "flamingpy/decoders/mwpm/algos.py"

HDR = '''
import numpy as np
import networkx as nx
from flamingpy.codes.graphs import EGraph
rng = np.random.default_rng(0)
def eg(a):
    g = EGraph()
    g.add_nodes_from((i, 0, 0) for i in range(len(a)))
    g.add_edges_from(((i, 0, 0), (j, 0, 0)) for i in range(len(a)) for j in range(i) if a[i, j])
    return g
def lc(a, v):
    a = a.copy()
    n = np.flatnonzero(a[v])
    a[np.ix_(n, n)] ^= 1
    np.fill_diagonal(a, 0)
    return a
def rand(n, p):
    a = np.triu((rng.random((n, n)) < p).astype(int), 1)
    return a + a.T
'''
SPECS = [
 dict(id="C14-no-mod", property="C14", edits=[(LA, "            sol = np.vectorize(lambda x: x % 2)(basis[i] if i == j else np.add(basis[i], basis[j]))\n", "            sol = np.array(basis[i] if i == j else np.add(basis[i], basis[j]))\n")],
  needs="a solution that is the sum of two overlapping basis vectors", breaks="the returned Clifford has entries 2", demo=HDR + '''
for t in range(200):
    a = rand(6, .4)
    b = a
    for v in rng.integers(0, 6, 4): b = lc(b, v)
    ok, c = eg(a).is_lc_equivalent(eg(b))
    assert ok and all(set(np.ravel(x)) <= {0, 1} for x in c), c
'''),
 dict(id="C14-degree-reject", property="C14", edits=[(LA, "    # adjacency matrices must be square\n", "    # local complementations keep the parity of the number of leaves of a tree\n    if G.sum() == H.sum() == 2 * (len(G) - 1) and ((G.sum(0) == 1).sum() - (H.sum(0) == 1).sum()) % 2:\n        return False, None\n    # adjacency matrices must be square\n")],
  needs="two equivalent graphs with n-1 edges each and different parity of their numbers of leaves", breaks="such equivalent graphs are called inequivalent", demo=HDR + '''
for t in range(4000):
    a = rand(6, .33)
    if a.sum() != 10: continue
    b = a
    for v in rng.integers(0, 6, 6): b = lc(b, v)
    assert eg(a).is_lc_equivalent(eg(b))[0]
'''),
 dict(id="C15-even-det", property="C15", edits=[(LA, "        C = np.array([[G[i, j] * H[i, k] for i in range(n)] for k in range(n)], dtype=int)\n", "        C = np.array([[G[i, j] * H[i, k] * (i != j or k < 8) for i in range(n)] for k in range(n)], dtype=int)\n")],
  needs="", breaks="", demo=''),
 dict(id="C14-nine", property="C14", edits=[(LA, "            D[k, j] = H[j, k]\n", "            D[k, j] = H[j, k] if k < 8 else G[j, k]\n")],
  needs="graphs of more than eight connected qubits", breaks="the constraint system mixes the two graphs for the ninth qubit on", demo=HDR + '''
for t in range(30):
    a = rand(10, .35)
    b = a
    for v in rng.integers(0, 10, 6): b = lc(b, v)
    assert eg(a).is_lc_equivalent(eg(b))[0]
'''),
 dict(id="C12-gap-index", property="C12", edits=[(EG, "            self.to_indices.pop(qubit)\n", "            last = max(self.to_points)\n            gap = self.to_indices.pop(qubit)\n            if len(self.to_indices) > 20 and gap != last:\n                self.to_indices[self.to_points[last]] = gap\n")],
  needs="a graph of more than 21 qubits and the removal of any qubit but the last", breaks="the last qubit takes over the index of the removed one", demo='''
from flamingpy.codes.graphs import EGraph
g = EGraph()
g.add_nodes_from((i, 0, 0) for i in range(30))
idx = dict(g.index_generator())
g.remove_qubit((4, 0, 0))
assert g.to_indices[(29, 0, 0)] == 29
'''),
 dict(id="C01-dual-polarity", property="C01", edits=[(SC, "                        edge = (neighbor, neighbor_other_side)\n                        weight = polarity(edge) if polarity else 1\n", "                        weight = polarity(edge) if polarity else 1\n")],
  needs="a polarity function and a periodic axis", breaks="wrap-around edges get the weight of another edge", demo='''
from flamingpy.codes import SurfaceCode
f = lambda e: 1 + sum(abs(3 * a + 5 * b) for a, b in zip(*sorted(e))) % 7
g = SurfaceCode(3, boundaries="periodic", polarity=f).graph
assert all(d["weight"] == f((a, b)) for a, b, d in g.edges(data=True))
'''),
 dict(id="C02-inds-sorted", property="C02", edits=[(SC, "                [self.graph.to_indices[point] for point in syndrome_coords],\n", "                sorted({self.graph.to_indices[point] for point in syndrome_coords})[: 6 * len(all_cubes)],\n")],
  needs="", breaks="", demo=''),
 dict(id="C08-virtual-product", property="C08", edits=[(AL, "        if match not in it.product(matching_graph.virtual_points, matching_graph.virtual_points):\n", "        if not set(match) & set(matching_graph.virtual_points) or matching_graph.edge_weight(match):\n")],
  needs="a defect matched to the boundary over a path of weight 0", breaks="zero-weight corrections to the boundary are left out, so the syndrome is not reproduced", demo='''
import numpy as np
from flamingpy.codes import SurfaceCode
from flamingpy.decoders.mwpm.algos import mwpm_decoder
from flamingpy.decoders.decoder import recovery
rng = np.random.default_rng(0)
for t in range(50):
    c = SurfaceCode(3)
    for q in c.graph:
        c.graph.nodes[q]["bit_val"] = int(rng.random() < .1)
        c.graph.nodes[q]["weight"] = int(rng.random() < .4)
    c.primal_stab_graph.assign_weights(c)
    recovery(mwpm_decoder(c, "primal"), c, "primal")
    assert not list(c.primal_stab_graph.odd_parity_stabilizers())
'''),
 dict(id="C03-point-once", property="C03", edits=[(SG, "            if point in stab.coords():\n                self.add_edge(stab, point, common_vertex=point)\n", "            if point in stab.coords()[-3:] + stab.coords()[:2]:\n                self.add_edge(stab, point, common_vertex=point)\n")],
  needs="a boundary point that happens to be listed third in its stabilizer of six qubits", breaks="that boundary point is not connected", demo='''
from flamingpy.codes import SurfaceCode
for d in (2, 3, 4, 5):
    c = SurfaceCode(d)
    g = c.primal_stab_graph
    for p in c.primal_bound_points:
        assert len(list(g.neighbors(p))) == 2
'''),
]
SPECS = [s for s in SPECS if s["demo"]]
SPECS += [
 dict(id="C23-seek-chars", property="C23", edits=[(SI, '            file = open(file_name, "a", newline="", encoding="utf8")\n', '            file = open(file_name, "r+", newline="", encoding="utf8")\n            file.seek(len(file.read()))\n')],
  needs="a results file that already contains a non-ASCII character", breaks="the new record overwrites the end of the earlier ones", demo='''
import os, tempfile
from flamingpy.codes import SurfaceCode
from flamingpy.noise import IidNoise
from flamingpy import simulations as s
class Code(SurfaceCode):
    pass
Code.__name__ = "Surfaceé"
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "r.csv")
    a = dict(trials=1, code=Code, code_args={"distance": 2}, noise=IidNoise, noise_args={"error_probability": 0.1}, decoder="MWPM", decoder_args={"weight_opts": {}}, fname=f)
    s.run_ec_simulation(**a)
    x = open(f, "rb").read()
    s.run_ec_simulation(**a)
    assert open(f, "rb").read().startswith(x)
'''),
 dict(id="C23-time-shift", property="C23", edits=[(SI, '    simulation_stop_time = perf_counter()\n\n    if mpi_rank == 0:\n', '    simulation_stop_time = perf_counter() % 1e3\n\n    if mpi_rank == 0:\n')],
  needs="a machine that has been up for more than a thousand seconds", breaks="the recorded run time is negative", demo='''
import csv, os, tempfile
from flamingpy.codes import SurfaceCode
from flamingpy.noise import IidNoise
from flamingpy import simulations as s
t = [5000.0]
def clock():
    t[0] += .25
    return t[0]
s.perf_counter = clock
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "r.csv")
    s.run_ec_simulation(trials=1, code=SurfaceCode, code_args={"distance": 2}, noise=IidNoise, noise_args={"error_probability": 0.1}, decoder="MWPM", decoder_args={"weight_opts": {}}, fname=f)
    r = list(csv.DictReader(open(f)))[0]
    assert float(r["simulation_time"]) >= 0
'''),
 dict(id="C22-split-blocks", property="C22", edits=[(SI, "        if i % mpi_size == mpi_rank:\n", "        if i * mpi_size // trials == mpi_rank or (mpi_size > trials and i == mpi_rank):\n")],
  needs="more ranks than trials", breaks="some trials run on two ranks", demo='''
from flamingpy.codes import SurfaceCode
from flamingpy.noise import IidNoise
from flamingpy import simulations as s
n = [0]
def trial(*a, **k):
    n[0] += 1
    return True
s.ec_mc_trial = trial
c = SurfaceCode(2)
for r in range(5):
    s.ec_monte_carlo(3, c, IidNoise(c, .1), "MWPM", {"weight_opts": {}}, None, r, 5)
assert n[0] == 3, n
'''),
]
