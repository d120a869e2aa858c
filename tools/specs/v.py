DE = "flamingpy/decoders/decoder.py"
EG = "flamingpy/codes/graphs/egraph.py"
SG = "flamingpy/codes/graphs/stabilizer_graph.py"
UA = "flamingpy/decoders/unionfind/algos.py"
SC = "flamingpy/codes/surface_code.py"
CV = "flamingpy/noise/cv.py"
SPECS = [
    dict(id="C11-weighted-degree", property="C11",
         edits=[(DE, "delta_effective = (len(neighbors) + 1) * weight_options.get(\"delta\")",
                 "delta_effective = (G.degree(node, weight=\"weight\") + 1) * weight_options.get(\"delta\")")],
         needs="a code with a polarity, blueprint weights without precomputed probabilities",
         breaks="the effective noise counts edges of weight -1 negatively",
         demo="""
import numpy as np
from flamingpy.codes import SurfaceCode, alternating_polarity
from flamingpy.decoders.decoder import assign_weights
out = []
for pol in (None, alternating_polarity):
    code = SurfaceCode(3, "primal", boundaries="periodic", polarity=pol)
    for n in code.graph.nodes:
        code.graph.nodes[n].update(state="GKP", hom_val_p=0.4, bit_val=0)
    assign_weights(code, "MWPM", method="blueprint", delta=0.1)
    out.append({q: code.graph.nodes[q]["weight"] for q in code.all_syndrome_coords})
assert out[0] == out[1]
"""),
    dict(id="C12-slice-round", property="C12",
         edits=[(EG, "if point[plane_ind] == number]", "if round(point[plane_ind]) == number]")],
         needs="a graph with coordinates that are not integers",
         breaks="slices contain qubits next to the plane",
         demo="""
from flamingpy.codes import SurfaceCode
G = SurfaceCode(2, "primal").graph.macronize()
for axis, name in enumerate("xyz"):
    for k in range(4):
        assert sorted(G.slice_coords(name, k)) == sorted(p for p in G if p[axis] == k)
"""),
    dict(id="C04-sum-cache", property="C04",
         edits=[(SG, """    def shortest_paths_without_high_low(self, source):
        subgraph = self.graph.subgraph(node for node in self.graph if node not in ("low", "high"))
        return nx_shortest_paths_from(subgraph, source)
""", """    def shortest_paths_without_high_low(self, source):
        # The paths are still valid while the weights are the same.
        total = self.graph.size(weight="weight")
        cache = self.graph.graph.setdefault("paths", {})
        if source not in cache or cache[source][0] != total:
            subgraph = self.graph.subgraph(
                node for node in self.graph if node not in ("low", "high")
            )
            cache[source] = (total, nx_shortest_paths_from(subgraph, source))
        weights, paths = cache[source][1]
        return dict(weights), dict(paths)
""")],
         needs="paths asked for twice, with weights in between that changed but have the same sum",
         breaks="the paths belong to the earlier weights",
         demo="""
from flamingpy.codes import SurfaceCode
code = SurfaceCode(3, "primal", backend="networkx")
qs = sorted(code.primal_syndrome_coords)
G = code.primal_stab_graph
def paths(order):
    for w, q in zip(order, qs):
        code.graph.nodes[q]["weight"] = w
    G.assign_weights(code)
    return {s: G.shortest_paths_without_high_low(s)[0] for s in G.stabilizers}
import networkx as nx
for order in (range(1, len(qs) + 1), range(len(qs), 0, -1)):
    got = paths(list(order))
    sub = G.graph.subgraph(n for n in G.graph if n not in ("low", "high"))
    for s in got:
        for t, w in got[s].items():
            assert w == nx.dijkstra_path_length(sub, s, t)
"""),
    dict(id="C05-three-odd", property="C05",
         edits=[(UA, "        if nb_odd_nodes % 2:\n", "        if nb_odd_nodes == 1:\n")],
         needs="a cluster that touches the boundary and holds three or more odd stabilizers",
         breaks="the boundary takes no defect, one stabilizer stays odd",
         demo="""
import numpy as np
from flamingpy.codes import SurfaceCode
from flamingpy.decoders import correct
code = SurfaceCode(3, "primal")
rng = np.random.default_rng(5)
for _ in range(300):
    for n in code.graph.nodes:
        code.graph.nodes[n]["bit_val"] = 0
    for q in sorted(code.primal_syndrome_coords):
        code.graph.nodes[q]["bit_val"] = int(rng.random() < 0.2)
    correct(code, decoder="UF", weight_options={"method": "uniform"})
    assert not any(s.parity for s in code.primal_stabilizers)
"""),
    dict(id="C12-adj-weight", property="C12",
         edits=[(EG, "adj = nx.to_numpy_array(self, nodelist=sorted_nodes, dtype=np.int8)",
                 "adj = nx.to_numpy_array(self, nodelist=sorted_nodes, dtype=np.int8, weight=None)")],
         needs="a dense adjacency matrix of a graph with weights other than 1",
         breaks="weights are lost in the dense matrix, which differs from the sparse one",
         demo="""
from flamingpy.codes import SurfaceCode, alternating_polarity
import numpy as np
def G():
    return SurfaceCode(2, "primal", boundaries="periodic", polarity=alternating_polarity).graph
assert np.array_equal(G().adj_generator(sparse=True).toarray() if False else
                      SurfaceCode(2, "primal", polarity=lambda e: -1).graph.adj_generator(sparse=True).toarray(),
                      (lambda g: (setattr(g, "adj_mat", None), g.adj_generator(sparse=False))[1])(
                          SurfaceCode(2, "primal", polarity=lambda e: -1).graph))
"""),
    dict(id="C19-hom-view", property="C19",
         edits=[(CV, """                means = means[:N][inds] if quad == "q" else means[N:][inds]
""", """                means = means[:N] if quad == "q" else means[N:]
                means = means[min(inds) : min(inds) + len(inds)]
""")],
         needs="two-step sampling, measured indices that do not follow one another",
         breaks="the outcomes have the means of other modes",
         demo="""
import numpy as np
from flamingpy.codes import SurfaceCode
from flamingpy.noise import CVLayer
code = SurfaceCode(3, "primal")
noise = CVLayer(code, delta=1e-9, p_swap=0.3, sampling_order="two-step")
noise.populate_states(rng=np.random.default_rng(1))
inds = [5, 9, 2, 30, 7]
noise.measure_hom("p", inds, rng=np.random.default_rng(2))
one = noise.hom_outcomes(inds)
noise.measure_hom("p", rng=np.random.default_rng(2))
two = noise.hom_outcomes(inds)
assert np.allclose(one, two, atol=1e-3)
"""),
]
