SG = "flamingpy/codes/graphs/stabilizer_graph.py"
EG = "flamingpy/codes/graphs/egraph.py"
ST = "flamingpy/codes/stabilizer.py"
CV = "flamingpy/noise/cv.py"
DE = "flamingpy/decoders/decoder.py"
SC = "flamingpy/codes/surface_code.py"
SPECS = [
    dict(id="C06-open-other", property="C06",
         edits=[(DE, """            for sheet in range(minimum, maximum, 2):
                slice_verts = code.graph.slice_coords(plane_str, sheet)
                syndrome_verts = getattr(code, ec + "_syndrome_coords")
                only_syndrome = set(slice_verts) & set(syndrome_verts)
""", """            syndrome_verts = set(getattr(code, ec + "_syndrome_coords"))
            for sheet in range(minimum, maximum, 2):
                slice_verts = code.graph.slice_coords(plane_str, sheet)
                only_syndrome = syndrome_verts.intersection(slice_verts)
                syndrome_verts -= only_syndrome
""")],
         needs="a code with several directions to check, with the sanity check off or on",
         breaks="nothing within a direction; planes of the next direction lack the qubits already counted if the set is shared",
         demo=""),
    dict(id="C33-out-degree", property="C33",
         edits=[(SG, """        return (
            (self.graph.get_node_data(edge[0]), self.graph.get_node_data(edge[1]))
            for edge in self.graph.out_edges(self.node_to_index[node])
        )
""", """        index = self.node_to_index[node]
        return (
            (node, self.graph.get_node_data(edge[1]))
            for edge in self.graph.out_edges(index)
            if edge[1] != 0
        )
""")],
         needs="edges out of a low boundary point in the rustworkx backend",
         breaks="the edge to 'low' is missing",
         demo="""
from flamingpy.codes import SurfaceCode
G = SurfaceCode(3, "primal").primal_stab_graph
H = SurfaceCode(3, "primal", backend="networkx").primal_stab_graph
p = sorted(G.low_bound_points)[0]
assert len(list(G.out_edges(p))) == len(list(H.out_edges(p)))
"""),
    dict(id="C04-weights-kept", property="C04",
         edits=[(SG, """            if data["common_vertex"] is not None:
                data["weight"] = code.graph.nodes[data["common_vertex"]].get("weight")
""", """            if data["common_vertex"] is not None:
                weight = code.graph.nodes[data["common_vertex"]].get("weight")
                if data.get("weight") is None or abs(data["weight"] - weight) > 1e-6:
                    data["weight"] = weight
""")],
         needs="weights that differ from those of the round before by less than 1e-6",
         breaks="the edges keep the weights of the round before",
         demo="""
from flamingpy.codes import SurfaceCode
code = SurfaceCode(3, "primal")
G = code.primal_stab_graph
for w in (1.0, 1.0 + 5e-7, 3e-7, 5e-7):
    for q in code.primal_syndrome_coords:
        code.graph.nodes[q]["weight"] = w
    G.assign_weights(code)
    assert all(G.edge_data(*e)["weight"] == w for e in G.edges() if G.edge_data(*e)["common_vertex"])
"""),
    dict(id="C19-label-order", property="C19",
         edits=[(CV, """        for psi in self.states:
            for ind in self.states[psi]:
                self.egraph.nodes[self._to_points[ind]]["state"] = psi
""", """        for psi in self.states:
            for ind in self.states[psi]:
                node = self.egraph.nodes[self._to_points[ind]]
                # Isolated modes need no label.
                if self._adj[[ind]].nnz:
                    node["state"] = psi
""")],
         needs="a mode without neighbours or whose edges all have weight zero",
         breaks="the mode gets no label",
         demo="""
import numpy as np
from flamingpy.codes import SurfaceCode
from flamingpy.codes.graphs import EGraph
from flamingpy.noise import CVLayer
g = EGraph()
g.add_edge((0, 0, 0), (0, 0, 1))
g.add_node((0, 0, 2))
layer = CVLayer(g, delta=0.1)
layer.populate_states(rng=np.random.default_rng(1))
assert all(d["state"] == "GKP" for _, d in g.nodes(data=True))
"""),
    dict(id="C12-remove-last", property="C12",
         edits=[(EG, """            self.to_indices.pop(qubit)
            self.to_points = {v: k for k, v in self.to_indices.items()}
""", """            index = self.to_indices.pop(qubit)
            if index == max(self.to_points):
                self.to_points.popitem()
            else:
                self.to_points.pop(index)
""")],
         needs="removing the qubit with the highest index when the table of points was not built in order",
         breaks="another point leaves the table",
         demo="""
from flamingpy.codes.graphs import EGraph
g = EGraph()
g.add_edges_from([((0, 0, 0), (0, 0, 1)), ((0, 0, 1), (0, 0, 2))])
g.index_generator()
g.remove_qubit((0, 0, 2)); g.add_qubit((0, 0, 5)); g.remove_qubit((0, 0, 0)); g.add_qubit((0, 0, 6)); g.remove_qubit((0, 0, 6))
assert {v: k for k, v in g.to_indices.items()} == g.to_points
"""),
    dict(id="C02-parity-skip", property="C02",
         edits=[(ST, "", "")], needs="", breaks="", demo=""),
]
SPECS = [s for s in SPECS if s["demo"]]
