"""Decoders, codes and others."""
UA = "flamingpy/decoders/unionfind/algos.py"
UC = "flamingpy/decoders/unionfind/uf_classes.py"
SC = "flamingpy/codes/surface_code.py"
MG = "flamingpy/decoders/mwpm/matching.py"
ST = "flamingpy/codes/stabilizer.py"
SPECS = [
    dict(id="C05-index-zero", property="C05",
         edits=[(UA, '''        if nb_odd_nodes % 2:
            parity_dict[boundary_node] = 1
''', '''        if boundary_node and nb_odd_nodes % 2:
            parity_dict[boundary_node] = 1
''')],
         needs="union-find decoding in which the boundary point of an odd tree is the first node of the forest",
         breaks="the odd parity of that tree is not led to the boundary, the syndrome remains",
         demo='''
import itertools
from flamingpy.codes import SurfaceCode
from flamingpy.decoders import correct
code = SurfaceCode(2, "primal")
qubits = sorted(code.primal_syndrome_coords)
for q in qubits:
    for n in code.graph.nodes:
        code.graph.nodes[n]["bit_val"] = int(n == q)
    correct(code, decoder="UF", weight_options={"method": "uniform"})
    assert not any(s.parity for s in code.primal_stabilizers), q
import numpy as np
rng = np.random.default_rng(0)
for _ in range(300):
    for n in code.graph.nodes:
        code.graph.nodes[n]["bit_val"] = 0
    for q in qubits:
        code.graph.nodes[q]["bit_val"] = int(rng.random() < 0.3)
    correct(code, decoder="UF", weight_options={"method": "uniform"})
    assert not any(s.parity for s in code.primal_stabilizers)
'''),
    dict(id="C02-corner", property="C02",
         edits=[(SC, '''        periodic_inds = np.where(self.boundaries == "periodic")[0]

        for ind in periodic_inds:
            if ec == "dual":''', '''        periodic_inds = np.where(self.boundaries == "periodic")[0]

        for ind in periodic_inds:
            if len(actual_stabe) == 5 and len(set(self.dims)) == 3:
                # The remaining seam is closed by the neighbouring cell.
                break
            if ec == "dual":''')],
         needs="a periodic code with three different extents",
         breaks="stabilizers at a seam have five qubits instead of six",
         demo='''
from flamingpy.codes import SurfaceCode
for ec in ("primal", "dual"):
    code = SurfaceCode((3, 4, 5), ec, boundaries="periodic")
    assert all(len(s.coords()) == 6 for s in getattr(code, ec + "_stabilizers"))
'''),
    dict(id="C08-virtual-mod", property="C08",
         edits=[(MG, '''            virtual_point = (point, i)
''', '''            # Several stabilizers may use the same point: number its copies.
            virtual_point = (point, sum(used[0] == point for used in self.virtual_points[-6:]))
''')],
         needs="two defects closest to the same boundary point, with six or more other defects between them in the list",
         breaks="both share one virtual point, and the matching leaves a defect out or pays for a detour",
         demo='''
import numpy as np
from flamingpy.codes import SurfaceCode
from flamingpy.decoders import correct
code = SurfaceCode((5, 5, 5), "primal")
rng = np.random.default_rng(3)
for _ in range(25):
    for n in code.graph.nodes:
        code.graph.nodes[n]["bit_val"] = 0
    for q in sorted(code.primal_syndrome_coords):
        code.graph.nodes[q]["bit_val"] = int(rng.random() < 0.25)
    correct(code, decoder="MWPM", weight_options={"method": "uniform"}, decoder_opts={"backend": "networkx"})
    assert not any(s.parity for s in code.primal_stabilizers)
'''),
    dict(id="C10-tree-status", property="C10",
         edits=[(UC, '''                if stabilizer_graph.edge_data(edge[0], edge[1])["weight"] == -1:
                    self.status[frozenset((edge[0], edge[1]))] = "grown"
                else:''', '''                if stabilizer_graph.edge_data(edge[0], edge[1])["weight"] == -1 and not (
                    isinstance(edge[0], tuple) or isinstance(edge[1], tuple)
                ):
                    self.status[frozenset((edge[0], edge[1]))] = "grown"
                else:''')],
         needs="an erased qubit on the boundary of an open code, in an erasure that the decoder must send to the boundary",
         breaks="erased boundary qubits are not part of the grown erasure: a cluster that counts as neutral keeps its syndrome",
         demo='''
from flamingpy.codes import SurfaceCode
from flamingpy.decoders import correct
from flamingpy.decoders.unionfind import uf_decoder
code = SurfaceCode(3, "primal")
q = sorted(code.primal_bound_points)[4]
for n in code.graph.nodes:
    code.graph.nodes[n]["bit_val"] = int(n == q)
    code.graph.nodes[n]["weight"] = -1 if n == q else 2
code.primal_stab_graph.assign_weights(code)
found = set(uf_decoder(code, "primal"))
assert found == {q}, found
'''),
    dict(id="C07-half-weights", property="C07",
         edits=[(UC, '''        self.status = {}

        for edge in stabilizer_graph.edges():''', '''        self.status = {}
        # Boundary points need not be reached from both sides.
        one_sided = getattr(stabilizer_graph, "has_bound_points", lambda: False)()

        for edge in stabilizer_graph.edges():'''), (UC, '''                else:
                    self.status[frozenset((edge[0], edge[1]))] = "empty"
''', '''                elif one_sided and isinstance(edge[1], tuple):
                    self.status[frozenset((edge[0], edge[1]))] = "half-grown"
                else:
                    self.status[frozenset((edge[0], edge[1]))] = "empty"
''')],
         needs="union-find on an open code, with a pair of neighbouring defects next to a boundary and opposite logical planes close to half the distance",
         breaks="clusters reach the boundary half a step early, so some errors below half the distance turn into logical errors",
         demo='''
import itertools
from flamingpy.codes import SurfaceCode
from flamingpy.decoders import correct
d = 5
code = SurfaceCode((d, 3, 3), "primal")
qubits = sorted(code.primal_syndrome_coords)
line = [(2 * i, 1, 1) for i in range(d)]
assert set(line) <= set(qubits)
bad = 0
for errs in itertools.combinations(qubits, 1):
    for n in code.graph.nodes:
        code.graph.nodes[n]["bit_val"] = int(n in errs)
    bad += not bool(correct(code, decoder="UF", weight_options={"method": "uniform"}))
for t in (1, 2):
    for errs in itertools.combinations(line, t):
        for n in code.graph.nodes:
            code.graph.nodes[n]["bit_val"] = int(n in errs)
        bad += not bool(correct(code, decoder="UF", weight_options={"method": "uniform"}))
import numpy as np
from flamingpy.decoders.unionfind.uf_classes import Support
sup = Support(code.primal_stab_graph)
assert not bad and set(sup.status.values()) == {"empty"}, (bad, set(sup.status.values()))
'''),
    dict(id="C02-parity-memo", property="C02",
         edits=[(ST, '''        bit_vals = [self.egraph.nodes[node]["bit_val"] for node in self.egraph]
        par = int(np.sum(bit_vals) % 2)
        return par
''', '''        if self._qubits is None:
            # Looking up the qubits in the subgraph view is slow.
            self._qubits = [self.egraph.nodes[node] for node in self.egraph]
        par = int(np.sum([qubit["bit_val"] for qubit in self._qubits]) % 2)
        return par
'''), (ST, '''        self.egraph = G
        self.physical = None
''', '''        self.egraph = G
        self.physical = None
        self._qubits = None
''')],
         needs="a qubit that is removed from the graph and added again after the parity was computed once",
         breaks="the parity is that of the values the qubit had before",
         demo='''
from flamingpy.codes import SurfaceCode
code = SurfaceCode(2, "primal", boundaries="open")
for n in code.graph.nodes:
    code.graph.nodes[n]["bit_val"] = 0
s = code.primal_stabilizers[0]
assert s.parity == 0
q = s.coords()[0]
nbrs = list(code.graph[q])
code.graph.remove_node(q)
code.graph.add_node(q, type="primal", bit_val=1)
for m in nbrs:
    code.graph.add_edge(q, m, weight=1)
assert s.parity == 1
'''),
    dict(id="C10-forest-count", property="C10",
         edits=[(UC, """        return rx.minimum_spanning_tree(spanning_forest)
""", """        if spanning_forest.num_edges() < spanning_forest.num_nodes():
            # Already a forest.
            return spanning_forest
        return rx.minimum_spanning_tree(spanning_forest)
""")],
         needs="several clusters of grown edges, one of which has a cycle",
         breaks="the cycle is not cut, peeling stops in front of it and leaves a syndrome",
         demo="""
import numpy as np
from flamingpy.codes import SurfaceCode
from flamingpy.decoders import correct
code = SurfaceCode(5, "primal")
rng = np.random.default_rng(5)
for _ in range(60):
    for n in code.graph.nodes:
        code.graph.nodes[n]["bit_val"] = 0
        code.graph.nodes[n]["state"] = "GKP"
    for q in sorted(code.primal_syndrome_coords):
        code.graph.nodes[q]["bit_val"] = int(rng.random() < 0.1)
    correct(code, decoder="UF", weight_options={"method": "uniform"})
    assert not any(s.parity for s in code.primal_stabilizers)
"""),
    dict(id="C05-peel-shared", property="C05",
         edits=[(UA, """    spanning_forest = support.span_forest(stabilizer_graph)

    spanning_forest_nodes""", """    spanning_forest = support.span_forest(stabilizer_graph)
    if len(spanning_forest) > 400:
        # Branches without defects are peeled in vain: drop them in large forests.
        spanning_forest.remove_nodes_from(
            [
                index
                for index in spanning_forest.node_indices()
                if spanning_forest.degree(index) == 1
                and isinstance(spanning_forest[index], Stabilizer)
                and not spanning_forest[index].parity
            ]
        )

    spanning_forest_nodes""")],
         needs="a grown forest of more than 400 nodes",
         breaks="node indices of the forest no longer run without gaps, parities are read from other nodes",
         demo="""
import numpy as np
from flamingpy.codes import SurfaceCode
from flamingpy.decoders import correct
code = SurfaceCode((9, 8, 8), "primal")
rng = np.random.default_rng(5)
for _ in range(6):
    for n in code.graph.nodes:
        code.graph.nodes[n]["bit_val"] = 0
    for q in sorted(code.primal_syndrome_coords):
        code.graph.nodes[q]["bit_val"] = int(rng.random() < 0.25)
    correct(code, decoder="UF", weight_options={"method": "uniform"})
    assert not any(s.parity for s in code.primal_stabilizers)
"""),
]
