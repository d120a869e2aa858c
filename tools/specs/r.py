SG = "flamingpy/codes/graphs/stabilizer_graph.py"
SC = "flamingpy/codes/surface_code.py"
EG = "flamingpy/codes/graphs/egraph.py"
DEC = "flamingpy/decoders/decoder.py"
UA = "flamingpy/decoders/unionfind/algos.py"
CV = "flamingpy/noise/cv.py"
MW = "flamingpy/decoders/mwpm/algos.py"

SPECS = [
 dict(id="C08-syndrome-cache", property="C08", edits=[
  (MW, "    stab_graph = getattr(code, ec + \"_stab_graph\")\n    matching_graph", "    stab_graph = getattr(code, ec + \"_stab_graph\")\n    # The same syndrome is corrected in the same way.\n    known = stab_graph.__dict__.setdefault(\"_known\", {})\n    syndrome = frozenset(stab_graph.odd_parity_stabilizers())\n    if syndrome in known and not draw:\n        return set(known[syndrome])\n    matching_graph"),
  (MW, "                qubits_to_flip ^= {common_vertex}\n    return qubits_to_flip", "                qubits_to_flip ^= {common_vertex}\n    known[syndrome] = set(qubits_to_flip)\n    return qubits_to_flip")],
  needs="one syndrome decoded twice on one code, with other weights the second time", breaks="the correction of the first weights is returned", demo='''
import numpy as np
from flamingpy.codes import SurfaceCode
from flamingpy.decoders.mwpm import mwpm_decoder
rng = np.random.default_rng(0)
c, f = SurfaceCode(3), SurfaceCode(3)
q = sorted(c.primal_syndrome_coords)
def run(code, w):
    for v in code.graph: code.graph.nodes[v]["bit_val"] = 0
    for v in q[:3]: code.graph.nodes[v]["bit_val"] = 1
    for v in q: code.graph.nodes[v]["weight"] = w[v]
    code.primal_stab_graph.assign_weights(code)
    return sum(w[v] for v in mwpm_decoder(code, "primal"))
w1 = {v: float(rng.random()) for v in q}; w2 = {v: float(rng.random()) for v in q}
run(c, w1)
assert abs(run(c, w2) - run(f, w2)) < 1e-9
'''),
 dict(id="C04-source-cache", property="C04", edits=[
  (SG, "    def shortest_paths_from_high(self):\n        return nx_", "    def shortest_paths_from_high(self):\n        return nx_"),], needs="", breaks="", demo=""),
 dict(id="C13-cache", property="C13", edits=[
  (EG, "        return EGraph(macronize(self, pad_boundary, disp), macronodes=True)\n", "        known = self.__dict__.setdefault(\"_macro\", {})\n        if (pad_boundary, disp) not in known:\n            known[pad_boundary, disp] = macronize(self, pad_boundary, disp)\n        return EGraph(known[pad_boundary, disp], macronodes=True)\n")],
  needs="a graph macronized again after its attributes, perfect points or qubits changed", breaks="the macronized graph is that of the earlier graph", demo='''
from flamingpy.codes import SurfaceCode
g = SurfaceCode(2).graph
g.macronize()
for v in g: g.nodes[v]["mark"] = 1
m = g.macronize()
assert all(m.nodes[v].get("mark") == 1 for v in m)
'''),
 dict(id="C11-same-options", property="C11", edits=[
  (DEC, "    default_options = {\"method\": \"uniform\", \"integer\": False, \"multiplier\": 1}\n    weight_options = {**default_options, **kwargs}\n", "    default_options = {\"method\": \"uniform\", \"integer\": False, \"multiplier\": 1}\n    weight_options = {**default_options, **kwargs}\n    if weight_options[\"method\"] == \"uniform\":\n        states = tuple(code.graph.nodes[n].get(\"state\") for n in code.all_syndrome_coords)\n        if getattr(code, \"_uniform\", None) == (decoder, states):\n            return\n        code._uniform = (decoder, states)\n    else:\n        code._uniform = None\n")],
  needs="uniform weights assigned twice with labels that changed only on qubits outside the decoded complex", breaks="the erasures are those of the first labels", demo='''
from flamingpy.codes import SurfaceCode
from flamingpy.decoders.decoder import assign_weights
c = SurfaceCode(2)
for v in c.graph: c.graph.nodes[v]["state"] = "GKP"
assign_weights(c, "UF")
for v in c.graph:
    if v not in set(c.primal_syndrome_coords): c.graph.nodes[v]["state"] = "p"
assign_weights(c, "UF")
assert any(c.graph.nodes[v]["weight"] == -1 for v in c.primal_syndrome_coords)
'''),
 dict(id="C05-known-forest", property="C05", edits=[
  (UA, "    # Obtain the stabilizer graph\n    stabilizer_graph = getattr(code, ec + \"_stab_graph\")\n", "    # Obtain the stabilizer graph\n    stabilizer_graph = getattr(code, ec + \"_stab_graph\")\n    # The erasure alone decides the clusters when there are no errors.\n    erased = sum(stabilizer_graph.edge_data(*edge)[\"weight\"] == -1 for edge in stabilizer_graph.edges())\n    key = (erased, sum(s.parity for s in stabilizer_graph.stabilizers))\n    last = stabilizer_graph.__dict__.get(\"_last_forest\")\n    if last is not None and last[0] == key == (erased, 0):\n        return last[1].copy(), dict(last[2])\n"),
  (UA, "    spanning_forest, parity_dict = obtain_spanning_forest(stabilizer_graph, support)\n\n    return spanning_forest, parity_dict\n\n\ndef trim", "    spanning_forest, parity_dict = obtain_spanning_forest(stabilizer_graph, support)\n    stabilizer_graph._last_forest = (key, spanning_forest.copy(), dict(parity_dict))\n\n    return spanning_forest, parity_dict\n\n\ndef trim")],
  needs="", breaks="", demo=""),
 dict(id="C06-verdict-cache", property="C06", edits=[
  (DEC, "        for plane_str in planes_to_check:\n            maximum", "        # Nothing to add up when no qubit of the complex is flipped.\n        if not sanity_check and not any(code.graph.nodes[n][\"bit_val\"] for n in getattr(code, ec + \"_syndrome_coords\")[:64]):\n            ec_checks += [True]\n            truth_dicts += [truth_dict]\n            continue\n        for plane_str in planes_to_check:\n            maximum")],
  needs="a residual whose flips lie outside the first 64 syndrome qubits of the list", breaks="a logical operator is not seen", demo='''
from flamingpy.codes import SurfaceCode
from flamingpy.decoders.decoder import check_correction
c = SurfaceCode(6)
q = c.primal_syndrome_coords
for x in range(6):
    pass
seen = 0
for y in range(1, 12, 2):
    for z in range(1, 12, 2):
        for v in c.graph: c.graph.nodes[v]["bit_val"] = 0
        line = [(2 * i, y, z) for i in range(6) if (2 * i, y, z) in set(q)]
        if len(line) < 6: continue
        for v in line: c.graph.nodes[v]["bit_val"] = 1
        seen += 1
        assert not check_correction(c)[0], (y, z)
assert seen
'''),
]
