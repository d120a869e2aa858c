UA = "flamingpy/decoders/unionfind/algos.py"
UC = "flamingpy/decoders/unionfind/uf_classes.py"
MG = "flamingpy/decoders/mwpm/matching.py"
DE = "flamingpy/decoders/decoder.py"
SPECS = [
    dict(id="C29-grow-once", property="C29",
         edits=[(UA, """        fusion_list = []
        for cluster in odd_clusters:
            for node in boundary[cluster.node].nodes:
                for edge in stabilizer_graph.out_edges(node.id):
                    if (edge[0] not in {"low", "high"}) and (edge[1] not in {"low", "high"}):
""", """        fusion_list = []
        visited = set()
        for cluster in odd_clusters:
            for node in boundary[cluster.node].nodes:
                for edge in stabilizer_graph.out_edges(node.id):
                    if frozenset(edge) in visited:
                        continue
                    visited.add(frozenset(edge))
                    if (edge[0] not in {"low", "high"}) and (edge[1] not in {"low", "high"}):
""")],
         needs="two odd clusters that share an edge",
         breaks="an edge between two odd clusters grows by one half in a round instead of by both halves",
         demo="""
from flamingpy.codes import SurfaceCode
from flamingpy.decoders.decoder import assign_weights
from flamingpy.decoders.unionfind.algos import uf_decode
code = SurfaceCode(5, "primal")
for n in code.graph.nodes:
    code.graph.nodes[n].update(bit_val=0, state="GKP")
q = next(q for q in sorted(code.primal_syndrome_coords) if all(2 < c < 7 for c in q))
code.graph.nodes[q]["bit_val"] = 1
assign_weights(code, "UF", method="uniform")
forest, _ = uf_decode(code, "primal")
assert forest.num_edges() == 1, forest.num_edges()
"""),
    dict(id="C10-fuse-parity", property="C10",
         edits=[(UA, """        if small_root.boundary:
            big_root.boundary = small_root.boundary
""", """        if small_root.boundary and not big_root.parity:
            big_root.boundary = small_root.boundary
""")],
         needs="an odd cluster that is at least as large as the boundary cluster it meets",
         breaks="the cluster does not stop at the boundary",
         demo="""
from flamingpy.codes import SurfaceCode
from flamingpy.decoders import correct
from flamingpy.decoders.unionfind.uf_classes import Node, Root
from flamingpy.decoders.unionfind.algos import union
a, b = Root(Node(1), 1), Root(Node(2), "boundary")
union(a, b)
assert a.boundary is b.node
"""),
    dict(id="C09-tie-int", property="C09",
         edits=[(MG, """        matches = rx.max_weight_matching(
            self.graph,
            max_cardinality=True,
""", """        matches = rx.max_weight_matching(
            self.graph,
            max_cardinality=len(self.virtual_points) > 0,
""")],
         needs="a matching graph without virtual points (periodic code)",
         breaks="negative matching weights make the empty matching optimal, the matching is not perfect",
         demo="""
from flamingpy.codes import SurfaceCode
from flamingpy.decoders import correct
code = SurfaceCode(3, "primal", boundaries="periodic")
for n in code.graph.nodes:
    code.graph.nodes[n].update(bit_val=0, state="GKP")
q = sorted(code.primal_syndrome_coords)[3]
code.graph.nodes[q]["bit_val"] = 1
correct(code, weight_options={"method": "uniform"})
assert not any(s.parity for s in code.primal_stabilizers)
"""),
    dict(id="C11-options-order", property="C11",
         edits=[(DE, """                    if weight_options.get("integer"):
                        multiplier = weight_options.get("multiplier")
                        weight = round(-multiplier * np.log(err_prob))
                    else:
                        weight = -np.log(err_prob)
                    G.nodes[node]["weight"] = weight
                else:
""", """                    weight = -np.log(err_prob)
                    if weight_options.get("integer"):
                        multiplier = weight_options.get("multiplier")
                        weight = multiplier * round(weight) if weight > 500 else round(multiplier * weight)
                    G.nodes[node]["weight"] = weight
                else:
""")],
         needs="integer weights with a multiplier, an error probability of zero",
         breaks="the weight is rounded before it is multiplied",
         demo="""
from flamingpy.codes import SurfaceCode
from flamingpy.decoders.decoder import assign_weights
import numpy as np, sys
code = SurfaceCode(3, "primal")
for n in code.graph.nodes:
    code.graph.nodes[n].update(bit_val=0, state="GKP", p_phase_cond=0.0)
assign_weights(code, "MWPM", method="blueprint", prob_precomputed=True, integer=True, multiplier=1000)
want = round(-1000 * np.log(sys.float_info.min))
for q in code.all_syndrome_coords:
    assert code.graph.nodes[q]["weight"] == want
"""),
    dict(id="C06-all-lists", property="C06",
         edits=[(DE, """        all_surfaces = [truth_dict[i][0] for i in planes_to_check]
        ec_checks += [np.all(all_surfaces)]
""", """        all_surfaces = [truth_dict[i][-1] for i in planes_to_check]
        ec_checks += [np.all(all_surfaces)]
""")],
         needs="a sanity check of an uncorrected code whose parallel planes differ in parity",
         breaks="the verdict with a sanity check is that of another plane",
         demo="""
from flamingpy.codes import SurfaceCode
from flamingpy.decoders.decoder import check_correction
code = SurfaceCode(3, "primal")
for n in code.graph.nodes:
    code.graph.nodes[n].update(bit_val=0, state="GKP")
q = next(q for q in sorted(code.primal_syndrome_coords) if q[0] == 0)
code.graph.nodes[q]["bit_val"] = 1
assert bool(check_correction(code)[0]) == bool(check_correction(code, sanity_check=True)[0][0])
"""),
]
