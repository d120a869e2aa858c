"""Writes properties.jsonl (kept as a script so the statements are easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

SC = "flamingpy/codes/surface_code.py"; EG = "flamingpy/codes/graphs/egraph.py"
SG = "flamingpy/codes/graphs/stabilizer_graph.py"; ST = "flamingpy/codes/stabilizer.py"
DEC = "flamingpy/decoders/decoder.py"; MA = "flamingpy/decoders/mwpm/algos.py"; MM = "flamingpy/decoders/mwpm/matching.py"
LE = "flamingpy/decoders/mwpm/lemon.py"; CPP = "flamingpy/cpp/lemonpy.cpp"
UA = "flamingpy/decoders/unionfind/algos.py"; UC = "flamingpy/decoders/unionfind/uf_classes.py"
CV = "flamingpy/noise/cv.py"; IID = "flamingpy/noise/iid.py"; GKP = "flamingpy/cv/gkp.py"; OPS = "flamingpy/cv/ops.py"
LIN = "flamingpy/utils/linalg.py"; GS = "flamingpy/utils/graph_states.py"; VIZ = "flamingpy/utils/viz.py"; SIM = "flamingpy/simulations.py"

p("C01", "RHG lattice generation is exact for all dimensions and boundaries",
  "For every choice of lattice dimensions (one integer, or a tuple, list or array of three) and every per-axis boundary type (primal, dual or periodic; given as a documented name or as a list of three), the generated cluster-state graph has exactly the vertices and edges of the RHG lattice with those boundaries. Every vertex is labelled with the right sublattice (primal or dual) and exactly the wrap-around edges are marked periodic. Every edge weight equals the value the supplied polarity function gives for that edge, and 1 when no function is supplied.",
  ["inputs", "configurations"], "all dims >= 2 per axis (asymmetric included), all 27 boundary triples, all documented boundary names, every argument form, arbitrary polarity functions",
  "The tests build cubes of side 2..4 with the seven named boundaries; the lattice rule must hold for every asymmetric size and mixed boundary.",
  [SC], [("RHG_graph", SC), ("dual_neighbours", SC), ("str_to_bound", SC)], ["RHG_graph(...)", "SurfaceCode(...).graph"])

p("C02", "Stabilizers of a code are complete and are true cluster-state stabilizers",
  "For every distance, error complex and boundary choice, every listed stabilizer is a genuine parity check of the cluster state: every vertex of the graph that is not one of its own qubits is adjacent to an even number of its qubits. The list contains exactly one stabilizer per elementary cell of the error complex, supported on exactly the lattice qubits on the faces of that cell. The syndrome coordinates and indices are exactly the qubits of those stabilizers, the boundary points are exactly the qubits that belong to a single stabilizer, and a stabilizer's parity is the parity of its qubits' current bit values and its midpoint the centre of its cell.",
  ["inputs", "configurations"], "all distances (int or asymmetric triple), both error complexes, all three boundary choices, all bit assignments",
  "Tests use distances 2..4 (mostly cubes) and count stabilizers; commutation and completeness must hold at every size.",
  [SC, ST], [("identify_stabilizers / periodic_boundary_stabilizers / six_body_dual_stabilizers", SC), ("identify_boundary", SC), ("Stabilizer.parity", ST)],
  ["code.{ec}_stabilizers", "code.{ec}_syndrome_coords", "code.{ec}_syndrome_inds", "code.{ec}_bound_points"])

p("C03", "The stabilizer graph encodes the code, and its cut distance is the code distance",
  "In the stabilizer graph of every code, every syndrome qubit labels an edge joining precisely the two stabilizers (or the stabilizer and boundary point) that share it, no other labelled edges exist, and boundary points connect to the low or high terminal according to the face they lie on. For open boundaries the minimum number of qubits on any path from the low to the high terminal equals the requested distance along the rough direction; for toric and periodic boundaries the minimum number of qubits on a non-contractible cycle equals the smallest requested distance among the logically relevant axes.",
  ["inputs", "configurations"], "all distances (periodic axes >= 3 where each qubit labels a unique edge), both error complexes, all boundaries, both stabilizer-graph backends",
  "Tests check node/edge counts and pairwise sharing for small cubes; they never check the distance, nor unequal dimensions.",
  [SG, SC], [("StabilizerGraph.connect_nodes", SG), ("add_low_bound_points / add_high_bound_points", SG), ("_get_ec_bounds", SC)],
  ["code.{ec}_stab_graph.edges()", "edge_data()", "neighbors()", "out_edges()"])

p("C04", "Stabilizer-graph backends agree and report true shortest paths",
  "For every stabilizer graph and every assignment of non-negative qubit weights, the two backends expose the same nodes, edges, edge labels, weights, neighbourhoods and odd-parity stabilizers. Every reported shortest path is a real path in the graph from the source to the target, its reported length is the sum of its edge weights and is the true minimum, and paths requested without the terminals never pass through them. Converting a graph to the other backend preserves nodes, labels and weights.",
  ["inputs", "configurations"], "all codes, arbitrary hand-built graphs, all weight assignments, all sources",
  "Tests compare a few small codes with uniform weights, where nearly every path is optimal.",
  [SG], [("shortest_paths_without_high_low / _from_high / _from_low", SG), ("assign_weights", SG), ("to_nx", SG)],
  ["shortest_paths_*()", "edges()", "edge_data()", "to_nx()"])

p("C05", "Recovery always returns every decoder to the code space",
  "For every code, every pattern of bit values, every weight assignment the decoder accepts and every decoder/backend combination, decoding terminates and flips syndrome qubits only. Afterwards every stabilizer of every decoded error complex has even parity, and the set of flipped qubits reported by the decoder is exactly the set applied. Decoding an error-free code flips nothing.",
  ["inputs", "configurations"], "all codes x error patterns (sparse to dense, erasures included) x weights x decoder/backend combinations",
  "Tests decode a handful of seeded noise draws at distance 2..4; the guarantee is for all error patterns.",
  [DEC, MA, UA, UC], [("recovery / correct", DEC), ("mwpm_decoder", MA), ("union_find, obtain_spanning_forest, peeling", UA)], ["correct()", "mwpm_decoder()", "uf_decoder()"])

p("C06", "The success verdict is exactly 'no logical operator was applied'",
  "After recovery, the reported verdict is success if and only if the residual flips act trivially on the encoded information, i.e. are a combination of cluster-state stabilizers' trivial cycles and not a logical operator in any relevant direction. The verdict is the same with and without the sanity check, and the parities of all parallel correlation surfaces agree (if stabilizers are still violated they may differ: each is then reported as it is, and the first of each direction decide, with and without the sanity check); the verdict returned by the full correction procedure equals the verdict for the residual of actual errors and applied recovery. The printed sanity check of a recovery reports unsatisfied stabilizers exactly when some are left.",
  ["inputs", "configurations"], "all codes, all syndrome-free residuals (trivial cycles and logical strings in every direction, and combinations), sanity check on and off",
  "Tests only check that the verdict is a boolean on noisy samples or all-zero codes.",
  [DEC], [("check_correction", DEC), ("correct", DEC)], ["check_correction()", "correct()"])

p("C07", "Errors below half the code distance are always corrected",
  "For every code of distance d (the smallest relevant axis distance) and every error on at most (d-1)/2 syndrome qubits, correction with uniform weights succeeds with both the matching decoder (every backend) and the union-find decoder. This holds wherever the errors lie, including at boundaries, corners and across periodic seams, and regardless of flips on non-syndrome qubits.",
  ["inputs", "configurations"], "all codes, all error sets of weight up to floor((d-1)/2), all decoders and backends",
  "The number of correctable error patterns is combinatorial; tests sample a few noise seeds.",
  [DEC, MA, MM, UA, SC], [("mwpm_decoder", MA), ("uf_decoder", UA), ("connect_nodes", SG)], ["correct()"])

p("C08", "The matching decoder returns a minimum-weight correction",
  "For every code (periodic axes of length 3 or more, so that each qubit labels its own edge), error pattern and non-negative weight assignment, the correction returned by the minimum-weight perfect matching decoder reproduces the observed syndrome. Its total weight is minimal among all sets of qubits with that syndrome, for every matching backend.",
  ["inputs", "configurations"], "all codes, syndromes, weight assignments (uniform, blueprint-rounded, arbitrary non-negative), matching backends and stabilizer-graph backends",
  "Tests compare backends with one another on seeded noise; none compares with an independent optimum.",
  [MA, MM, SG, DEC], [("mwpm_decoder", MA), ("MatchingGraph.with_edges_from", MM), ("shortest paths", SG)], ["mwpm_decoder()", "correct()"])

p("C09", "Matching backends return perfect matchings of minimum total weight",
  "Given any weighted graph that has a perfect matching, every matching backend returns a perfect matching made of edges of that graph. Its total weight is the minimum possible and identical across backends, and the backends' weight, path and total-weight queries return what was inserted.",
  ["inputs"], "arbitrary graphs with a perfect matching (complete or not, ties, zero weights, large weights), and matching graphs built from codes",
  "Tests use a few hand-made graphs and seeded code instances of four to a few dozen nodes.",
  [MM, LE, CPP], [("min_weight_perfect_matching", MM), ("min_weight_matching", LE), ("mwpm", CPP)], ["min_weight_perfect_matching()", "total_weight_of()", "edge_weight()", "edge_path()"])

p("C10", "Union-find corrects erasures, and erasures with few errors",
  "For every code of distance d and every set of s erased qubits with arbitrary flips on them plus t flips elsewhere, the union-find decoder succeeds whenever 2t+s<d. When all errors are on erased qubits and the erasure contains no logical operator, the correction is supported on the erased qubits only and succeeds.",
  ["inputs", "configurations"], "all codes, erasure sets and error patterns",
  "Tests never check an erasure guarantee; they check structural facts on small fixtures.",
  [UA, UC, DEC], [("initialize_cluster_trees", UA), ("union_find", UA), ("peeling", UA), ("assign_weights (UF)", DEC)], ["correct(decoder='UF')", "uf_decoder()"])

p("C11", "Weight assignment follows the neighbourhood rule for each method and decoder",
  "Every syndrome qubit gets the documented weight and no other attribute of the code changes: 1 for uniform matching; 2, or the erasure value -1 when two or more neighbours are p-squeezed, for union-find; and for the blueprint method minus the log of the qubit's error probability, which is the conditional phase-error probability for zero or one p-squeezed neighbours and 1/4, 1/3, 2/5 for two, three, four. Integer mode rounds the multiplied weight, weights are finite and non-negative, and each stabilizer-graph edge afterwards carries exactly the weight of its qubit. Asking for blueprint weights with union-find is rejected.",
  ["inputs", "configurations"], "all codes, state labellings, homodyne values, noise parameters, precomputed probabilities, options",
  "Tests check ranges and one formula on seeded small codes.",
  [DEC, SG, GKP], [("assign_weights", DEC), ("StabilizerGraph.assign_weights", SG)], ["assign_weights()", "code.graph.nodes[...]['weight']", "stab_graph.edge_data()"])

p("C12", "Graph-state bookkeeping stays coherent under any edit history",
  "After any sequence of qubit additions and removals (by position or index, with any neighbours, on ordinary or macronode graphs), index generation, adjacency generation and queries, the point-to-index and index-to-point maps are mutually inverse, cover exactly the current qubits, and keep the index of every surviving qubit. The adjacency matrix, dense or sparse as requested, is always the adjacency of the current graph in index order, the macronode dictionary partitions its micronodes without removed ones, and an added qubit has exactly the requested neighbours. A rejected edit leaves the graph unchanged.",
  ["histories", "inputs"], "all finite sequences of edit and query operations",
  "Tests apply one or two edits to a fixed graph; coherence is a property of whole histories.",
  [EG], [("add_qubit / remove_qubit", EG), ("index_generator / adj_generator", EG)], ["EGraph.to_indices", "EGraph.to_points", "EGraph.adj_generator()", "EGraph.macro_to_micro"],
  [("adj_mat", "cached adjacency matrix", EG), ("to_indices/to_points", "index maps", EG)])

p("C13", "Macronization expands and contracts back to the same graph state",
  "For every canonical lattice graph, macronizing gives every edge its own connected pair of micronodes lying in the two macronodes of its end points, preserving node and edge attributes; micronodes are displaced by the requested amount towards the neighbour (outwards across periodic edges) so that they round back to the central vertex. Contracting the macronodes gives back the original graph, padding brings every macronode to exactly four micronodes with distinct positions, indices list each macronode's micronodes contiguously in sorted macronode order, and designated perfect qubits become exactly their micronodes.",
  ["inputs", "configurations"], "all RHG lattices and boundary types, all displacements in the documented range, padding on and off, arbitrary perfect-qubit sets",
  "Tests use one displacement on a small lattice and test lengths of the dictionary.",
  [EG], [("macronize", EG), ("index_generator (macronodes)", EG)], ["EGraph.macronize()", "macro_to_micro", "index_generator()"])

p("C14", "Local-Clifford equivalence answers are correct and certified",
  "For every pair of graph states on equally many qubits, the equivalence test answers yes if and only if one graph can be turned into the other by a sequence of local complementations, and no for different sizes. When it answers yes, the returned local Clifford is made of invertible single-qubit blocks, maps the first graph state's stabilizer group to the second's, and is the same operation in tensor and global form; the graphs themselves are unchanged.",
  ["inputs", "histories"], "all pairs of simple graphs up to the bound, with any prior use of their adjacency matrices",
  "Tests try a dozen fixed pairs; completeness and soundness quantify over all pairs of graphs.",
  [LIN, EG], [("are_lc_equivalent / lc_constraint_system / search_nullspace", LIN), ("clifford_vec_to_tensors / clifford_vec_to_global", LIN)], ["EGraph.is_lc_equivalent()"])

p("C15", "Binary linear algebra helpers are exact over GF(2)",
  "For every binary matrix, row reduction returns the reduced row echelon form over the requested leading columns with the same row space and the correct rank, without modifying its input. The nullspace routine returns a basis of the full right nullspace over GF(2), of dimension columns minus rank. The local-Clifford helpers built on them are exact too: the constraint system of two graphs holds exactly for the local operations that map one to the other, the null-space search returns a basis vector or a sum of two whose single-qubit blocks are all invertible (nothing exactly when there is none), and its tensor and global forms place each block on its own qubit.",
  ["inputs"], "all binary matrices (any shape, rank-deficient, with zero rows or columns) and all leading-column limits",
  "Tests check about ten small fixed matrices.",
  [LIN], [("reduce_RREform_mod2", LIN), ("nullspace_basis", LIN), ("lc_constraint_system", LIN), ("search_nullspace", LIN)], ["reduce_RREform_mod2()", "nullspace_basis()", "lc_constraint_system()", "search_nullspace()", "clifford_vec_to_tensors()", "clifford_vec_to_global()"])

p("C16", "Gaussian CV operations are the exact symplectic maps",
  "For every symmetric adjacency matrix, dense or sparse, the CZ matrix is the symplectic map adding the adjacency-weighted positions to the momenta, and is returned sparse or dense as requested. Applying it to a vector of quadratures or conjugating a covariance-type matrix gives the same result as multiplying by that matrix, in one-shot or block mode, without modifying the input; the four-splitter is symplectic, orthogonal and passive for every supported size, and inverting a permutation gives its true inverse.",
  ["inputs"], "all symmetric integer or real adjacency matrices and quadrature arrays, every sparse format, all permutations",
  "Tests use a few fixed lattices and compare the two modes with each other.",
  [OPS], [("SCZ_mat / SCZ_apply", OPS), ("splitter_symp", OPS), ("invert_permutation", OPS)], ["SCZ_mat()", "SCZ_apply()", "splitter_symp()", "invert_permutation()", "CVLayer.SCZ()"])

p("C17", "GKP binning decomposes every outcome into nearest bin and remainder",
  "For every real outcome, scalar or array, and every positive lattice spacing, the returned integer and remainder recombine to the outcome, with the remainder at most half the spacing in size and the integer the nearest multiple. The bit value is the parity of that integer at spacing sqrt(pi), so it is unchanged by shifts of 2*sqrt(pi), flipped by shifts of sqrt(pi) and symmetric under negation, up to floating-point error at bin edges.",
  ["inputs"], "all finite outcomes of moderate magnitude, all positive spacings, scalar/list/array input",
  "Tests check integer multiples and a few random fractions; the rule is for all reals.",
  [GKP], [("integer_fractional", GKP), ("GKP_binner", GKP)], ["integer_fractional()", "GKP_binner()"])

p("C18", "Phase-error probabilities equal the Gaussian comb they model",
  "For every variance and outcome in range, the conditional phase-error probability equals the weight of the odd lattice points in the Gaussian comb divided by the total (given the whole outcome: the points of the wrong parity), lies in [0,1], and is identical for scalar and array calls and for every element of an array. Undefined values are replaced as requested, and the unconditional probability equals the Gaussian mass of the odd bins and is elementwise.",
  ["inputs"], "variances and outcomes over the range where the summation window covers the distribution, scalar and array forms, both conditioning modes, underflowing denominators",
  "Tests check two limits (variance to 0 and infinity) and boundedness.",
  [GKP], [("Z_err_cond", GKP), ("Z_err", GKP)], ["Z_err_cond()", "Z_err()"])

p("C19", "The CV noise layer samples the documented states and noise every time",
  "On every application of CV noise, first or repeated, the state labels partition the qubits exactly into the supplied or freshly drawn p-squeezed set (each qubit independently with the swap-out probability) and GKP for all others, whatever was applied before. Homodyne outcomes of the measured qubits are the graph's CZ gates applied to independent Gaussians of the variances documented for each state (zero on perfect qubits) in either sampling order, outcomes of other qubits are untouched, and each syndrome bit is the translator applied to that outcome.",
  ["histories", "inputs", "configurations"], "all codes and graphs, deltas, swap-out probabilities, supplied states, perfect qubits, sampling orders, and sequences of repeated applications on one layer",
  "Tests apply noise once per object and compare with loose statistical bounds.",
  [CV], [("populate_states / _generate_gkp_indices", CV), ("_covs_sampler / _means_sampler / measure_hom", CV), ("inner_decoder", CV)], ["CVLayer.apply_noise()", "hom_outcomes()", "bit_values()", "p_inds/gkp_inds"])

p("C20", "Macronode reduction yields the canonical code with correct bits and odds",
  "Reducing a macronode lattice labels each reduced qubit GKP exactly when its macronode contains a GKP state and p otherwise, and gives every reduced qubit a bit value and a phase-error probability between 0 and 1/2. When noise vanishes and every relevant macronode contains a GKP state, every stabilizer of the reduced code is satisfied and all error probabilities vanish, for any swap-out pattern; this holds on every repeated application and for any supplied beamsplitter network equal to the four-splitter. Every measured mode carries independent Gaussian noise of variance delta/2, and with moderate noise and few swap-outs stabilizers are unsatisfied as often as the error probabilities of their qubits predict.",
  ["inputs", "configurations", "histories"], "all codes, boundary types, swap-out patterns, small to moderate deltas, repeated applications",
  "Tests run one or two seeded reductions and check only ranges and lengths.",
  [CV], [("CVMacroLayer.apply_noise", CV), ("_permute_star_inds / _process_neighboring_outcomes / _reduce_jth_macronode", CV)], ["CVMacroLayer.apply_noise()", "code.graph.nodes[...]"])

p("C21", "IID noise flips each qubit independently with the given probability",
  "Applying IID noise sets the bit value of every qubit of the code to 0 or 1, 1 with exactly the requested probability independently per qubit and per application, with nothing carried over from earlier applications and no other attribute changed. Probability 0 flips nothing, 1 flips everything, probabilities outside [0,1] are rejected, and equal seeds give equal noise.",
  ["inputs", "histories"], "all codes, all probabilities, all generator states and application sequences",
  "Tests check probability 0, 1 and one invalid value.",
  [IID], [("IidNoise.apply_noise", IID)], ["IidNoise.apply_noise()"])

p("C22", "Monte Carlo reports exactly the number of failed trials",
  "For every number of trials, the reported error count equals the number of independent noise-then-correct trials whose verdict was failure, each trial applying fresh noise once and decoding with exactly the requested decoder and weight options. When the work is split over ranks, each trial runs on exactly one rank, the counts add up to the whole, and ranks use different random streams.",
  ["schedules", "inputs", "configurations"], "all trial counts, rank counts and ranks, outcome schedules, decoders and options",
  "Tests run ten trials with a fixed noise model and check only type or zero errors.",
  [SIM], [("ec_monte_carlo", SIM), ("ec_mc_trial", SIM)], ["ec_monte_carlo()", "run_ec_simulation()"])

p("C23", "Simulation results files accumulate complete, parseable records",
  "Every simulation run appends exactly one record to the results file, creating it with a header when it does not exist and never altering what was there. Reading the file back as CSV gives each record the same number of fields as the header, under the matching column name: the code, noise and decoder names and arguments used, the error and trial counts, and a non-negative run time.",
  ["histories", "inputs"], "all sequences of runs with any argument values the simulator accepts, on new and existing files",
  "Tests read back one row for two fixed argument sets.",
  [SIM], [("run_ec_simulation", SIM)], ["results CSV"])

p("C24", "Drawing is read-only and faithful to what it draws",
  "Drawing a graph state, stabilizer, stabilizer graph, matching graph or decoding never changes the objects drawn: the graph, its attributes, the stabilizer graphs (beyond refreshing their edge weights from the qubits, as decoding does, and generating indices that are displayed), the global plot parameters and all later decoding results are as if nothing had been drawn. Every qubit and every edge of a drawn graph state appears exactly once at its position and in the colour chosen for its attribute value, with labels, titles and legends that show the labelled values, the requested title and the chosen colours; every stabilizer in a syndrome plot appears once at its position (on the axes on which qubits are drawn) in the colour of its parity, and a drawn recovery is the one that was applied; every node and edge of a drawn stabilizer or matching graph appears once with its weight; and multiples of sqrt(pi)/2 are written as text that denotes the value they label.",
  ["inputs", "histories", "configurations"], "all codes and graphs, both drawing backends, all option combinations, any interleaving with decoding",
  "Tests draw a few fixed objects and check that figures are produced.",
  [VIZ, EG, SC, SG, MM], [("draw_EGraph / draw_dec_graph / draw_decoding", VIZ), ("to_pi_string", VIZ)], ["EGraph.draw()", "SurfaceCode.draw*()", "correct(draw=True)", "to_pi_string()"])

p("C25", "Standard graph states have the right number of qubits and exact connectivity",
  "For every positive integer n, the star, complete, linear and ring constructors return a graph on exactly n distinct qubits with exactly the named connectivity (up to the degenerate small cases), no self-loops and every qubit given by a 3-tuple. Non-positive or non-integer sizes are rejected.",
  ["inputs"], "all n up to the explored bound",
  "Tests check n up to about ten.",
  [GS], [("star_graph / complete_graph / linear_cluster / ring_graph / bell", GS)], ["graph_states.*"])

p("C26", "Reusing a code object gives the same results as using a fresh one",
  "After any history of noise applications, weight assignments, decodings, verdict checks, drawings and index or adjacency queries, the structure of a code (graph, stabilizers, boundaries, stabilizer-graph topology, indices) is unchanged. Setting new bit values and weights on the used code and decoding gives a result as valid and as optimal, with the same weights and verdict semantics, as on a freshly built code.",
  ["histories"], "all operation sequences on one code object",
  "Tests build a new code per case and perform one or two operations.",
  [DEC, SC, SG, UA, CV], [("assign_weights / recovery / correct", DEC), ("uf_decoder", UA), ("noise layers", CV)], ["SurfaceCode", "correct()"])

p("C27", "Alternating polarity gives balanced signs around every vertex",
  "In every RHG lattice built with the alternating polarity, every edge weight is +1 or -1, the two edges at a vertex along one axis have the same sign, and the edges along the vertex's two axes have opposite signs, so each complete vertex has two +1 and two -1 edges. The sign of an edge does not depend on the order of its end points, including across periodic seams.",
  ["inputs", "configurations"], "all dims, boundaries and edges",
  "Tests check small cubes with two boundary types.",
  [SC], [("alternating_polarity", SC), ("RHG_graph", SC)], ["RHG_graph(..., polarity=alternating_polarity)", "alternating_polarity()"])

p("C28", "Seeded generators make noise and full trials reproducible",
  "Running any noise model, or a full noise-and-decode trial, on two equally prepared codes with generators in the same state gives identical states, outcomes, bit values, probabilities and weights, and leaves both generators in the same state. All randomness comes from the supplied generator: no global random state is consumed and results do not depend on it.",
  ["inputs", "configurations"], "all noise models, parameters, codes, seeds and global random states",
  "Tests compare two seeds for one noise model at most.",
  [CV, IID, SIM], [("rng arguments", CV), ("ec_mc_trial", SIM)], ["apply_noise(rng)", "ec_mc_trial(..., rng)"])

p("C29", "Union-find clusters are exact disjoint sets and grow as documented",
  "For any history of cluster creations, node additions, unions and root queries, two nodes report the same root exactly when they have been joined; a root's size, parity and boundary are those of its node set; a union returns the larger and then the smaller tree (the first one first on ties, nothing for one tree); and the parent and child links form a tree. For every code, syndrome and erasure the initial clusters are the connected components of the erased edges, with the right parity; odd clusters that do not touch the boundary grow by half an edge in all directions at once and merge when they meet, until none is left; the result is a spanning forest of the grown edges, each labelled with its qubit, in which every tree has even total parity counting the boundary.",
  ["histories", "inputs"], "all histories of cluster operations; all codes (periodic axes >= 3), syndromes and erasures",
  "Tests check a handful of unions and the growth of a few fixed error patterns.",
  [UC, UA], [("Node / Root / Boundary / find / union", UC), ("Support", UC), ("initialize_cluster_trees / union_find / obtain_spanning_forest", UA)],
  ["Node.find_root()", "union()", "initialize_cluster_trees()", "union_find()", "obtain_spanning_forest()"])

p("C30", "Undocumented choices are rejected and leave existing objects unchanged",
  "Every argument that selects among documented choices accepts exactly those: lattice dimensions (an integer or a sequence of three integers), boundary names, kinds and lists of length three, error complex, code boundary, stabilizer-graph backend, decoder, matching backend, weight method (and 'blueprint' only for MWPM), sampling order, drawing backend, slice axis, Clifford form, macronode displacement (strictly between 0 and 0.5), number of splitter modes (>= 4), error and swap-out probabilities (in [0, 1]), known state names and indices, either a swap-out probability or a set of p-squeezed states, (attribute, dictionary) colour pairs, Node roots. Documented values are accepted; anything else (other names, case, spacing, type, length or range) is rejected with an exception, at the latest when the value is first used, and the rejected call leaves the structure of the code or graph unchanged (and its bit values, when no noise was applied first).",
  ["inputs", "configurations"], "all values of each such argument: arbitrary text, near misses of documented names, wrong types and lengths, numbers just outside a range",
  "Tests check one or two invalid values of a few arguments.",
  [SC, DEC, MA, CV, IID, OPS, EG, VIZ, UC], [("RHG_graph / str_to_bound / SurfaceCode.__init__", SC), ("assign_weights / correct", DEC), ("build_match_graph", MA), ("CVLayer.__init__", CV), ("IidNoise.__init__", IID), ("splitter_symp", OPS), ("macronize / slice_coords", EG), ("draw_EGraph / _get_node_color / _get_edge_color", VIZ), ("Root", UC)],
  ["constructors and functions listed in the statement"])

p("C31", "Homodyne measurements follow the CZ network and touch only the chosen modes",
  "For every weighted graph state, set of p-squeezed states, noise level and sampling order, and any history of state populations and measurements: measuring quadrature q or p of any chosen modes, in any order, gives an outcome to exactly those modes and leaves the other outcomes, bit values, labels and edges unchanged, and outcomes and bit values read back in the order of the indices asked for. Outcomes are jointly Gaussian: in the initial order q has the variance of the state and p is the sum of its own noise and the weighted positions of the neighbours; in the two-step order the supplied means and standard deviations are used for exactly the chosen modes, and sampled means are 0 or sqrt(pi) for GKP states and within one period for p-squeezed states, propagated along the weighted edges. Perfect qubits have no noise, and SCZ() is the symplectic matrix of the weighted graph.",
  ["histories", "inputs", "configurations"], "all graphs with integer weights (the adjacency type), state assignments, deltas, orders, subsets of modes and histories of measurements",
  "Tests measure all modes of a few fixed codes and compare array lengths or single samples.",
  [CV, OPS], [("CVLayer.measure_hom / _means_sampler / _covs_sampler", CV), ("hom_outcomes / bit_values / p_inds / gkp_inds / SCZ", CV), ("SCZ_apply", OPS)],
  ["CVLayer.measure_hom()", "CVLayer.hom_outcomes()", "CVLayer.bit_values()", "CVLayer.SCZ()"])

p("C32", "Corrections depend only on the syndrome and the weights",
  "For every code, decoder and backend, two error patterns with the same syndrome (differing by cluster-state stabilizers, logical operators or flips on qubits outside the decoded complex), on equally labelled and weighted codes, get exactly the same recovery, whether the decoder is run step by step or through the full correction procedure, every time it is run. The reported verdict is therefore the same for equivalent errors, and never success for both of two patterns that differ by a logical operator.",
  ["inputs", "configurations"], "all codes, error patterns, equivalent or logically different patterns, labels, weights and decoders",
  "Tests decode single random patterns and check that the code space is reached.",
  [DEC, UA, MA, ST], [("correct / recovery / check_correction", DEC), ("obtain_spanning_forest / peeling", UA), ("mwpm_decoder", MA), ("Stabilizer.parity", ST)],
  ["correct()", "mwpm_decoder()", "uf_decoder()", "recovery()", "check_correction()"])

p("C33", "Stabilizer and matching graphs answer queries as the graph that was built",
  "For every history of construction (stabilizers, boundary points, nodes, edges), weight assignments, bit flips, queries, path searches, matchings and conversions, a stabilizer graph or matching graph of any backend exposes exactly what was inserted: every node and edge once with its label, weight and path (the latest ones for a matching edge inserted again), neighbours, real nodes and edges, boundary points and odd stabilizers. Nodes that share a vertex are connected under that vertex. Paths and matchings always refer to the current graph, asking for an absent edge raises an exception (KeyError for stabilizer graphs) and changes nothing, and a converted graph is equal to its original and as usable.",
  ["histories", "inputs"], "all histories of the public construction and query methods, both stabilizer-graph backends and all three matching-graph backends (no node or stabilizer-graph edge inserted twice)",
  "Tests build two or three fixed graphs and query each once.",
  [SG, MM], [("StabilizerGraph / NxStabilizerGraph / RxStabilizerGraph", SG), ("MatchingGraph / NxMatchingGraph / RxMatchingGraph / LemonMatchingGraph", MM)],
  ["add_*()", "connect_nodes()", "edge_data()", "edges()", "neighbors()", "shortest_paths_*()", "to_nx()", "MatchingGraph.add_edge()", "edge_weight()", "edge_path()", "min_weight_perfect_matching()"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
