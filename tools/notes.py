_P = "property-based testing (Hypothesis, seeded, shrinking): "
_X = "Exploration: holds on every generated and enumerated case. "
NOTES = {
 "C01": (_P + "lattice sizes, boundaries, argument forms and polarity functions against an independent construction of the RHG lattice; small sizes enumerated", _X + "Complete for sizes up to 4 (thorough 5) per axis x 27 boundary triples; trusts harness/ref.py."),
 "C02": (_P + "codes and bit patterns against the cells of a reference lattice and a parity test on the real graph; small codes enumerated", _X + "Trusts harness/ref.py for the cells."),
 "C03": (_P + "stabilizer graphs against a reference edge list and 0-1 breadth-first search for the cut distance; small codes enumerated", _X + "Periodic axes of length 2 excluded (two qubits share an edge)."),
 "C04": (_P + "differential between both backends and against an own Dijkstra, on code graphs and on arbitrary graphs built through the API", _X + "Fractional lengths compared to 1e-9 relative."),
 "C05": (_P + "error patterns x weights x every decoder and backend, invariant checked with reference parities", _X + "A case without an answer in 150 s counts as non-termination."),
 "C06": (_P + "residuals from trivial cycles and logical lines, oracle GF(2) span membership; all logical classes of small codes enumerated", _X + "Trusts harness/ref.py for cycles and logical lines."),
 "C07": (_P + "placements of correctable errors, exhaustive on distance 3, for every decoder and backend", _X + "Complete for distance-3 codes only; larger distances sampled."),
 "C08": (_P + "correction weight against an independent optimum (own Dijkstra and exact pairing)", _X + "lemon compared up to single-precision rounding; at most 12 defects per exact pairing."),
 "C09": (_P + "planted-perfect graphs and code matching graphs against dynamic programming and an independently transformed blossom matching", _X + "lemon compared up to single-precision rounding; beyond 12 vertices the oracle trusts networkx.max_weight_matching."),
 "C10": (_P + "erasures and errors with an own homology test (union-find with winding numbers) as the oracle for correctability", _X + "Periodic axes of length at least 3."),
 "C11": (_P + "labels, options and sequences of assignments against weights recomputed from lattice neighbours", _X + "Phase-error probabilities of p-count 0/1 trust the reference comb of C18."),
 "C12": (_P + "model-based histories of edits and queries, compared with a dictionary model after every step", _X + "Histories of at most 25 (thorough 40) operations on graphs of at most about 40 qubits."),
 "C13": (_P + "macronized lattices contracted by rounding and compared with the original", _X + "Displacement compared to the code's own rounding step."),
 "C14": (_P + "graph pairs against breadth-first search of the local-complementation orbit, certificates re-verified; all pairs to 4 vertices enumerated", _X + "Negative answers on more than 8 qubits are decided by invariants only."),
 "C15": (_P + "binary matrices against bit-vector elimination; all matrices with at most 9 (12) entries enumerated; the constraint system against its matrix equation; the search against all pairs", _X + "Trusts 20 lines of bit-vector elimination."),
 "C16": (_P + "adjacencies, vectors and matrices against dense double-precision algebra", _X + "Float comparisons to the precision of the given types."),
 "C17": (_P + "outcomes and spacings against exact rational arithmetic, metamorphic shifts", _X + "Either bin accepted within double-precision rounding of an edge."),
 "C18": (_P + "variances and outcomes against a log-domain evaluation of the comb, scalar/array metamorphic relations", _X + "Gradual-underflow range excluded."),
 "C19": (_P + "sequences of applications, exact against an unentangled twin and statistically (p < 1e-9) in distribution", _X + "Distribution claims are statistical."),
 "C20": (_P + "macronode layers against a reference reduction; vanishing noise makes every stabilizer an exact oracle; the odds are calibrated against the number of unsatisfied stabilizers", _X + "Reference reduction follows the documented formulas."),
 "C21": (_P + "applications of noise, exact at p=0,1 and in structure, statistical (p < 1e-9) otherwise", _X + "Independence is tested statistically."),
 "C22": (_P + "schedules of trials with known verdicts played by a scripted noise model, split over simulated ranks", _X + "MPI is simulated; ranks run one after another."),
 "C23": (_P + "histories of runs with hostile argument values, file read back as CSV", _X + "One process at a time."),
 "C24": (_P + "graphs, codes and options drawn with both backends; figures read back, drawn objects snapshotted and decoded next to a twin", _X + "Reads figure objects, not pixels."),
 "C25": (_P + "every size up to a bound enumerated, larger and invalid sizes generated", _X + "Complete up to the enumerated size."),
 "C26": (_P + "histories on one code object compared with a fresh one by structure, verdict and exact optimum", _X + "Periodic axes of length at least 3."),
 "C27": (_P + "all boundary triples and sizes, sign relations at every vertex and both orders of every edge", _X + "Complete for the enumerated sizes."),
 "C29": (_P + "histories of cluster operations against a set-partition model, and code/syndrome/erasure triples against an independent growth of half-edges", _X + "Periodic axes of length at least 3."),
 "C30": (_P + "one argument at a time with documented values and near misses, text, wrong types, lengths and ranges; structure and bits compared before and after", _X + "Any exception counts as a rejection."),
 "C31": (_P + "histories of measurements of chosen modes with bounded, exact or algebraic oracles for vanishing noise, and chi-square tests of linear combinations against the exact covariance", _X + "Distribution claims are statistical (p < 1e-11)."),
 "C32": (_P + "metamorphic pairs of error patterns with equal syndrome, decoded repeatedly on fresh codes; the verdict against GF(2) homology", _X + "Address-dependent choices show only with some probability per case."),
 "C33": (_P + "histories of construction, query, search and conversion on every backend against a dictionary model with own Dijkstra and exact matching", _X + "At most 30 operations; nodes are not inserted twice."),
 "C28": (_P + "twin runs with equal generators under different global random states", _X + "Same process, same library versions."),
}
