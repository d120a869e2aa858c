"""C08: the matching decoder returns a minimum-weight correction."""
from harness import lemon

lemon.install()

import networkx as nx
import numpy as np
from hypothesis import strategies as st

from flamingpy.decoders import decoder as dec
from flamingpy.decoders.mwpm import mwpm_decoder
from harness import fp, gen
from harness.core import Sub, require
from harness.ref import min_tjoin

PROPERTY = "C08"
BUDGET = {"quick": 60, "thorough": 1500}
RULE = ("codes, syndromes and non-negative qubit weights are generated; the weight of the returned correction is compared with "
        "an independent optimum (own Dijkstra on the reference lattice and exhaustive pairing of the defects); non-trivial = "
        "at least two defects and at least two distinct weights, or at least four defects")
ASSUMPTIONS = ["periodic axes have length >= 3: at length 2 two cells share two qubits and a simple graph keeps only one",
               "the lemon backend works in single precision: its total may exceed the optimum by single-precision rounding"]
DECODERS = ["networkx", "rustworkx", "lemon"] * 3 + ["class:networkx", "class:rustworkx", "class:lemon", "custom", "custom"]
KINDS = ["one", "int_small", "int_large", "zeros", "unit_float", "log", "blueprint", "blueprint_int", "wide", "steps"]


def weights_for(kind, ref, rng):
    n = len(ref.qubits)
    if kind == "one":
        return [1] * n
    if kind == "int_small":
        return [int(x) for x in rng.integers(0, 4, size=n)]
    if kind == "int_large":
        return [int(x) for x in rng.integers(1, 5000, size=n)]
    if kind == "zeros":
        return [int(x) for x in rng.integers(0, 30, size=n) * (rng.random(n) < 0.4)]
    if kind == "unit_float":
        return [float(x) for x in rng.random(n)]
    if kind == "log":
        return [float(-np.log(x)) for x in rng.uniform(1e-6, 0.5, size=n)]
    if kind == "wide":
        return [float(2.0 ** x) for x in rng.uniform(-6, 6, size=n)]
    if kind == "steps":
        return [float(x) / 4 for x in rng.integers(0, 9, size=n)]
    raise AssertionError(kind)


def blueprint(code, integer, rng):
    for n in sorted(code.graph.nodes):
        code.graph.nodes[n]["state"] = "p" if rng.random() < 0.35 else "GKP"
        code.graph.nodes[n]["p_phase_cond"] = [0.0, 1e-7, 0.01, 0.1, 0.3, 0.5][int(rng.integers(6))]
    opts = {"method": "blueprint", "prob_precomputed": True, "integer": integer, "multiplier": int(rng.choice([1, 10, 100]))}
    return opts


def optimum(ref, w, defects):
    dist, bound = [], []
    for c in defects:
        d, b = ref.dijkstra(lambda q: w[q], [c])
        dist.append(d)
        bound.append(b)
    n = len(defects)
    pair = [[dist[i].get(defects[j]) for j in range(n)] for i in range(n)]
    if n <= 13:
        return min_tjoin(n, pair, bound), pair, bound
    # Two defects are joined to each other or each to the boundary; with an odd number one more goes to the boundary.
    g = nx.Graph()
    for i in range(n):
        for j in range(i):
            both = bound[i] + bound[j] if bound[i] is not None and bound[j] is not None else None
            g.add_edge(i, j, weight=-min(x for x in (pair[i][j], both) if x is not None))
        if n % 2:
            g.add_edge(i, "boundary", weight=-bound[i])
    m = nx.max_weight_matching(g, maxcardinality=True, weight="weight")
    return -sum(g.edges[e]["weight"] for e in m), pair, bound


def check(case, ctx):
    ref = fp.ref(case)
    ec = case["ec"]
    rng = np.random.default_rng(case["seed"])
    code = fp.used(case, backend=case["backend"])
    if case["place"] == "iid":
        flips = [q for q in ref.qubits if rng.random() < case["p"]]
    else:  # chains between far away points
        flips = set()
        for _ in range(1 + int(rng.integers(3))):
            c = ref.cells[int(rng.integers(len(ref.cells)))]
            for _ in range(int(rng.integers(1, 7))):
                qs = sorted(ref.stabs[c])
                q = qs[int(rng.integers(len(qs)))]
                flips ^= {q}
                nxt = [x for x in ref.of_qubit[q] if x != c]
                if not nxt:
                    break
                c = nxt[0]
        flips = sorted(flips)
    synd = ref.syndrome(flips)
    while len(synd) > case["cap"]:
        flips = flips[: len(flips) // 2]
        synd = ref.syndrome(flips)
    fp.set_bits(code, flips)
    kind = case["kind"]
    if case["seed"] % 4 == 2:  # the same syndrome was decoded before, with other weights
        for q, x in zip(ref.qubits, weights_for("log" if case["via"] else "int_large", ref, np.random.default_rng(case["seed"]))):
            code.graph.nodes[q]["weight"] = x
        getattr(code, ec + "_stab_graph").assign_weights(code)
        mwpm_decoder(code, ec, backend=fp.matcher(case["match"]))
    via_correct = False
    matchings = fp.matcher("custom").matchings
    if kind.startswith("blueprint"):
        opts = blueprint(code, kind == "blueprint_int", rng)
        dec.assign_weights(code, "MWPM", **opts)
        w = {q: code.graph.nodes[q]["weight"] for q in ref.qubits}
        via_correct = case["via"]
    elif kind == "one" and case["via"]:
        dec.assign_weights(code, "MWPM")
        w = {q: 1 for q in ref.qubits}
        opts, via_correct = {}, True
    else:
        w = dict(zip(ref.qubits, weights_for(kind, ref, rng)))
        for q, x in w.items():
            code.graph.nodes[q]["weight"] = x
        getattr(code, ec + "_stab_graph").assign_weights(code)
    require(all(np.isfinite(x) and x >= 0 for x in w.values()), "assigned weights must be finite and non-negative")
    if via_correct:
        dec.correct(code, decoder="MWPM", weight_options=opts, decoder_opts={"backend": fp.matcher(case["match"])})
        rec = {q for q, b in fp.bits(code).items() if b} ^ set(flips)
    else:
        rec = set(mwpm_decoder(code, ec, backend=fp.matcher(case["match"])))
    require(case["match"] != "custom" or fp.matcher("custom").matchings == matchings + 1, "the supplied matching graph was asked for %s matchings", fp.matcher("custom").matchings - matchings)
    require(rec <= set(ref.qubits), "the correction contains %s" % sorted(map(str, rec - set(ref.qubits)))[:3])
    require(ref.syndrome(rec) == synd, "the correction does not reproduce the syndrome")
    total = sum(w[q] for q in rec)
    defects = sorted(synd)
    best, pair, bound = optimum(ref, w, defects)
    require(best is not None, "reference optimum")
    scale = max([x for r in pair for x in r if x is not None] + [x for x in bound if x is not None] + [0]) if defects else 0
    ints = all(isinstance(x, (int, np.integer)) for x in w.values())
    if case["match"].endswith("lemon"):
        tol = 0 if ints and scale < 1e6 else 4e-6 * (len(defects) + 1) * scale
    else:
        tol = 0 if ints else 1e-9 * (1 + (len(defects) + 1) * scale)
    require(total <= best + tol, "correction of weight %s, the minimum is %s (%d defects, backend %s)", total, best, len(defects), case["match"])
    require(total >= best - tol - 1e-9 * (1 + scale), "correction of weight %s beats the reference optimum %s", total, best)
    ctx.mark(len(defects) >= 4 or (len(defects) >= 2 and len(set(w.values())) > 1))
    ctx.label(case["match"], kind, case["b"], "defects>13" if len(defects) > 13 else "defects<=13")


@st.composite
def cases(draw):
    spec = draw(gen.code_spec(lo=2, hi=8, periodic_lo=3, max_volume=50, long=24))
    spec.update(backend=draw(st.sampled_from(["rustworkx", "networkx"])), match=draw(st.sampled_from(DECODERS)),
                seed=draw(gen.seeds()), kind=draw(st.sampled_from(KINDS)), place=draw(st.sampled_from(["iid", "iid", "chain"])),
                p=draw(st.sampled_from([0.03, 0.08, 0.2])), via=draw(st.booleans()), cap=draw(st.sampled_from([8, 12, 12, 30])))
    return spec


@st.composite
def crowded(draw):
    """Many defects near a boundary, several of which are closest to the same boundary point."""
    ec = draw(st.sampled_from(gen.ECS))
    dims = [draw(st.integers(4, 6)), draw(st.integers(4, 6)), draw(st.integers(3, 6))]
    b = draw(st.sampled_from(["open", "open", "open", "toric"]))
    if b == "open":
        dims[1 if ec == "primal" else 0] -= draw(st.integers(0, 2))
    return {"d": dims, "ec": ec, "b": b,
            "backend": draw(st.sampled_from(["rustworkx", "networkx"])), "match": draw(st.sampled_from(["rustworkx", "lemon", "rustworkx", "networkx"])),
            "seed": draw(gen.seeds()), "kind": draw(st.sampled_from(["zeros", "int_small", "steps", "one", "blueprint", "int_large", "wide"])),
            "place": "iid", "p": draw(st.sampled_from([0.1, 0.2, 0.35, 0.5])), "via": draw(st.booleans()), "cap": 60}


SUBS = [Sub("min_weight", check, cases, quick=2400, thorough=40000), Sub("many_defects", check, crowded, quick=240, thorough=5000)]
