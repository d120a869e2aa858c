"""C05: every decoder always returns to the code space."""
from harness import lemon

lemon.install()

import numpy as np
from hypothesis import strategies as st

from flamingpy.decoders import decoder as dec
from flamingpy.decoders.mwpm import mwpm_decoder
from flamingpy.decoders.unionfind import uf_decoder
from flamingpy.decoders.unionfind.algos import peeling
from harness import fp, gen
from harness.core import Sub, require

PROPERTY = "C05"
BUDGET = {"quick": 60, "thorough": 1200}
RULE = ("codes, error patterns on all qubits (sparse to dense), swap-out labellings and weights are generated and decoded with "
        "every decoder/backend combination; non-trivial = at least one odd stabilizer (decoding must flip something)")
DECODERS = ["MWPM:networkx", "MWPM:rustworkx", "MWPM:lemon", "UF"] * 3 + ["MWPM:custom", "MWPM:class:lemon", "MWPM:class:rustworkx"]


def pattern(case, ref, rng):
    """Flipped qubits of the whole lattice."""
    allq = sorted(ref.nodes)
    kind = case["errs"]
    if kind == "none":
        return []
    if kind == "all":
        return allq
    if kind == "few":
        k = 1 + case["seed"] % 5
        idx = rng.choice(len(ref.qubits), size=min(k, len(ref.qubits)), replace=False)
        return [ref.qubits[i] for i in idx]
    if kind == "ball":
        c = ref.qubits[int(rng.integers(len(ref.qubits)))]
        return [q for q in allq if sum(abs(a - b) for a, b in zip(q, c)) <= 4 and rng.random() < 0.7]
    p = {"sparse": 0.03, "mid": 0.12, "dense": 0.5}[kind]
    return [q for q in allq if rng.random() < p]


def label_states(case, code, ref, rng):
    """p-squeezed labels: none, random, or clustered."""
    kind = case["swap"]
    if kind == "unset":
        return
    for n in code.graph.nodes:
        code.graph.nodes[n]["state"] = "GKP"
    if kind == "none":
        return
    if kind == "cluster":
        c = ref.qubits[int(rng.integers(len(ref.qubits)))]
        r = 2 + int(rng.integers(4))
        for n in sorted(code.graph.nodes):
            if sum(abs(a - b) for a, b in zip(n, c)) <= r:
                code.graph.nodes[n]["state"] = "p"
        return
    p = {"rare": 0.15, "half": 0.5, "full": 1.0}[kind]
    for n in sorted(code.graph.nodes):
        if rng.random() < p:
            code.graph.nodes[n]["state"] = "p"


def blueprint_opts(case, code, rng):
    """Attributes and options for blueprint weights."""
    for n in sorted(code.graph.nodes):
        code.graph.nodes[n]["p_phase_cond"] = [0.0, 1e-9, 0.02, 0.2, 0.5, 0.7][int(rng.integers(6))]
        code.graph.nodes[n]["hom_val_p"] = float(rng.normal(0, 1.5))
    opts = {"method": "blueprint", "integer": case["integer"], "multiplier": case["mult"]}
    if case["pre"]:
        opts["prob_precomputed"] = True
    else:
        opts["delta"] = [0.01, 0.1, 1.0][int(rng.integers(3))]
    return opts


def explicit_weight(kind, rng):
    """Weights set on the qubits by hand: all zero, mostly zero, tied, or spread out."""
    if kind == "zero":
        return 0
    if kind == "mostly_zero":
        return int(rng.integers(0, 4)) * int(rng.random() < 0.3)
    if kind == "tied":
        return int(rng.integers(0, 2))
    if kind == "float":
        return float(rng.random())
    return int(rng.integers(0, 1000))


def check(case, ctx):
    ref = fp.ref(case)
    ec = case["ec"]
    rng = np.random.default_rng(case["seed"])
    code = fp.used(case, backend=case["backend"])
    flips = pattern(case, ref, rng)
    fp.set_bits(code, flips)
    name, _, match = case["dec"].partition(":")
    if case["seed"] % 4 == 2:  # the same errors were decoded before, with other weights and labels
        again = np.random.default_rng(case["seed"])
        for n in sorted(code.graph.nodes):
            code.graph.nodes[n]["state"] = "p" if again.random() < 0.2 and name == "UF" else "GKP"
        dec.correct(code, decoder=name, decoder_opts={"backend": fp.matcher(match)} if match else None)
        fp.set_bits(code, flips)
        for n in code.graph.nodes:
            code.graph.nodes[n].pop("state"), code.graph.nodes[n].pop("weight", None)
    label_states(case, code, ref, rng)
    if case["weights"] == "blueprint" and name == "MWPM":
        opts = blueprint_opts(case, code, rng)
        if case["swap"] == "unset":
            for n in code.graph.nodes:
                code.graph.nodes[n]["state"] = "GKP"
    else:
        opts = {"method": "uniform"} if case["weights"] == "uniform" else None
    syndrome = ref.syndrome(flips)
    before = fp.bits(code)
    stabs = getattr(code, ec + "_stabilizers")
    require(sum(s.parity for s in stabs) == len(syndrome), "initial syndrome has the wrong size")
    if case["via"] == "correct" and case["weights"] != "explicit":
        d_opts = {"backend": fp.matcher(match)} if name == "MWPM" else None
        verdict = dec.correct(code, decoder=name, weight_options=opts, sanity_check=bool(case["sanity"]), decoder_opts=d_opts)
        require(verdict in (True, False), "verdict %r" % (verdict,))
        changed = {n for n, b in fp.bits(code).items() if b != before[n]}
    else:
        if case["weights"] == "explicit" and name == "MWPM":
            for q in ref.qubits:
                code.graph.nodes[q]["weight"] = explicit_weight(case["kind"], rng)
            getattr(code, ec + "_stab_graph").assign_weights(code)
        else:
            dec.assign_weights(code, name, **(opts or {}))
        rec = mwpm_decoder(code, ec, backend=fp.matcher(match)) if name == "MWPM" else uf_decoder(code, ec)
        require(fp.bits(code) == before, "the decoder itself changed bit values")
        rec = list(rec)
        require(len(rec) == len(set(rec)), "recovery lists a qubit twice")
        dec.recovery(rec, code, ec, sanity_check=bool(case["sanity"]))
        changed = {n for n, b in fp.bits(code).items() if b != before[n]}
        require(changed == set(rec), "qubits flipped differ from the reported recovery")
    require(all(b in (0, 1) for b in fp.bits(code).values()), "bit values left {0,1}")
    require(changed <= set(ref.qubits), "flipped qubits outside the syndrome: %s" % sorted(changed - set(ref.qubits))[:4])
    odd = [s for s in stabs if s.parity]
    require(not odd, "%d stabilizers remain odd after recovery, e.g. %s" % (len(odd), odd[:1]))
    left = ref.syndrome(set(flips) ^ changed)
    require(not left, "cells %s remain violated after recovery" % sorted(left)[:4])
    if not syndrome and case["errs"] == "none" and not (name == "UF" and case["swap"] not in ("unset", "none")):
        require(not changed, "decoding an error-free code flipped %s" % sorted(changed)[:4])
    ctx.mark(bool(syndrome))
    ctx.label(case["dec"], case["b"], case["errs"], "swap:" + case["swap"])


@st.composite
def cases(draw):
    spec = draw(gen.code_spec(lo=2, hi=8, max_volume=40))
    d = draw(st.sampled_from(DECODERS))
    spec.update(
        dec=d, backend=draw(st.sampled_from(["rustworkx", "networkx"])), seed=draw(gen.seeds()),
        errs=draw(st.sampled_from(["few", "sparse", "mid", "dense", "ball", "none", "all"])),
        swap=draw(st.sampled_from(["unset", "none", "rare", "half", "cluster", "full"] if d == "UF" else ["unset", "none", "half"])),
        weights=draw(st.sampled_from(["default", "uniform", "blueprint"] + ["explicit"] * (d != "UF"))),
        kind=draw(st.sampled_from(["zero", "mostly_zero", "tied", "float", "wide"])),
        integer=draw(st.booleans()), mult=draw(st.sampled_from([1, 10, 1000])), pre=draw(st.booleans()),
        via=draw(st.sampled_from(["correct", "decoder"])), sanity=draw(st.booleans()))
    return spec


@st.composite
def uf_large(draw):
    """Union-find is fast: larger lattices, all swap-out densities."""
    spec = draw(gen.code_spec(lo=2, hi=12, max_volume=150, long=70))
    spec.update(dec="UF", backend=draw(st.sampled_from(["rustworkx", "networkx"])), seed=draw(gen.seeds()),
                errs=draw(st.sampled_from(["few", "sparse", "mid", "dense", "ball"])),
                swap=draw(st.sampled_from(["unset", "none", "rare", "half", "cluster", "full"])),
                weights="uniform", integer=False, mult=1, pre=False, via=draw(st.sampled_from(["correct", "decoder"])),
                sanity=False)
    return spec


def big_decode(r):
    pick = lambda *v: v[int(r.integers(len(v)))]
    d = pick(*DECODERS, *["UF"] * 14)
    return {"dec": d, "backend": pick("rustworkx", "networkx"), "errs": pick("few", "sparse", "ball", "mid", "dense", "dense") if d == "UF" else "few",
            "swap": pick("none", "none", "rare", "cluster", "half") if d == "UF" else "none", "weights": "uniform", "integer": False, "mult": 1, "pre": False,
            "via": pick("correct", "decoder"), "sanity": False}


def tree_edges(shape, n, rng, shuffle):
    """Parent of every node but the first; the parents come first."""
    if shape == "path":
        par = list(range(n - 1))
    elif shape == "star":
        par = [0] * (n - 1)
    elif shape == "comb":
        par = [i - 1 if i % 2 else max(i - 2, 0) for i in range(1, n)]
    elif shape == "binary":
        par = [(i - 1) // 2 for i in range(1, n)]
    elif shape == "deep":
        par = [max(0, i - 1 - int(rng.integers(3))) for i in range(1, n)]
    else:
        par = [int(rng.integers(i)) for i in range(1, n)]
    edges = [(p, i) for i, p in enumerate(par, start=1)]
    if shuffle:
        name = rng.permutation(n)
        edges = [(int(name[a]), int(name[b])) if rng.random() < 0.5 else (int(name[b]), int(name[a])) for a, b in edges]
        edges = [edges[i] for i in rng.permutation(len(edges))]
    return edges


def check_peeling(case, ctx):
    """Peeling a forest gives the one set of edges whose end points are the odd nodes."""
    import rustworkx as rx

    rng = np.random.default_rng(case["seed"])
    graph, parity, edges = rx.PyGraph(), {}, []
    total = 0
    for shape, n in case["trees"]:
        graph.add_nodes_from(range(total, total + n))
        bits = (rng.random(n) < case["p"]).astype(int)
        if bits.sum() % 2:
            bits[int(rng.integers(n))] ^= 1
        parity.update({total + i: int(b) for i, b in enumerate(bits)})
        edges += [(total + a, total + b) for a, b in tree_edges(shape, n, rng, case["shuffle"])]
        total += n
    if case["shuffle"]:
        edges = [edges[i] for i in rng.permutation(len(edges))]
    for k, (a, b) in enumerate(edges):
        graph.add_edge(a, b, {"common_vertex": (k, a, b)})
    # The only solution, by peeling a plain dictionary without recursion.
    near = {i: set() for i in range(total)}
    for k, (a, b) in enumerate(edges):
        near[a].add((k, b))
        near[b].add((k, a))
    left, want = dict(parity), set()
    queue = [i for i in near if len(near[i]) == 1]
    while queue:
        i = queue.pop()
        if len(near[i]) != 1:
            continue
        k, j = near[i].pop()
        near[j].remove((k, i))
        if left[i]:
            want.add((k,) + edges[k])
            left[i] ^= 1
            left[j] ^= 1
        if len(near[j]) == 1:
            queue.append(j)
    require(not any(left.values()), "harness: forest not peeled")
    got = peeling(graph, dict(parity))
    require(len(got) == len(set(got)) and set(got) == want,
            "peeling a forest of %d nodes: %d edges wrong" % (total, len(set(got) ^ want)))
    ctx.mark(bool(want))
    ctx.label(*{s for s, _ in case["trees"]}, "large" if total > 900 else "small")


@st.composite
def forests(draw):
    shapes = st.sampled_from(["path", "star", "comb", "binary", "deep", "random"])
    trees = draw(st.lists(st.tuples(shapes, st.integers(1, 40)), min_size=1, max_size=6))
    if draw(st.integers(0, 7)) == 0:
        trees.append((draw(shapes), draw(st.integers(500, 4000))))
    return {"trees": trees, "p": draw(st.sampled_from([0.02, 0.2, 0.5, 1.0])), "seed": draw(gen.seeds()),
            "shuffle": draw(st.booleans())}


SUBS = [
    Sub("peeling_forests", check_peeling, forests, quick=1200, thorough=20000, share=0.5,
        examples=[{"trees": [["path", 3000]], "p": 0.02, "seed": 1, "shuffle": False},
                  {"trees": [["comb", 3000], ["path", 2500]], "p": 0.5, "seed": 2, "shuffle": True}]),
    Sub("all_decoders", check, cases, quick=3200, thorough=40000, share=2),
    Sub("union_find_large", check, uf_large, quick=800, thorough=8000),
    Sub("big_codes", check, enum=gen.big_cases("C05", big_decode, thorough=300, periodic_lo=2), share=0.5, rule="a few codes of 500 to 1300 cells, drawn from the seed"),
]
