"""C26: reusing a code object gives the same results as using a fresh one."""
import os

os.environ["MPLBACKEND"] = "Agg"
from harness import lemon

lemon.install()

import contextlib
import io
import warnings

import numpy as np
from hypothesis import strategies as st

warnings.simplefilter("ignore")

from flamingpy.codes import alternating_polarity
from flamingpy.decoders import decoder as dec
from flamingpy.decoders.mwpm.algos import build_match_graph, mwpm_decoder
from flamingpy.decoders.unionfind.algos import uf_decoder
from flamingpy.noise import CVLayer, CVMacroLayer, IidNoise
from harness import fp, gen, snap
from harness.core import Sub, require
from harness.props.c08 import optimum

PROPERTY = "C26"
BUDGET = {"quick": 50, "thorough": 1500}
RULE = ("histories of noise applications (three models), weight assignments, decodings by all decoders and matching backends, verdict checks, "
        "drawings, matching-graph constructions and index, slice and adjacency queries on one code object; structure is compared with the "
        "snapshot of a fresh code after every operation and, at random points and at the end, new bit values and weights are decoded on the "
        "used code and on a fresh one; non-trivial = at least two state-changing operations before a decoding with a non-trivial syndrome")
VOLATILE = ("bit_val", "weight", "state", "hom_val_p", "hom_val_q", "p_phase", "p_phase_cond", "p_phase_cond", "hom_val")
FIXED_ATTRS = ("type", "boundary", "color")


def structure(code):
    """Everything about a code that no operation may change."""
    g = code.graph
    out = {"nodes": tuple(g.nodes), "types": {n: (g.nodes[n].get("type"), g.nodes[n].get("color")) for n in g.nodes},
           "edges": {frozenset((a, b)): snap.plain(dict(d)) for a, b, d in g.edges(data=True)}, "dims": tuple(code.dims), "ec": tuple(code.ec),
           "adj": {n: tuple(g[n]) for n in g.nodes}, "distance": snap.plain(code.distance), "boundaries": snap.plain(code.boundaries)}
    for k, v in sorted(vars(code).items()):
        if k.endswith("_stab_graph"):
            out[k] = snap.stab_graph(v, weights=False)
        elif k.endswith("_stabilizers"):
            out[k] = tuple((snap.name(s), snap.plain(tuple(s.midpoint())), s.xlims(), s.ylims(), s.zlims()) for s in v)
        elif k.endswith(("_inds", "_coords", "_points")):
            out[k] = snap.plain(v)
    return out


def set_qubits(code, case):
    """New bit values, weights and states on every qubit, from plain data."""
    rng = np.random.default_rng(case["seed"])
    nodes = sorted(code.graph.nodes)
    bits = (rng.random(len(nodes)) < case["p"]).astype(int)
    w = {"unit": np.ones(len(nodes)), "int": rng.integers(0, 9, len(nodes)), "float": np.round(rng.random(len(nodes)) * 8, 3)}[case["w"]]
    swap = rng.random(len(nodes)) < case["swap"]
    phase = rng.random(len(nodes)) * 0.5
    hom = np.round(rng.normal(0, 1, len(nodes)), 4)
    for n, b, x, s, f, h in zip(nodes, bits, w, swap, phase, hom):
        d = code.graph.nodes[n]
        d["bit_val"], d["weight"] = int(b), (int(x) if case["w"] != "float" else float(x))
        d["state"], d["p_phase_cond"], d["hom_val_p"] = ("p" if s else "GKP"), float(f), float(h)


def compare(used, case, ctx, what, ref):
    """Decode the same new data on the used code and on a fresh one."""
    fresh = fp.build(case, backend=case["backend"], **({"polarity": alternating_polarity} if case["polar"] else {}))
    fin = case["final"]
    for c in (used, fresh):
        set_qubits(c, fin)
    ec = case["ec"]
    require([int(s.parity) % 2 for s in getattr(used, ec + "_stabilizers")] == [int(s.parity) % 2 for s in getattr(fresh, ec + "_stabilizers")],
            "%s: stabilizer parities differ from those of a fresh code", what)
    for name, opts in fin["opts"]:
        for c in (used, fresh):
            dec.assign_weights(c, name, **opts)
        wu, wf = ({n: c.graph.nodes[n].get("weight") for n in c.graph.nodes} for c in (used, fresh))
        require({q: wu[q] for q in ref.qubits} == {q: wf[q] for q in ref.qubits}, "%s: assigned weights (%s %s) differ from those on a fresh code", what, name, opts)
    flips = [q for q in ref.qubits if used.graph.nodes[q]["bit_val"]]
    synd = ref.syndrome(flips)
    # the whole of correct(): weights, decoding, recovery and verdict
    for name, opts in fin["opts"]:
        match = fin["match"] if name == "MWPM" else None
        out = []
        for c in (used, fresh):
            set_qubits(c, fin)
            ok = bool(dec.correct(c, decoder=name, weight_options=dict(opts), decoder_opts={"backend": match} if match else None))
            left = [q for q in ref.qubits if c.graph.nodes[q]["bit_val"]]
            require(not ref.syndrome(left), "%s: correct(%s, %s) left a syndrome", what, name, opts)
            require(ok == ref.is_trivial(left), "%s: correct(%s, %s) said %s", what, name, opts, ok)
            w = {q: c.graph.nodes[q]["weight"] for q in ref.qubits}
            out.append((w, sum(w[q] for q in set(left) ^ set(flips))))
        require(out[0][0] == out[1][0], "%s: correct(%s, %s) used other weights than on a fresh code", what, name, opts)
        if name == "MWPM":
            tol = 1e-6 * (1 + abs(out[1][1]))
            require(abs(out[0][1] - out[1][1]) <= tol, "%s: correct(%s, %s) found weight %s, on a fresh code %s", what, name, opts, out[0][1], out[1][1])
            if len(synd) <= 10:
                best = optimum(ref, out[0][0], sorted(synd))[0]
                require(abs(out[0][1] - best) <= tol, "%s: correct(%s, %s) found weight %s, the optimum is %s", what, name, opts, out[0][1], best)
    for c in (used, fresh):
        set_qubits(c, fin)
        for name, opts in fin["opts"]:
            dec.assign_weights(c, name, **opts)
    for n in used.graph.nodes:
        fresh.graph.nodes[n]["weight"] = used.graph.nodes[n]["weight"]
    best = None
    for d in fin["decs"]:
        name, _, match = d.partition(":")
        if name != "MWPM":
            for c in (used, fresh):
                getattr(c, ec + "_stab_graph").assign_weights(c)
        if name == "MWPM":
            # Union-Find marks erased qubits with -1, which has no meaning for matching
            for c in (used, fresh):
                for n in c.graph.nodes:
                    c.graph.nodes[n]["weight"] = abs(c.graph.nodes[n]["weight"])
                getattr(c, ec + "_stab_graph").assign_weights(c)
            weight = lambda q: used.graph.nodes[q]["weight"]
            if best is None and len(synd) <= 12:
                best = optimum(ref, {q: weight(q) for q in ref.qubits}, sorted(synd))[0]
            rec = [mwpm_decoder(c, ec, backend=match) for c in (used, fresh)]
            tot = [sum(weight(q) for q in r) for r in rec]
            tol = 1e-6 * (1 + abs(tot[1]))
            if match != "lemon":
                require(abs(tot[0] - tot[1]) <= tol, "%s: %s on the used code weighs %s, on a fresh code %s", what, d, tot[0], tot[1])
                require(best is None or abs(tot[0] - best) <= tol, "%s: %s weighs %s, the optimum is %s", what, d, tot[0], best)
        else:
            rec = [uf_decoder(c, ec) for c in (used, fresh)]
        for r, which in zip(rec, ("used", "fresh")):
            require(set(r) <= set(ref.qubits) and ref.syndrome(r) == synd, "%s: %s on the %s code gave an invalid correction", what, d, which)
        verdicts = []
        for c, r in zip((used, fresh), rec):
            keep = fp.bits(c)
            dec.recovery(r, c, ec)
            left = [q for q in ref.qubits if c.graph.nodes[q]["bit_val"]]
            require(set(left) == set(flips) ^ set(r), "%s: recovery", what)
            v = bool(np.all(dec.check_correction(c)))
            require(v == ref.is_trivial(left), "%s: verdict %s after %s", what, v, d)
            verdicts.append((set(r), v))
            for n, b in keep.items():
                c.graph.nodes[n]["bit_val"] = b
        if verdicts[0][0] == verdicts[1][0]:
            require(verdicts[0][1] == verdicts[1][1], "%s: verdicts differ", what)
    reweigh(used, case, what, ref, synd)
    return bool(synd)


def reweigh(used, case, what, ref, synd):
    """The same syndrome again, with the same weights differently placed."""
    fin, ec = case["final"], case["ec"]
    if not synd or len(synd) > 10:
        return
    rng = np.random.default_rng(fin["seed"] + 5)
    pool = rng.integers(0, 9, len(ref.qubits))
    for match in sorted({d.partition(":")[2] for d in fin["decs"]} & {"networkx", "rustworkx"}):
        for _ in range(3):
            weight = dict(zip(ref.qubits, (int(x) for x in rng.permutation(pool))))
            for q, w in weight.items():
                used.graph.nodes[q]["weight"] = w
            getattr(used, ec + "_stab_graph").assign_weights(used)
            rec = mwpm_decoder(used, ec, backend=match)
            require(set(rec) <= set(ref.qubits) and ref.syndrome(rec) == synd, "%s: %s after moving the weights gave an invalid correction", what, match)
            tot, best = sum(weight[q] for q in rec), optimum(ref, weight, sorted(synd))[0]
            require(abs(tot - best) <= 1e-6 * (1 + abs(best)), "%s: %s after moving the weights found weight %s, the optimum is %s", what, match, tot, best)


def apply(code, op, case, ref, store):
    """One step of the history."""
    kind, ec = op["op"], case["ec"]
    rng = np.random.default_rng(op["seed"])
    if kind == "iid":
        IidNoise(code, op["p"]).apply_noise(rng)
    elif kind == "cv":
        layer = store.setdefault("cv", CVLayer(code, delta=0.15, p_swap=op["swap"])) if op["keep"] else CVLayer(code, delta=0.15, p_swap=op["swap"])
        layer.apply_noise(rng)
    elif kind == "macro":
        layer = store.setdefault("macro", CVMacroLayer(code, delta=0.15, p_swap=op["swap"])) if op["keep"] else CVMacroLayer(code, delta=0.15, p_swap=op["swap"])
        layer.apply_noise(rng)
    elif kind == "set":
        set_qubits(code, op)
    elif kind == "assign":
        dec.assign_weights(code, op["decoder"], method="uniform")
    elif kind == "blueprint":
        set_qubits(code, op)
        dec.assign_weights(code, "MWPM", method="blueprint", prob_precomputed=bool(op["keep"]), integer=bool(op["flag"]), multiplier=100, delta=0.2)
    elif kind == "decode":
        name, _, match = op["dec"].partition(":")
        need_bits(code, op)
        with contextlib.redirect_stdout(io.StringIO()):
            dec.correct(code, decoder=name, decoder_opts={"backend": match} if match else None, sanity_check=bool(op["flag"]))
    elif kind == "raw":
        need_bits(code, op)
        dec.assign_weights(code, "MWPM")
        (uf_decoder if op["flag"] else mwpm_decoder)(code, ec)
    elif kind == "verdict":
        need_bits(code, op)
        dec.check_correction(code, sanity_check=bool(op["flag"]))
    elif kind == "match":
        need_bits(code, op)
        dec.assign_weights(code, "MWPM")
        getattr(code, ec + "_stab_graph").assign_weights(code)
        build_match_graph(code, ec, op["dec"].partition(":")[2] or "networkx").min_weight_perfect_matching()
    elif kind == "recover":
        need_bits(code, op)
        dec.recovery({ref.qubits[int(k)] for k in rng.integers(len(ref.qubits), size=3)}, code, ec)
    elif kind == "index":
        code.graph.index_generator()
    elif kind == "adj":
        code.graph.adj_generator(sparse=bool(op["flag"]))
    elif kind == "slice":
        code.graph.slice_coords("xyz"[op["seed"] % 3], op["seed"] % 4)
    elif kind == "query":
        for s in getattr(code, ec + "_stabilizers")[:5]:
            s.midpoint(), s.xlims(), s.coords()
        sg = getattr(code, ec + "_stab_graph")
        list(sg.real_nodes()), list(sg.real_edges()), sg.to_nx(), sg.has_bound_points()
        list(code.get_slice(op["seed"] % 2, "x")) if hasattr(code, "get_slice") else None
    elif kind == "macronize":
        code.graph.macronize(pad_boundary=bool(op["flag"]))
    elif kind in ("draw", "draw_stab", "draw_dec"):
        import matplotlib

        matplotlib.use("Agg")
        import matplotlib.pyplot as plt

        with contextlib.redirect_stdout(io.StringIO()):
            try:
                if kind == "draw":
                    code.draw(backend="plotly" if op["flag"] else "matplotlib")
                elif kind == "draw_stab":
                    dec.assign_weights(code, "MWPM")
                    code.draw_stabilizer_graph(ec)
                else:
                    need_bits(code, op)
                    name, _, match = op["dec"].partition(":")
                    dec.correct(code, decoder=name, decoder_opts={"backend": match} if match else None, draw=True)
            finally:
                plt.close("all")
    elif kind == "failing":
        # operations that are refused half-way must not leave damage either
        for bad in (lambda: dec.assign_weights(code, "MWPM", method="nonsense"), lambda: dec.correct(code, decoder="nonsense")):
            try:
                bad()
            except Exception:
                pass


def need_bits(code, op):
    if any("bit_val" not in d for _, d in code.graph.nodes(data=True)):
        rng = np.random.default_rng(op["seed"] + 1)
        for n in sorted(code.graph.nodes):
            code.graph.nodes[n].setdefault("bit_val", int(rng.random() < op["p"]))


def check(case, ctx):
    ref = fp.ref(case)
    kw = {"polarity": alternating_polarity} if case["polar"] else {}
    code = fp.build(case, backend=case["backend"], **kw)
    unused = fp.build(case, backend=case["backend"], **kw)
    s0, n0 = structure(unused), {n: snap.plain(dict(d)) for n, d in unused.graph.nodes(data=True)}
    store = {}
    indices = None
    odd = False
    for k, op in enumerate(case["history"]):
        what = "after step %d (%s)" % (k + 1, op["op"])
        apply(code, op, case, ref, store)
        s1 = structure(code)
        require(s1 == s0, "%s the structure differs from that of a fresh code: %s", what, snap.diff(s0, s1))
        if code.graph.to_indices is not None:
            ti = dict(code.graph.to_indices)
            require(indices in (None, ti), "%s the indices changed", what)
            require([p for p, _ in sorted(ti.items(), key=lambda kv: kv[1])] == sorted(code.graph.nodes), "%s: indices not in sorted order", what)
            indices = ti
        ctx.label(op["op"])
        if op["probe"]:
            odd |= compare(code, case, ctx, what, ref)
    odd |= compare(code, case, ctx, "at the end of the history", ref)
    require(structure(code) == s0, "the final decoding changed the structure")
    other = fp.build(case, backend=case["backend"], **kw)
    require({n: snap.plain(dict(d)) for n, d in other.graph.nodes(data=True)} == n0, "a new code starts with the attributes of the used one")
    mine = {n: snap.plain(dict(d)) for n, d in code.graph.nodes(data=True)}
    for n in other.graph.nodes:
        other.graph.nodes[n].update(bit_val=9, weight=99, state="other")
    getattr(other, case["ec"] + "_stab_graph").assign_weights(other)
    other.graph.remove_nodes_from(sorted(other.graph.nodes)[::2])
    require({n: snap.plain(dict(d)) for n, d in code.graph.nodes(data=True)} == mine and structure(code) == s0, "changing one code changes another")
    import scipy.sparse as sp

    A = code.graph.adj_generator(sparse=True)
    B = fp.build(case, backend=case["backend"], **kw).graph.adj_generator(sparse=True)
    require((abs(sp.csr_array(A) - sp.csr_array(B))).nnz == 0, "the adjacency matrix differs from that of a fresh code")
    changing = sum(op["op"] not in ("index", "adj", "slice", "query", "macronize", "failing") for op in case["history"])
    ctx.mark(odd and changing >= 2)


OPS = ["iid", "cv", "macro", "set", "assign", "blueprint", "decode", "decode", "decode", "raw", "verdict", "match", "recover", "index", "adj", "slice", "query", "macronize", "failing"]
DECS = ["MWPM:networkx", "MWPM:rustworkx", "MWPM:lemon", "UF"]
WOPTS = [["MWPM", {}], ["UF", {}], ["MWPM", {"method": "uniform"}], ["MWPM", {"method": "blueprint", "prob_precomputed": True}],
         ["MWPM", {"method": "blueprint", "delta": 0.2}], ["MWPM", {"method": "blueprint", "delta": 0.2, "integer": True, "multiplier": 1000}]]


@st.composite
def cases(draw):
    c = draw(gen.code_spec(lo=2, hi=4, periodic_lo=3, max_volume=36))
    draws = draw(st.sampled_from([False, False, False, True]))
    ops = OPS + (["draw", "draw_stab", "draw_dec"] if draws else [])

    def qubits():
        return {"seed": draw(gen.seeds()), "p": draw(st.sampled_from([0, 0.03, 0.08, 0.08, 0.2, 0.5])), "w": draw(st.sampled_from(["unit", "int", "float"])),
                "swap": draw(st.sampled_from([0, 0.1, 0.4, 1.0]))}

    history = []
    for _ in range(draw(st.integers(1, 10 if not draws else 5))):
        history.append({"op": draw(st.sampled_from(ops)), **qubits(), "dec": draw(st.sampled_from(DECS)), "decoder": draw(st.sampled_from(["MWPM", "UF"])),
                        "flag": draw(st.booleans()), "keep": draw(st.booleans()), "probe": draw(st.sampled_from([False, False, True]))})
    c.update({"backend": draw(st.sampled_from(["networkx", "rustworkx"])), "polar": draw(st.booleans()), "history": history,
              "final": {**qubits(), "opts": draw(st.lists(st.sampled_from(WOPTS), max_size=2)), "match": draw(st.sampled_from(["networkx", "rustworkx"])), "decs": draw(st.lists(st.sampled_from(DECS), min_size=1, max_size=3, unique=True))}})
    return c


SUBS = [Sub("histories", check, cases, quick=600, thorough=15000)]
