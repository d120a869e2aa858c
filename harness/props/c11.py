"""C11: weight assignment follows the neighbourhood rule for each method and decoder."""
from harness import lemon

lemon.install()

import math
import sys

import numpy as np
from hypothesis import strategies as st

from flamingpy.decoders import decoder as dec
from harness import fp, gen
from harness.core import Sub, require
from harness.props.c18 import reference

PROPERTY = "C11"
RULE = ("codes with random or clustered p/GKP labels, homodyne values, noise parameters and precomputed probabilities, weighted once "
        "or several times with different options; each qubit's weight is recomputed from its lattice neighbours and each "
        "stabilizer-graph edge compared with its qubit; non-trivial = at least two different p-neighbour counts")
P_TABLE = {2: 1 / 4, 3: 1 / 3, 4: 2 / 5}


def fill(code, ref, spec, rng):
    g = code.graph
    pts = sorted(g.nodes)
    kind = spec["states"]
    if kind == "absent":
        for p in pts:
            g.nodes[p].pop("state", None)
    else:
        frac = {"few": 0.1, "half": 0.5, "many": 0.85, "none": 0.0, "all": 1.0, "cluster": 0.0}[kind]
        lab = {p: ("p" if rng.random() < frac else "GKP") for p in pts}
        if kind == "cluster":
            for _ in range(2):
                c = pts[int(rng.integers(len(pts)))]
                for p in pts:
                    if sum(abs(a - b) for a, b in zip(p, c)) <= 3 and rng.random() < 0.8:
                        lab[p] = "p"
        for p in pts:
            g.nodes[p]["state"] = lab[p]
    probs = spec["probs"]
    for p in pts:
        g.nodes[p]["bit_val"] = int(rng.integers(2))
        g.nodes[p]["hom_val_p"] = float(rng.normal() * 2 if rng.random() < 0.7 else rng.uniform(-14, 14))
        u = rng.random()
        if probs == "plain":
            val = float(u * 0.5)
        elif probs == "extreme":
            val = float(rng.choice([0.0, 0.5, 0.500001, 0.75, 1.0, 1e-300, sys.float_info.min, 1e-12, 0.4999]))
        else:
            val = float(10.0 ** (-12 * u) / 2)
        g.nodes[p]["p_phase_cond"] = val if spec["ptype"] == "float" else np.float64(val)


def snapshot(code):
    g = code.graph
    return ({n: {k: v for k, v in d.items() if k != "weight"} for n, d in g.nodes(data=True)},
            {frozenset(e[:2]): dict(e[2]) for e in g.edges(data=True)},
            {n: d.get("weight", "missing") for n, d in g.nodes(data=True)})


def check(case, ctx):
    code = fp.used(case, backend=case["backend"])
    ref = fp.ref(case)
    rng = np.random.default_rng(case["seed"])
    qubits = set(ref.qubits)
    counts = set()
    for n in code.graph.nodes:
        if rng.random() < 0.1:
            code.graph.nodes[n]["weight"] = 17
    g = code.graph
    # some rounds are followed by one with nearly the same values
    for spec, close in [(spec, close) for spec in case["rounds"] for close in ((False, True) if case["seed"] % 3 == 0 else (False,))]:
        if close:
            for p in g.nodes:
                g.nodes[p]["p_phase_cond"] *= 1 - 1e-7
                g.nodes[p]["hom_val_p"] += 1e-7
        else:
            fill(code, ref, spec, rng)
        attrs, edges, before = snapshot(code)
        opts = {}
        if spec["decoder"] == "UF":
            if spec["method"] != "default":
                opts["method"] = "uniform"
        elif spec["method"] == "default":
            pass
        else:
            opts["method"] = spec["method"]
            if spec["method"] == "blueprint":
                if spec["pre"]:
                    opts["prob_precomputed"] = True
                    if spec["odd"]:
                        opts["delta"] = 0.123
                else:
                    opts["delta"] = spec["delta"]
                    if spec["odd"]:
                        opts["prob_precomputed"] = False
                if spec["integer"]:
                    opts["integer"] = True
                    if spec["mult"] != 1:
                        opts["multiplier"] = spec["mult"]
                elif spec["odd"]:
                    opts["integer"] = False
        keep = dict(opts)
        with np.errstate(all="ignore"):
            out = dec.assign_weights(code, spec["decoder"], **opts)
        require(opts == keep, "options changed")
        attrs2, edges2, after = snapshot(code)
        require(attrs2 == attrs, "other node attributes changed")
        require(edges2 == edges, "graph edges changed")
        for n in g.nodes:
            if n not in qubits:
                require(after[n] == before[n], "weight of the non-syndrome qubit %s changed", n)
        for q in ref.qubits:
            w = after[q]
            pc = sum(g.nodes[v].get("state") == "p" for v in ref.adj[q])
            counts.add(pc)
            what = "qubit %s with %d p-squeezed neighbours: weight %r" % (q, pc, w)
            if spec["decoder"] == "UF":
                require(w == (2 if pc < 2 else -1), what)
                continue
            if opts.get("method", "uniform") == "uniform":
                require(w == 1, what)
                continue
            require(isinstance(w, (int, float, np.integer, np.floating)), what)
            require(math.isfinite(w) and w >= 0, what)
            slack = 1e-9
            if pc >= 2:
                p = P_TABLE[pc]
            elif opts.get("prob_precomputed"):
                p = float(g.nodes[q]["p_phase_cond"])
            else:
                var = (len(ref.adj[q]) + 1) * opts["delta"]
                p, expo, edge, _ = reference(var, g.nodes[q]["hom_val_p"], False)
                if expo > 752:
                    p = 0.0
                elif expo > 690:
                    continue
                slack = 1e-9 + 1e-11 / var
            p = min(p, 0.5)
            if p < 2.3e-308:
                if not opts.get("prob_precomputed") and pc < 2 and p > 0:
                    continue     # the last digits of a denormal probability are lost
                p = p or sys.float_info.min
            elif p < 1e-290 and pc < 2 and not opts.get("prob_precomputed"):
                continue
            want = -math.log(p)
            if opts.get("integer"):
                mult = opts.get("multiplier", 1)
                require(w == int(w), what + " is not an integer")
                require(abs(w - mult * want) <= 0.5 + slack * mult * max(1, want), what + ", unrounded %r" % (mult * want))
            else:
                require(abs(w - want) <= slack * max(1, want), what + ", expected %r" % want)
        sg = getattr(code, case["ec"] + "_stab_graph")
        seen = set()
        for a, b in sg.edges():
            data = sg.edge_data(a, b)
            lab = data["common_vertex"]
            if lab is None:
                require(data.get("weight") == 0, "terminal edge weighs %r", data.get("weight"))
            else:
                require(data.get("weight") == after[lab], "edge of %s weighs %r, its qubit %r", lab, data.get("weight"), after[lab])
                seen.add(lab)
        per2 = any(bd == "periodic" and n == 2 for bd, n in zip(ref.bounds, ref.dims))
        require(per2 or seen == qubits, "stabilizer graph lacks qubits")
        ctx.label(spec["decoder"] + "-" + opts.get("method", "default"))
    ctx.mark(len(counts) > 1)
    ctx.label("rounds%d" % len(case["rounds"]))


def check_reject(case, ctx):
    """Blueprint weights for union-find are rejected by both entry points."""
    code = fp.build(case)
    rng = np.random.default_rng(case["seed"])
    fill(code, fp.ref(case), {"states": case["states"], "probs": "plain", "ptype": "float"}, rng)
    opts = {"method": "blueprint"}
    opts.update(case["extra"])
    for f in (lambda: dec.assign_weights(code, "UF", **opts), lambda: dec.correct(code, decoder="UF", weight_options=opts)):
        try:
            f()
        except Exception:
            continue
        require(False, "blueprint weights accepted for union-find")
    ctx.mark()


@st.composite
def round_spec(draw):
    decoder = draw(st.sampled_from(["MWPM", "MWPM", "UF"]))
    method = draw(st.sampled_from(["blueprint", "blueprint", "blueprint", "uniform", "default"]))
    states = draw(st.sampled_from(["few", "half", "many", "none", "all", "cluster", "absent"]))
    if decoder == "MWPM" and method == "blueprint" and states == "absent":
        states = "half"
    return {"decoder": decoder, "method": method, "states": states,
            "pre": draw(st.booleans()), "delta": draw(st.sampled_from([0.01, 0.05, 0.1, 0.25, 0.6, 0.001])),
            "integer": draw(st.booleans()), "mult": draw(st.sampled_from([1, 1, 10, 100, 1000, 7, 0.5, 0.2])),
            "probs": draw(st.sampled_from(["plain", "wide", "extreme"])), "ptype": draw(st.sampled_from(["float", "np"])),
            "odd": draw(st.booleans())}


@st.composite
def cases(draw):
    c = draw(gen.code_spec(hi=6, max_volume=48, long=40))
    c.update({"backend": draw(st.sampled_from(["networkx", "rustworkx"])), "seed": draw(gen.seeds()),
              "rounds": draw(st.lists(round_spec(), min_size=1, max_size=3))})
    return c


@st.composite
def reject_cases(draw):
    c = draw(gen.code_spec(hi=3, max_volume=18))
    c.update({"seed": draw(gen.seeds()), "states": draw(st.sampled_from(["half", "none"])),
              "extra": draw(st.sampled_from([{}, {"prob_precomputed": True}, {"delta": 0.1}, {"integer": True, "multiplier": 100}]))})
    return c


def big_rounds(r):
    pick = lambda *v: v[int(r.integers(len(v)))]
    return {"backend": pick("networkx", "rustworkx"),
            "rounds": [{"decoder": d, "method": m, "states": pick("few", "half", "many", "all", "cluster"), "pre": pick(True, False), "delta": pick(0.01, 0.1, 0.6),
                        "integer": pick(True, False), "mult": pick(1, 10, 7, 0.5), "probs": pick("plain", "wide", "extreme"), "ptype": pick("float", "np"), "odd": pick(True, False)}
                       for d, m in (("MWPM", "blueprint"), ("UF", "uniform"), ("MWPM", "uniform"), ("MWPM", "blueprint"))]}


SUBS = [
    Sub("weights", check, cases, quick=1800, thorough=20000),
    Sub("big_codes", check, enum=gen.big_cases("C11", big_rounds, thorough=200), share=0.5, rule="a few codes of 500 to 1300 cells, drawn from the seed"),
    Sub("rejected", check_reject, reject_cases, quick=160, thorough=1000, share=0.1),
]
