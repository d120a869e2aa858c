"""C20: macronode reduction yields the canonical code with correct bits and odds."""
from harness import lemon

lemon.install()

import math

import numpy as np
from hypothesis import strategies as st

from flamingpy.codes.surface_code import alternating_polarity
from flamingpy.cv.ops import splitter_symp
from flamingpy.noise import CVMacroLayer
from harness import fp, gen
from harness.core import Sub, require
from harness.props.c18 import limit, reference

PROPERTY = "C20"
RULE = ("codes of every size, boundary and polarity with swap-out drawn or supplied (also one GKP state per macronode, arranged or clustered), "
        "1 to 3 applications per layer, noise from zero to moderate, perfect qubits, explicit beamsplitter networks; labels are "
        "recomputed, bits and probabilities compared with a reference reduction, stabilizers checked when noise vanishes, and "
        "the number of unsatisfied stabilizers compared with the one the probabilities predict; "
        "non-trivial = both kinds of reduced or micronode states present")
ALPHA = math.sqrt(math.pi)
KINDS = ["default", "swap", "swap", "keep_one", "keep_one", "mostly_p", "list", "all_p"]


def swap_args(case, code, rng):
    """Constructor arguments choosing the p-squeezed micronodes."""
    n_macro = len(code.graph)
    kind = case["kind"]
    if kind == "default":
        return {}
    if kind == "swap":
        return {"p_swap": case["p_swap"]}
    pad = case["b"] != "periodic"
    macro = code.graph.macronize(pad_boundary=pad)
    idx = macro.index_generator()
    groups = [[idx[p] for p in macro.macro_to_micro[c]] for c in sorted(macro.macro_to_micro)]
    p = []
    for g in groups:
        if kind == "keep_one":
            k = int(rng.integers(0, len(g)))
        elif kind == "mostly_p":
            k = len(g) - int(rng.integers(0, 2))
        elif kind == "all_p":
            k = len(g)
        else:
            k = int(rng.integers(0, len(g) + 1))
        p += [g[int(i)] for i in rng.choice(len(g), size=k, replace=False)]
    return {"states": {"p": np.array(p, dtype=int) if case["arr"] else [int(i) for i in p]}}


def centre(p):
    return tuple(round(x) for x in p)


def cond(var, x):
    """Whole-outcome conditional probability, None when the code's window or floating point cannot give it."""
    if abs(x) > limit(var, 10):
        return None
    p, expo, edge, _ = reference(var, x, True)
    if expo > 752:
        return 0.0
    if expo > 690 or edge < 1e-5:
        return None
    return p


def reduce_reference(m, home, members, c, delta):
    """(bit or None, probability or None) of macronode c from the recorded micronode outcomes."""
    outcome = 2 * float(m.nodes[members[c][1]]["hom_val_p"])
    num_p, bit, err, bit_ok, err_ok = 0, 0, 0.0, True, True
    for i in (1, 2, 3, 4):
        u = members[c][i]
        nb = list(m[u])
        if not nb:
            continue
        v = nb[0]
        q = {k: float(m.nodes[members[home[v]][k]]["hom_val_q"]) for k in (2, 3, 4)}
        Z = {1: 0.0, 2: q[2] - q[4], 3: q[3] - q[4], 4: q[2] + q[3]}[m.nodes[v]["body_index"]]
        if m.nodes[v]["state"] == "p":
            num_p += 1
            outcome -= m.edges[u, v].get("weight", 1) * Z
        else:
            n = math.floor(Z / ALPHA + 0.5)
            bit += n
            bit_ok &= abs(abs(Z - n * ALPHA) - ALPHA / 2) > 1e-5
            if delta > 0:
                e = cond(2 * delta, Z)
                if e is None:
                    err_ok = False
                else:
                    err += e
    n = math.floor(outcome / ALPHA + 0.5)
    bit += n
    bit_ok &= abs(abs(outcome - n * ALPHA) - ALPHA / 2) > 1e-5
    if delta > 0:
        e = cond(2 * (2 + num_p) * delta, outcome)
        if e is None:
            err_ok = False
        else:
            err += e
    return (bit % 2 if bit_ok else None), (min(err, 0.5) if err_ok else None)


def check(case, ctx):
    rng = np.random.default_rng(case["seed"])
    code = fp.build(case, **({"polarity": alternating_polarity} if case["pol"] else {}))
    pts = sorted(code.graph.nodes)
    if case["perfect"] != "unset":
        k = {"some": max(1, len(pts) // 3), "all": len(pts)}[case["perfect"]]
        code.graph.graph["perfect_points"] = [pts[int(i)] for i in rng.choice(len(pts), size=k, replace=False)]
    delta = case["delta"]
    kw = swap_args(case, code, rng)
    if case["bs"]:
        kw["bs_network"] = splitter_symp()
    layer = CVMacroLayer(code, delta=delta, **kw)
    m = layer.egraph
    g = code.graph
    members0 = {c: list(v) for c, v in m.macro_to_micro.items()}
    home = {p: c for c, v in members0.items() for p in v}
    require(set(members0) == set(pts), "macronodes are not the qubits of the code")
    supplied = set(int(i) for i in kw["states"]["p"]) if "states" in kw else (set() if "p_swap" not in kw else None)
    edges = {frozenset(e[:2]): dict(e[2]) for e in g.edges(data=True)}
    topo = set(m.edges)
    stabs = getattr(code, case["ec"] + "_stabilizers")
    mixed = False
    for n_app, seed in enumerate(case["seeds"]):
        what = "application %d" % (n_app + 1)
        other = {p: {k: v for k, v in g.nodes[p].items() if k not in ("state", "bit_val", "p_phase_cond")} for p in pts}
        for p in pts:
            g.nodes[p].update(state="stale", bit_val=7, p_phase_cond=-3.0)
        layer.apply_noise(np.random.default_rng(seed))
        idx = m.to_indices
        p_set = {p for p in m.nodes if m.nodes[p]["state"] == "p"}
        if supplied is not None:
            require({idx[p] for p in p_set} == supplied, "%s: the p-squeezed set is not the supplied one", what)
        elif case["p_swap"] in (0, 1):
            require(len(p_set) == case["p_swap"] * len(m), "%s: %d p-squeezed with p_swap=%s", what, len(p_set), case["p_swap"])
        require(set(m.edges) == topo and all(centre(p) == home[p] for p in m.nodes), "%s: the macronode graph changed", what)
        require({frozenset(e[:2]): dict(e[2]) for e in g.edges(data=True)} == edges, "%s: edges of the code changed", what)
        members, has_gkp = {}, {}
        for c, ps in members0.items():
            by = {m.nodes[p]["body_index"]: p for p in ps}
            require(sorted(by) == [1, 2, 3, 4], "%s: macronode %s has body indices %s", what, c, sorted(by))
            members[c] = by
            has_gkp[c] = any(m.nodes[p]["state"] == "GKP" for p in ps)
            require(m.nodes[by[1]]["state"] == ("GKP" if has_gkp[c] else "p"), "%s: the star of %s is not a GKP state", what, c)
            want = "GKP" if has_gkp[c] else "p"
            require(g.nodes[c]["state"] == want, "%s: reduced qubit %s is labelled %s, should be %s", what, c, g.nodes[c]["state"], want)
        mixed |= 0 < len(p_set) < len(m)
        for c in pts:
            d = g.nodes[c]
            require({k: v for k, v in d.items() if k not in ("state", "bit_val", "p_phase_cond")} == other[c], "%s: other attributes of %s changed", what, c)
            b, e = d["bit_val"], float(d["p_phase_cond"])
            require(b in (0, 1) and int(b) == b, "%s: bit value %r of %s", what, b, c)
            require(0 <= e <= 0.5, "%s: error probability %r of %s", what, e, c)
            rb, re = reduce_reference(m, home, members, c, delta)
            require(rb is None or rb == b, "%s: bit value of %s is %r, its macronode outcomes give %r", what, c, b, rb)
            if delta > 0 and re is not None:
                require(abs(e - re) < 1e-6 + 1e-10 / delta, "%s: error probability of %s is %r, its macronode outcomes give %r", what, c, e, re)
        quiet = delta <= 1e-5 or case["perfect"] == "all"
        if quiet:
            if delta <= 1e-5:
                worst = max((float(g.nodes[c]["p_phase_cond"]), c) for c in pts
                            if has_gkp[c] and all(has_gkp[v] for v in g[c])) if any(has_gkp[c] and all(has_gkp[v] for v in g[c]) for c in pts) else (0, None)
                require(worst[0] < 1e-6, "%s: error probability %r at %s without noise", what, worst[0], worst[1])
            good = 0
            for s in stabs:
                qs = s.coords()
                if all(has_gkp[q] and all(has_gkp[v] for v in g[q]) for q in qs):
                    good += 1
                    par = sum(int(g.nodes[q]["bit_val"]) for q in qs) % 2
                    require(par == 0, "%s: stabilizer %s is violated without noise", what, sorted(qs))
            ctx.label("quiet-all" if good == len(stabs) else "quiet-some" if good else "quiet-none")
    ctx.mark(mixed)
    ctx.label("kind-" + case["kind"], "b-" + case["b"], "apps%d" % len(case["seeds"]))


def check_network(case, ctx):
    """A supplied network equal to the four-splitter gives the same reduction as the default."""
    res = []
    for bs in (None, splitter_symp(), np.array(splitter_symp(), dtype=float)):
        code = fp.build(case)
        kw = {} if bs is None else {"bs_network": bs}
        layer = CVMacroLayer(code, delta=case["delta"], p_swap=case["p_swap"], **kw)
        rng = np.random.default_rng(case["seed"])
        layer.apply_noise(rng)
        layer.apply_noise(rng)
        res.append({p: (d["state"], int(d["bit_val"]), round(float(d["p_phase_cond"]), 5)) for p, d in code.graph.nodes(data=True)})
        if bs is not None:
            require(np.allclose(bs, splitter_symp()), "the supplied network was changed")
    same = sum(res[0][p][:2] == res[2][p][:2] and abs(res[0][p][2] - res[2][p][2]) < 1e-3 for p in res[0])
    require(res[0] == res[1], "the four-splitter supplied explicitly gives a different reduction")
    require(same >= 0.9 * len(res[0]), "the four-splitter in double precision gives a different reduction")
    # a different network is really used
    code = fp.build(case)
    layer = CVMacroLayer(code, delta=case["delta"], p_swap=case["p_swap"], bs_network=np.eye(8))
    rng = np.random.default_rng(case["seed"])
    layer.apply_noise(rng)
    layer.apply_noise(rng)
    got = {p: (d["state"], int(d["bit_val"]), round(float(d["p_phase_cond"]), 5)) for p, d in code.graph.nodes(data=True)}
    require(got != res[0], "the supplied network is ignored")
    ctx.mark()


def check_calibration(case, ctx):
    """The error probabilities agree with the number of unsatisfied stabilizers (code states satisfy all of them)."""
    code = fp.build(case, **({"polarity": alternating_polarity} if case["pol"] else {}))
    layer = CVMacroLayer(code, delta=case["delta"], p_swap=case["p_swap"])
    stabs = [s.coords() for s in getattr(code, case["ec"] + "_stabilizers")]
    g, rng = code.graph, np.random.default_rng(case["seed"])
    bins = {"low": [0, 0.0, 0.0], "high": [0, 0.0, 0.0]}
    for _ in range(max(20, 2600 // len(stabs))):
        layer.apply_noise(rng)
        for qs in stabs:
            e = math.prod(1 - 2 * float(g.nodes[q]["p_phase_cond"]) for q in qs)
            for name in ("high" if e < 0.8 else "low",):
                b = bins[name]
                b[0] += int(sum(int(g.nodes[q]["bit_val"]) for q in qs) % 2)
                b[1] += (1 - e) / 2
                b[2] += (1 - e * e) / 4
    for name, (odd, exp, var) in bins.items():
        # errors of one qubit flip two stabilizers, and the sum of probabilities stands in for that of an odd number of errors
        tol = 0.12 * exp + 5 * math.sqrt(1.5 * var) + 4
        require(abs(odd - exp) <= tol, "%d stabilizers with %s odds are unsatisfied, their qubits' error probabilities predict %.1f +- %.1f", odd, name, exp, tol)
    ctx.mark(bins["high"][1] > 30)
    ctx.label("b-" + case["b"])


def check_noise(case, ctx):
    """Without swap-outs every measured mode is at a multiple of sqrt(pi)/2 plus Gaussian noise of variance delta/2."""
    code = fp.build(case, **({"polarity": alternating_polarity} if case["pol"] else {}))
    layer = CVMacroLayer(code, delta=case["delta"])
    m = layer.egraph
    order = sorted(m.macro_to_micro)
    sigma, rows = math.sqrt(case["delta"] / 2), []
    rng = np.random.default_rng(case["seed"])
    for _ in range(max(4, 2400 // len(order))):
        layer.apply_noise(rng)
        one = np.zeros((4, len(order)))
        for k, c in enumerate(order):
            for p in m.macro_to_micro[c]:
                d = m.nodes[p]
                x = float(d["hom_val_p"] if d["body_index"] == 1 else d["hom_val_q"])
                one[d["body_index"] - 1, k] = (x - round(x / (ALPHA / 2)) * ALPHA / 2) / sigma
        rows.append(one)
    a = np.array(rows)  # application, body, macronode
    z = a.transpose(1, 0, 2).reshape(4, -1)
    n = z.shape[1]
    for b in range(4):
        require(abs(z[b].mean()) < 5.5 / math.sqrt(n), "outcomes of the modes with body index %d are off by %.3f sigma on average", b + 1, z[b].mean())
        require(abs((z[b] ** 2).mean() - 1) < 5.5 * math.sqrt(2 / n), "outcomes of the modes with body index %d have %.3f times the variance delta/2", b + 1, (z[b] ** 2).mean())
        for b2 in range(b):
            require(abs((z[b] * z[b2]).mean()) < 5.5 / math.sqrt(n), "the noise of modes %d and %d is correlated", b2 + 1, b + 1)
        lag = a[1:, b] * a[:-1, b]
        require(abs(lag.mean()) < 5.5 / math.sqrt(lag.size), "the noise of consecutive applications is correlated")
        near = a[:, b, 1:] * a[:, b, :-1]
        require(abs(near.mean()) < 5.5 / math.sqrt(near.size), "the noise of different macronodes is correlated")
    ctx.mark()
    ctx.label("b-" + case["b"])


@st.composite
def noise_cases(draw):
    c = draw(gen.code_spec(hi=4, max_volume=27))
    c.update({"seed": draw(gen.seeds()), "pol": draw(st.booleans()), "delta": draw(st.floats(0.0005, 0.011))})
    return c


@st.composite
def cal_cases(draw):
    c = draw(gen.code_spec(hi=4, max_volume=27))
    c.update({"seed": draw(gen.seeds()), "pol": draw(st.booleans()), "p_swap": draw(st.sampled_from([0, 0.05, 0.1])),
              "delta": draw(st.sampled_from([0.06, 0.07, 0.085, 0.1]))})
    return c


@st.composite
def cases(draw):
    c = draw(gen.code_spec(hi=5, max_volume=30, long=16))
    quiet = draw(st.booleans())
    c.update({"seed": draw(gen.seeds()), "pol": draw(st.booleans()), "kind": draw(st.sampled_from(KINDS)),
              "p_swap": draw(st.sampled_from([0.25, 0.1, 0.5, 0.04, 0, 1])), "arr": draw(st.booleans()), "bs": draw(st.integers(0, 3)) == 0,
              "delta": draw(st.sampled_from([0, 1e-6, 1e-5])) if quiet else draw(st.sampled_from([0.01, 0.05, 0.1, 0.3])),
              "perfect": draw(st.sampled_from(["unset", "unset", "unset", "some", "all"])),
              "seeds": draw(st.lists(gen.seeds(), min_size=1, max_size=3, unique=True))})
    return c


@st.composite
def net_cases(draw):
    c = draw(gen.code_spec(hi=3, max_volume=18))
    c.update({"seed": draw(gen.seeds()), "p_swap": draw(st.sampled_from([0.25, 0.1, 0.5])), "delta": draw(st.sampled_from([0.05, 0.1, 0.01]))})
    return c


SUBS = [Sub("reduction", check, cases, quick=600, thorough=15000),
        Sub("network", check_network, net_cases, quick=80, thorough=1500, share=0.3),
        Sub("calibration", check_calibration, cal_cases, quick=24, thorough=400, share=0.5),
        Sub("noise", check_noise, noise_cases, quick=32, thorough=600, share=0.3)]
