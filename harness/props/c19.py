"""C19: the CV noise layer samples the documented states and noise every time."""
from harness import lemon

lemon.install()

import copy
import math

import numpy as np
import scipy.stats as ss
from hypothesis import strategies as st

from flamingpy.codes.graphs import EGraph
from flamingpy.codes.surface_code import alternating_polarity
from flamingpy.cv.gkp import GKP_binner
from flamingpy.noise import CVLayer
from harness import fp, gen
from harness.core import Sub, require

PROPERTY = "C19"
RULE = ("sequences of 1 to 4 noise applications on one layer with changing generators, over codes, polarities, deltas, supplied or drawn "
        "p-squeezed sets, perfect qubits and both sampling orders; states are checked exactly, outcomes exactly against an unentangled twin "
        "with the same seed (outcome = p + A q) and in distribution (Kolmogorov-Smirnov, moments and correlations at p < 1e-9); non-trivial = "
        "two or more applications, or both kinds of state present")
ALPHA = math.sqrt(math.pi)
TINY = 1e-9


def adjacency(graph, order):
    pos = {p: i for i, p in enumerate(order)}
    A = np.zeros((len(order), len(order)))
    for a, b, d in graph.edges(data=True):
        A[pos[a], pos[b]] = A[pos[b], pos[a]] = d.get("weight", 1)
    return A


def make_code(case, edges=True):
    polarity = (alternating_polarity, fp.cz_weights)[case["seed"] % 5 == 2]  # signs, or gates of other strengths
    code = fp.build(case, **({"polarity": polarity} if case["pol"] else {}))
    rng = np.random.default_rng(case["seed"] + 5)
    pts = sorted(code.graph.nodes)
    perfect = None
    if case["perfect"] != "unset":
        k = {"none": 0, "one": 1, "some": len(pts) // 3, "all": len(pts)}[case["perfect"]]
        perfect = [pts[int(i)] for i in rng.choice(len(pts), size=k, replace=False)]
    if not edges:
        g = EGraph()
        g.add_nodes_from(code.graph.nodes(data=True))
        g.graph.update(code.graph.graph)
        code = copy.copy(code)
        code.graph = g
    if perfect is not None:
        code.graph.graph["perfect_points"] = perfect
    return code, pts, set(perfect or ())


def state_args(case, n):
    rng = np.random.default_rng(case["seed"] + 7)
    kind = case["states"]
    if kind == "swap":
        return {"p_swap": case["p_swap"]}, None
    if kind in ("list", "array", "all", "none"):
        k = {"all": n, "none": 0}.get(kind, int(rng.integers(0, n + 1)))
        ps = [int(i) for i in rng.choice(n, size=k, replace=False)]
        return {"states": {"p": ps if kind == "list" else np.array(ps, dtype=int)}}, set(ps)
    return {}, set()


def layer_for(code, case, n, delta=None, **extra):
    kw, supplied = state_args(case, n)
    if case["order"] != "default":
        kw["sampling_order"] = case["order"]
    kw.update(extra)
    return CVLayer(code, delta=case["delta"] if delta is None else delta, **kw), supplied, kw.get("states")


def check_states(layer, graph, pts, supplied, case, what):
    p = [int(i) for i in layer.p_inds]
    g = [int(i) for i in layer.gkp_inds]
    n = len(pts)
    require(len(p) == len(set(p)) and len(g) == len(set(g)), "%s: an index is listed twice", what)
    require(set(p) | set(g) == set(range(n)) and not set(p) & set(g), "%s: p-squeezed and GKP indices do not partition the %d qubits (%d and %d)", what, n, len(p), len(g))
    if supplied is not None:
        require(set(p) == supplied, "%s: p-squeezed set differs from the supplied one", what)
    elif case["p_swap"] in (0, 1):
        require(len(p) == n * case["p_swap"], "%s: %d p-squeezed states with p_swap=%s", what, len(p), case["p_swap"])
    for i, pt in enumerate(pts):
        want = "p" if i in set(p) else "GKP"
        require(graph.nodes[pt].get("state") == want, "%s: qubit %s is labelled %s, should be %s", what, pt, graph.nodes[pt].get("state"), want)
    return np.array(sorted(p), dtype=int)


def translator_of(case):
    if case["translator"] == "custom":
        return {"translator": lambda outs: np.array([int(math.floor(x / 0.7)) % 2 for x in outs])}, lambda x: int(math.floor(x / 0.7)) % 2
    return {}, lambda x: int(GKP_binner([x])[0])


def check(case, ctx):
    """Exact structure of every application, and exact entanglement against an unentangled twin."""
    code, pts, perfect = make_code(case)
    n = len(pts)
    graph = code.graph
    A = adjacency(graph, pts)
    extra, translate = translator_of(case)
    layer, supplied, given = layer_for(code, case, n, **extra)
    keep_given = None if given is None else {k: list(v) for k, v in given.items()}
    twin_code, _, _ = make_code(case, edges=False)
    two = case["order"] == "two-step"
    twin, _, _ = layer_for(twin_code, case, n)
    still, _, _ = layer_for(code if not two else make_code(case)[0], case, n, delta=0.0 if two else None)
    syn = [pts.index(q) for q in code.all_syndrome_coords]
    syn_pts = set(code.all_syndrome_coords)
    rest = [p for p in pts if p not in syn_pts]
    perf = np.array([pts.index(p) for p in sorted(perfect)], dtype=int)
    for i, (kind, seed) in enumerate(case["prior"]):  # the same code under other layers before
        other, _, _ = layer_for(code, dict(case, states=kind, seed=seed, delta=0.3, order="default"), n)
        other.apply_noise(np.random.default_rng(seed))
    zs = {"p": [], "GKP": [], "pq": [], "noise": []}
    drawn = []
    mixed = False
    for k, seed in enumerate(case["seeds"]):
        what = "application %d" % (k + 1)
        for p in rest:
            graph.nodes[p]["hom_val_p"] = -77.5 - k
            graph.nodes[p]["bit_val"] = 9
        for p in pts:
            graph.nodes[p].pop("hom_val_q", None)
        attrs = {p: {a: v for a, v in graph.nodes[p].items() if a not in ("hom_val_p", "bit_val", "state")} for p in pts}
        layer.apply_noise(np.random.default_rng(seed))
        pi = check_states(layer, graph, pts, supplied, case, what)
        drawn.append(tuple(pi))
        mixed |= 0 < len(pi) < n
        is_p = np.zeros(n, dtype=bool)
        is_p[pi] = True
        out = np.array([graph.nodes[pts[i]]["hom_val_p"] for i in syn], dtype=float)
        for p in rest:
            require(graph.nodes[p]["hom_val_p"] == -77.5 - k and graph.nodes[p]["bit_val"] == 9, "%s: unmeasured qubit %s was changed", what, p)
        for p in pts:
            require({a: v for a, v in graph.nodes[p].items() if a not in ("hom_val_p", "bit_val", "state")} == attrs[p], "%s: other attributes of %s changed", what, p)
        for i in syn:
            d = graph.nodes[pts[i]]
            require(int(d["bit_val"]) == translate(d["hom_val_p"]), "%s: bit %r for outcome %r", what, d["bit_val"], d["hom_val_p"])
        require([float(x) for x in layer.hom_outcomes(inds=syn)] == list(out), "%s: hom_outcomes differs from the graph", what)
        require(layer.bit_values(inds=syn) == [graph.nodes[pts[i]]["bit_val"] for i in syn], "%s: bit_values differs from the graph", what)
        require(len(layer.hom_outcomes()) == n and layer.hom_outcomes(quad="q") == [None] * n, "%s: q outcomes appeared", what)
        # ---- distribution and entanglement
        if not two:
            rng = np.random.default_rng(seed)
            twin.populate_states(rng)
            require(sorted(int(i) for i in twin.p_inds) == list(pi), "%s: same seed, different states", what)
            saved = copy.deepcopy(rng.bit_generator.state)
            twin.measure_hom("p", rng=rng)
            xp = np.array(twin.hom_outcomes(quad="p"), dtype=float)
            rng.bit_generator.state = saved
            twin.measure_hom("q", rng=rng)
            xq = np.array(twin.hom_outcomes(quad="q"), dtype=float)
            want = (xp + A @ xq)[syn]
            require(np.allclose(out, want, rtol=1e-5, atol=1e-5), "%s: outcomes are not p + A q of the same sample", what)
            require(np.all(xp[perf] == 0) and np.all(xq[perf] == 0), "%s: a perfect qubit is noisy", what)
            noisy = np.ones(n, dtype=bool)
            noisy[perf] = False
            d = case["delta"]
            zs["p"] += list(xp[noisy] / math.sqrt(d / 2))
            zs["GKP"] += list(xq[noisy & ~is_p] / math.sqrt(d / 2))
            zs["pq"] += list(xq[noisy & is_p] * math.sqrt(2 * d))
        else:
            rng = np.random.default_rng(seed)
            still.populate_states(rng)
            require(sorted(int(i) for i in still.p_inds) == list(pi), "%s: same seed, different states", what)
            saved = copy.deepcopy(rng.bit_generator.state)
            still.measure_hom("q", rng=rng)
            m = np.array(still.hom_outcomes(quad="q"), dtype=float)
            rng.bit_generator.state = saved
            still.measure_hom("p", inds=syn, rng=rng)
            mean = np.array(still.hom_outcomes(inds=syn, quad="p"), dtype=float)
            require(np.allclose(mean, (A @ m)[syn], rtol=1e-5, atol=1e-5), "%s: noiseless outcomes are not A q", what)
            g = m[~is_p] / ALPHA
            require(np.all((np.abs(g) < 1e-5) | (np.abs(g - 1) < 1e-5)), "%s: a GKP position is neither 0 nor sqrt(pi)", what)
            require(np.all((m[is_p] >= 0) & (m[is_p] <= 2 * ALPHA + 1e-5)), "%s: a p-squeezed position is outside [0, 2 sqrt(pi))", what)
            noise = out - mean
            pf = np.isin(syn, perf)
            require(np.all(np.abs(noise[pf]) < 1e-5), "%s: a perfect qubit is noisy", what)
            zs["noise"] += list(noise[~pf] / math.sqrt(case["delta"] / 2))
            zs["GKP"] += list(g)
            zs["pq"] += list(m[is_p] / (2 * ALPHA))
    if given is not None:
        require({k: list(v) for k, v in given.items()} == keep_given, "the supplied states were changed")
    judge(zs, two)
    if len(case["seeds"]) > 1 and supplied is None and 0.2 <= case["p_swap"] <= 0.8 and n > 100:
        require(len(set(drawn)) > 1, "the same p-squeezed set was drawn in every application")
    ctx.mark(len(case["seeds"]) > 1 or mixed)
    ctx.label("order-" + case["order"], "states-" + case["states"], "apps%d" % len(case["seeds"]), "perfect-" + case["perfect"])


def normal(z, what):
    z = np.asarray(z, dtype=float)
    if len(z) < 30:
        if len(z):
            chi = float(np.sum(z * z))
            require(ss.chi2.sf(chi, len(z)) > TINY and ss.chi2.cdf(chi, len(z)) > TINY, "%s: sum of squares %.3f for %d samples", what, chi, len(z))
        return
    p = ss.kstest(z, "norm").pvalue
    require(p > TINY, "%s: not a centred Gaussian of the documented variance (n=%d, mean %.3f, variance ratio %.3f, p=%.1e)", what, len(z), z.mean(), z.var(), p)
    chi = float(np.sum(z * z))
    require(min(ss.chi2.sf(chi, len(z)), ss.chi2.cdf(chi, len(z))) > TINY, "%s: variance is %.3f of the documented one (n=%d)", what, chi / len(z), len(z))
    require(abs(z.mean()) * math.sqrt(len(z)) < 6.2, "%s: mean", what)
    r = float(np.sum(z[1:] * z[:-1])) / math.sqrt(len(z) - 1)
    require(abs(r) < 7, "%s: consecutive samples are correlated", what)


def judge(zs, two):
    if not two:
        normal(zs["p"], "momentum quadratures")
        normal(zs["GKP"], "position quadratures of GKP states")
        normal(zs["pq"], "position quadratures of p-squeezed states")
    else:
        normal(zs["noise"], "measurement noise")
        g = np.rint(zs["GKP"])
        if len(g):
            require(ss.binomtest(int(g.sum()), len(g)).pvalue > TINY, "GKP positions: %d of %d are sqrt(pi)", int(g.sum()), len(g))
        if len(zs["pq"]) > 20:
            require(ss.kstest(zs["pq"], "uniform").pvalue > TINY, "positions of p-squeezed states are not uniform")


@st.composite
def cases(draw):
    c = draw(gen.code_spec(hi=6, max_volume=60, long=30))
    c.update({"seed": draw(gen.seeds()), "pol": draw(st.booleans()), "delta": draw(st.sampled_from([0.1, 0.01, 0.5, 1.0, 0.001, 2.0])),
              "states": draw(st.sampled_from(["default", "swap", "swap", "swap", "list", "array", "all", "none"])),
              "p_swap": draw(st.sampled_from([0.5, 0.1, 0.25, 0.9, 0, 1, 0.02])), "order": draw(st.sampled_from(["default", "initial", "two-step", "two-step"])),
              "perfect": draw(st.sampled_from(["unset", "unset", "none", "one", "some", "all"])),
              "translator": draw(st.sampled_from(["default", "default", "custom"])),
              "prior": draw(st.one_of(st.just([]), st.lists(st.tuples(st.sampled_from(["default", "swap", "list", "all", "none"]), gen.seeds()), max_size=2))),
              "seeds": draw(st.lists(gen.seeds(), min_size=1, max_size=4, unique=True))})
    return c


def check_swap(case, ctx):
    """Swap-out statistics over many applications: count, per-site uniformity, pairwise independence."""
    n, K, q = case["n"], case["K"], case["p_swap"]
    g = EGraph()
    pts = [(i, 0, 0) for i in range(n)]
    g.add_nodes_from(pts)
    layer = CVLayer(g, delta=0.1, p_swap=q)
    rng = np.random.default_rng(case["seed"])
    S = np.zeros((K, n))
    for k in range(K):
        layer.populate_states(rng)
        check_states(layer, g, pts, None, {"p_swap": q}, "draw %d" % k)
        S[k, np.asarray(layer.p_inds, dtype=int)] = 1
    tot = int(S.sum())
    require(ss.binomtest(tot, n * K, q).pvalue > TINY, "%d of %d sites p-squeezed with p_swap=%s", tot, n * K, q)
    for i in range(n):
        require(ss.binomtest(int(S[:, i].sum()), K, q).pvalue > 1e-10, "site %d is p-squeezed %d times in %d with p_swap=%s", i, int(S[:, i].sum()), K, q)
    cnt = S.sum(axis=1)
    var = n * q * (1 - q)
    chi = float(((cnt - n * q) ** 2).sum() / var)
    kurt = (1 + (1 - 6 * q * (1 - q)) / var - 1 + 2)
    dev = (chi - K) / math.sqrt(K * max(kurt, 0.5))
    require(abs(dev) < 9, "the number of p-squeezed states has variance ratio %.3f", chi / K)
    z = (S - q) / math.sqrt(q * (1 - q))
    lag = float((z[1:] * z[:-1]).sum()) / math.sqrt((K - 1) * n)
    require(abs(lag) < 7, "successive draws are correlated")
    both = S.T @ S
    for shift in range(1, n):
        pair, of = int(np.trace(both, shift)), K * (n - shift)
        require(abs(pair - of * q * q) < 9 * math.sqrt(of) * q or ss.binomtest(pair, of, q * q).pvalue > 1e-20,
                "sites %d apart are p-squeezed together %d times in %d with p_swap=%s", shift, pair, of, q)
    for i in range(n):
        for j in range(i):
            if abs(both[i, j] - K * q * q) > 5 * math.sqrt(K) * q:
                require(ss.binomtest(int(both[i, j]), K, q * q).pvalue > 1e-12, "sites %d and %d are p-squeezed together %d times in %d with p_swap=%s", j, i, int(both[i, j]), K, q)
    ctx.mark()


def check_cov(case, ctx):
    """Joint distribution of the outcomes of one small graph over many applications (whitened)."""
    code, pts, perfect = make_code(case)
    n = len(pts)
    A = adjacency(code.graph, pts)
    layer, supplied, _ = layer_for(code, case, n)
    rng = np.random.default_rng(case["seed"])
    syn = [pts.index(q) for q in code.all_syndrome_coords]
    rows = []
    for k in range(case["K"]):
        layer.apply_noise(rng)
        pi = np.asarray(layer.p_inds, dtype=int)
        d = case["delta"]
        vq = np.full(n, d / 2)
        vq[pi] = 1 / (2 * d)
        vp = np.full(n, d / 2)
        for q in perfect:
            vq[pts.index(q)] = vp[pts.index(q)] = 0
        C = (np.diag(vp) + A @ np.diag(vq) @ A.T)[np.ix_(syn, syn)]
        x = np.array([code.graph.nodes[pts[i]]["hom_val_p"] for i in syn], dtype=float)
        L = np.linalg.cholesky(C)
        rows.append(np.linalg.solve(L, x))
    Z = np.array(rows)
    normal(Z.ravel(), "whitened outcomes")
    lag = float((Z[1:] * Z[:-1]).sum()) / math.sqrt(Z[1:].size)
    require(abs(lag) < 7, "successive applications are correlated")
    for i in range(Z.shape[1]):
        chi = float((Z[:, i] ** 2).sum())
        require(min(ss.chi2.sf(chi, len(Z)), ss.chi2.cdf(chi, len(Z))) > 1e-10, "outcome %d has variance ratio %.3f", i, chi / len(Z))
    ctx.mark()


@st.composite
def cov_cases(draw):
    c = draw(gen.code_spec(hi=3, max_volume=12))
    c.update({"seed": draw(gen.seeds()), "pol": draw(st.booleans()), "delta": draw(st.sampled_from([0.1, 0.5, 1.0, 0.02])),
              "states": draw(st.sampled_from(["default", "swap", "list", "all"])), "p_swap": draw(st.sampled_from([0.5, 0.1, 0.25])),
              "order": draw(st.sampled_from(["default", "initial"])), "perfect": "unset", "K": 40})
    return c


def check_both(case, ctx):
    """Supplying both a swap-out probability and p-squeezed indices is rejected."""
    code = fp.build(case)
    try:
        CVLayer(code, delta=0.1, p_swap=case["p_swap"], states={"p": [0, 3]})
    except Exception:
        ctx.mark()
        return
    require(False, "both p_swap and states accepted")


@st.composite
def both_cases(draw):
    c = draw(gen.code_spec(hi=3, max_volume=12))
    c.update({"p_swap": draw(st.sampled_from([0, 0.5, 1, 0.01]))})
    return c


SUBS = [
    Sub("applications", check, cases, quick=900, thorough=25000),
    Sub("covariance", check_cov, cov_cases, quick=150, thorough=4000, share=0.6),
    Sub("swap_out", check_swap, lambda: st.fixed_dictionaries({"n": st.integers(5, 40), "K": st.just(120), "seed": gen.seeds(),
                                                              "p_swap": st.sampled_from([0.5, 0.1, 0.25, 0.9, 0.03])}), quick=150, thorough=5000, share=0.4),
    Sub("swap_out_small", check_swap, lambda: st.fixed_dictionaries({"n": st.integers(1, 8), "K": st.just(800), "seed": gen.seeds(),
                                                                    "p_swap": st.sampled_from([0.5, 0.05, 0.1, 0.2, 0.8, 0.95])}), quick=120, thorough=4000, share=0.4),
    Sub("conflict", check_both, both_cases, quick=40, thorough=400, share=0.1),
]
