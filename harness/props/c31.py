"""C31: homodyne measurements of chosen modes follow the CZ network and touch nothing else."""
import math

import numpy as np
import scipy.stats as ss
from hypothesis import strategies as st

from flamingpy.codes.graphs import EGraph
from flamingpy.codes.surface_code import alternating_polarity
from flamingpy.noise import CVLayer
from harness import fp, gen
from harness.core import Sub, require

PROPERTY = "C31"
RULE = ("histories of state populations and measurements of chosen modes in q or p (subsets in any order, all modes, supplied or sampled means "
        "and variances) on weighted graphs and codes; non-trivial = a proper subset was measured on a graph with edges")
ALPHA = math.sqrt(math.pi)
TINY = 1e-11
TINY_DELTA = 1e-6


def make(case):
    rng = np.random.default_rng(case["seed"])
    perfect = []
    if case["graph"] == "code":
        code = fp.build(case["code"], **({"polarity": alternating_polarity} if case["w"] == "signed" else {}))
        g = code.graph
        if case["w"] in ("int", "big"):
            top = 3 if case["w"] == "int" else 127
            for a, b in g.edges:
                g.edges[a, b]["weight"] = int(rng.integers(-top, top + 1))
        obj = code if case["via_code"] else g
    else:
        n = case["n"]
        pts = set()
        while len(pts) < n:
            pts.add(tuple(int(x) for x in rng.integers(-3, 6, 3)))
        pts = [list(pts)[i] for i in rng.permutation(n)]
        g = EGraph()
        g.add_nodes_from(pts)
        for i in range(n):
            for j in range(i):
                if rng.random() < case["density"]:
                    w = {"one": 1, "signed": int(rng.choice([-1, 1])), "int": int(rng.integers(-3, 4)), "big": int(rng.integers(-127, 128))}[case["w"]]
                    if case["w"] == "one" and rng.random() < 0.5:
                        g.add_edge(pts[i], pts[j])
                    else:
                        g.add_edge(pts[i], pts[j], weight=w)
        obj = g
    order = sorted(g.nodes)
    n = len(order)
    if case["perfect"]:
        perfect = sorted(int(i) for i in rng.choice(n, size=min(n, case["perfect"]), replace=False))
        g.graph["perfect_points"] = [order[i] for i in perfect]
    p_set = sorted(int(i) for i in np.flatnonzero(rng.random(n) < case["p_frac"]))
    pos = {p: i for i, p in enumerate(order)}
    A = np.zeros((n, n))
    for a, b, d in g.edges(data=True):
        A[pos[a], pos[b]] = A[pos[b], pos[a]] = d.get("weight", 1)
    return obj, g, order, A, np.array(p_set, dtype=int), perfect


def layer_of(case, obj, p_set, delta):
    kw = {"states": {"p": list(p_set) if case["as_list"] else p_set}} if len(p_set) or case["as_list"] else {}
    if case["order"] != "default":
        kw["sampling_order"] = case["order"]
    return CVLayer(obj, delta=delta, **kw)


def some_inds(op, n, rng):
    kind = op["inds"]
    if kind == "none":
        return None, list(range(n))
    k = {"one": 1, "empty": 0, "all": n}.get(kind, int(rng.integers(0, n + 1)))
    inds = [int(i) for i in rng.choice(n, size=k, replace=False)]
    if kind == "range":
        a = int(rng.integers(0, n))
        r = range(a, n, int(rng.integers(1, 3)))
        return r, list(r)
    if kind == "array":
        return np.array(inds, dtype=int), inds
    return inds, inds


def frozen(g):
    return {p: {k: v for k, v in d.items() if k not in ("hom_val_p", "hom_val_q", "state")} for p, d in g.nodes(data=True)}, {frozenset(e[:2]): dict(e[2]) for e in g.edges(data=True)}


def check(case, ctx):
    obj, g, order, A, p_set, perfect = make(case)
    n = len(order)
    rng = np.random.default_rng(case["seed"] + 1)
    delta = case["delta"]
    layer = layer_of(case, obj, p_set, delta)
    two = case["order"] == "two-step"
    for i, p in enumerate(order):
        if rng.random() < 0.6:
            g.nodes[p]["bit_val"] = int(rng.integers(0, 2))
    S = np.block([[np.eye(n), np.zeros((n, n))], [A, np.eye(n)]])
    require(np.array_equal(layer.SCZ().toarray(), S), "SCZ() is not the CZ network of the graph")
    require(np.array_equal(layer.SCZ(sparse=False), S), "SCZ(sparse=False) is not the CZ network of the graph")
    is_p = np.zeros(n, dtype=bool)
    is_p[p_set] = True
    is_perf = np.zeros(n, dtype=bool)
    is_perf[perfect] = True
    keep = frozen(g)
    model = {"p": [None] * n, "q": [None] * n}
    layer.populate_states(rng)
    populated = True
    for k, op in enumerate(case["ops"]):
        what = "step %d %s" % (k, op)
        if op["op"] == "populate":
            layer.populate_states(rng)
        elif op["op"] == "bits":
            for p in order:
                if rng.random() < 0.5:
                    g.nodes[p]["bit_val"] = int(rng.integers(0, 2))
            keep = frozen(g)
        else:
            quad = op["quad"]
            arg, inds = some_inds(op, n, rng)
            kw = {}
            if arg is not None or op["explicit"]:
                kw["inds"] = arg
            means = covs = None
            if two and op["means"]:
                means = rng.normal(size=2 * n) * 3
                kw["updated_means"] = means.copy()
            if two and op["covs"]:
                covs = np.abs(rng.normal(size=2 * n)) * (1e-7 if op["covs"] == "tiny" else 1)
                if op["covs"] == "zero":
                    covs[:] = 0
                elif op["covs"] in "qp":  # noise in one quadrature only
                    covs[n:] *= op["covs"] == "p"
                    covs[:n] *= op["covs"] == "q"
                kw["updated_covs"] = covs.copy()
            if two and not op["propagate"]:
                kw["propagate"] = False
            if quad == "q" or op["explicit"]:
                kw["quad"] = quad
            layer.measure_hom(rng=rng, **kw)
            if means is not None:
                require(np.array_equal(kw["updated_means"], means), "%s: the supplied means were changed", what)
            if covs is not None:
                require(np.array_equal(kw["updated_covs"], covs), "%s: the supplied variances were changed", what)
            got = [g.nodes[p].get("hom_val_" + quad) for p in order]
            for i in inds:
                require(got[i] is not None and math.isfinite(got[i]), "%s: mode %d has outcome %r", what, i, got[i])
            sub = set(inds)
            for i in range(n):
                if i not in sub:
                    require(got[i] == model[quad][i], "%s: mode %d was not measured, its outcome changed from %r to %r", what, i, model[quad][i], got[i])
            model[quad] = got
            vals = np.array([got[i] for i in inds], dtype=float)
            if inds:
                judge(case, what, vals, np.array(inds), quad, A, is_p, is_perf, delta, two, means, covs, op)
            ctx.mark(0 < len(inds) < n and A.any())
        for quad in "pq":
            require([g.nodes[p].get("hom_val_" + quad) for p in order] == model[quad], "%s: outcomes of the other quadrature changed", what)
        arg, inds = some_inds(op, n, rng)
        for quad in "pq":
            require(list(layer.hom_outcomes(arg, quad)) == [model[quad][i] for i in inds], "%s: hom_outcomes(%r, %r) differs from the graph", what, arg, quad)
        require(list(layer.hom_outcomes()) == model["p"], "%s: hom_outcomes() differs from the graph", what)
        require(list(layer.bit_values(arg)) == [g.nodes[order[i]].get("bit_val") for i in inds], "%s: bit_values differs from the graph", what)
        require(frozen(g) == keep, "%s: other attributes of the graph changed", what)
        require(sorted(int(i) for i in layer.p_inds) == sorted(p_set) and sorted(int(i) for i in layer.gkp_inds) == sorted(set(range(n)) - set(p_set)), "%s: the states changed", what)
        for i, p in enumerate(order):
            require(g.nodes[p]["state"] == ("p" if is_p[i] else "GKP"), "%s: label of mode %d", what, i)
    ctx.label("order-" + case["order"], case["graph"], "ops%d" % len(case["ops"]))


def judge(case, what, vals, inds, quad, A, is_p, is_perf, delta, two, means, covs, op):
    """Relations that hold whatever was drawn, up to the (tiny) noise."""
    n = len(A)
    sd = math.sqrt(delta / 2)
    if two:
        noise = np.full(len(inds), 9 * sd) if covs is None else 9 * (covs[:n] if quad == "q" else covs[n:])[inds]
        if covs is None:
            noise[is_perf[inds]] = 0
        noise = noise + 1e-4
        if means is not None:
            want = (means[:n] if quad == "q" else means[n:])[inds]
            require(np.all(np.abs(vals - want) <= noise), "%s: outcomes %s, the supplied means are %s", what, vals, want)
            return
        if quad == "q":
            for v, i, s in zip(vals, inds, noise):
                if is_p[i]:
                    require(-s <= v <= 2 * ALPHA + s, "%s: p-squeezed mode %d is at %r, outside one period", what, i, v)
                else:
                    require(min(abs(v), abs(v - ALPHA)) <= s, "%s: GKP mode %d is at %r, neither 0 nor sqrt(pi)", what, i, v)
            return
        if not op["propagate"]:
            require(np.all(np.abs(vals) <= noise), "%s: p outcomes %s without propagation", what, vals)
            return
        for v, i, s in zip(vals, inds, noise):
            row = A[i]
            hi = ALPHA * np.sum(np.maximum(row, 0) * np.where(is_p, 2, 1))
            lo = ALPHA * np.sum(np.minimum(row, 0) * np.where(is_p, 2, 1))
            require(lo - s <= v <= hi + s, "%s: p outcome %r of mode %d outside [%r, %r]", what, v, i, lo, hi)
            if not np.any(row[is_p]) and np.all(row == np.round(row)) and s < 0.3:
                require(abs(v / ALPHA - round(v / ALPHA)) * ALPHA <= s, "%s: p outcome %r of mode %d with GKP neighbours only is not a multiple of sqrt(pi)", what, v, i)
        return
    # initial order: x ~ N(0, V), outcome q or p + A q
    vq = np.where(is_p, 1 / (2 * delta), delta / 2)
    vp = np.full(n, delta / 2)
    vq[is_perf] = vp[is_perf] = 0
    var = vq if quad == "q" else vp + (A * A) @ vq
    bound = 9 * np.sqrt(var[inds]) + 1e-4 * math.sqrt(max(1.0, vq.max()) if len(vq) else 1.0) * 1e-2 + 1e-9
    bad = np.abs(vals) > bound
    require(not bad.any(), "%s: outcomes %s exceed nine standard deviations %s", what, vals[bad], bound[bad])
    if delta <= TINY_DELTA and quad == "p":
        # All large contributions come from the p-squeezed modes: combinations that cancel them are small.
        M = A[inds][:, is_p & ~is_perf]
        s = np.linalg.svd(M, compute_uv=True, full_matrices=True) if M.size else None
        null = np.eye(len(inds)) if s is None else s[0][:, int(np.sum(s[1] > 1e-9 * max(1.0, s[1].max() if len(s[1]) else 1.0))):]
        res = null.T @ vals
        lim = 9 * math.sqrt(delta / 2) * (1 + np.abs(A).sum()) + 1e-5 * (np.abs(vals).max() if len(vals) else 0)
        require(np.all(np.abs(res) <= lim), "%s: p outcomes are not a combination of the positions of the neighbouring p-squeezed modes (residue %r, limit %r)", what, np.abs(res).max() if len(res) else 0, lim)


def check_stats(case, ctx):
    """Repeated measurements have the documented joint distribution."""
    obj, g, order, A, p_set, perfect = make(case)
    n = len(order)
    rng = np.random.default_rng(case["seed"] + 2)
    delta = case["delta"]
    layer = layer_of(case, obj, p_set, delta)
    two = case["order"] == "two-step"
    layer.populate_states(rng)
    is_p = np.zeros(n, dtype=bool)
    is_p[p_set] = True
    arg, inds = some_inds(case["op"], n, rng)
    if not inds:
        return
    quad = case["op"]["quad"]
    T = case["T"]
    X = np.empty((T, len(inds)))
    means = rng.normal(size=2 * n) * 3 if two else None
    sds = np.abs(rng.normal(size=2 * n)) + 0.05 if two and case["op"]["covs"] else None
    for t in range(T):
        kw = {"inds": arg, "quad": quad, "rng": rng}
        if two:
            kw["updated_means"] = means
            if sds is not None:
                kw["updated_covs"] = sds
        layer.measure_hom(**kw)
        X[t] = layer.hom_outcomes(inds, quad)
    if two:
        half = slice(0, n) if quad == "q" else slice(n, 2 * n)
        X -= means[half][inds]
        sd = sds[half][inds] if sds is not None else np.where(np.isin(inds, perfect), 0, math.sqrt(delta / 2))
        C = np.diag(sd ** 2)
    else:
        vq = np.where(is_p, 1 / (2 * delta), delta / 2)
        vp = np.full(n, delta / 2)
        vq[perfect] = vp[perfect] = 0
        C = (np.diag(vq) if quad == "q" else np.diag(vp) + A @ np.diag(vq) @ A.T)[np.ix_(inds, inds)]
    d = np.random.default_rng(case["seed"] + 3)
    # Every mode alone, the mean, pairs and random combinations: u.x ~ N(0, u C u).
    us = list(np.eye(len(inds))) + [d.normal(size=len(inds)) for _ in range(4)]
    m = len(inds)
    pairs = [(a, b) for a in range(m) for b in range(a)] if m <= 12 else list(zip(d.permutation(m), d.permutation(m))) + [(a, a + 1) for a in range(m - 1)]
    for a, b in pairs:
        if a != b:
            u = np.zeros(len(inds))
            u[a], u[b] = 1, d.choice([-1, 1])
            us.append(u)
    for u in us:
        v = float(u @ C @ u)
        y = X @ u
        if v < 1e-14:
            require(np.all(np.abs(y) < 1e-5), "noiseless combination %s of outcomes reaches %r", u, np.abs(y).max())
            continue
        chi = float(np.sum(y * y) / v)
        require(ss.chi2.sf(chi, T) > TINY and ss.chi2.cdf(chi, T) > TINY, "%s outcomes of %s: the combination %s has variance %.4g instead of %.4g over %d samples", quad, list(inds), u.round(3), np.mean(y * y), v, T)
        z = float(np.sum(y) / math.sqrt(T * v))
        require(abs(z) < 7, "%s outcomes of %s: the combination %s has mean %.4g over %d samples (%.1f sigma)", quad, list(inds), u.round(3), np.mean(y), T, z)
    ctx.mark(A.any())
    ctx.label("order-" + case["order"], quad, case["w"])


@st.composite
def op_case(draw):
    kind = draw(st.sampled_from(["measure"] * 6 + ["populate", "bits"]))
    return {"op": kind, "quad": draw(st.sampled_from("ppq")), "inds": draw(st.sampled_from(["none", "list", "list", "array", "array", "range", "one", "empty", "all"])),
            "explicit": draw(st.booleans()), "means": draw(st.booleans()), "covs": draw(st.sampled_from(["", "zero", "tiny", "p", "q"])), "propagate": draw(st.integers(0, 3)) > 0}


@st.composite
def base(draw, small=False):
    c = {"graph": "random" if small else draw(st.sampled_from(["random", "random", "random", "code"])), "n": draw(st.integers(1, 6 if small and draw(st.integers(0, 3)) else 12 if draw(st.integers(0, 3)) else 30)), "density": draw(st.sampled_from([0.0, 0.2, 0.5, 0.8, 1.0])),
         "w": draw(st.sampled_from(["one", "signed", "int", "big"])), "perfect": draw(st.sampled_from([0, 0, 1, 2])), "p_frac": draw(st.sampled_from([0, 0.2, 0.5, 0.8, 1])),
         "as_list": draw(st.booleans()), "order": draw(st.sampled_from(["default", "initial", "two-step", "two-step"])), "seed": draw(gen.seeds())}
    if c["graph"] == "code":
        c["code"] = draw(gen.code_spec(hi=3, max_volume=12, periodic_lo=2))
        c["via_code"] = draw(st.booleans())
    return c


@st.composite
def histories(draw):
    c = draw(base())
    c["delta"] = draw(st.sampled_from([1e-6, 1e-6, 1e-8, 0.01, 0.1, 0.5]))
    c["ops"] = draw(st.lists(op_case(), min_size=1, max_size=6))
    return c


@st.composite
def stats_cases(draw):
    c = draw(base(small=True))
    c.update({"delta": draw(st.sampled_from([0.02, 0.1, 0.5, 1.0, 1e-4])), "op": draw(op_case()), "T": draw(st.sampled_from([100, 200, 400]))})
    return c


SUBS = [Sub("histories", check, histories, quick=8000, thorough=100000), Sub("distribution", check_stats, stats_cases, quick=1200, thorough=12000)]
