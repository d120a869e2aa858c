"""C21: IID noise flips each qubit independently with the given probability."""
from harness import lemon

lemon.install()

import math

import numpy as np
import scipy.stats as ss
from hypothesis import strategies as st

from flamingpy.codes.surface_code import alternating_polarity
from flamingpy.noise import IidNoise
from harness import fp, gen
from harness.core import Sub, require

PROPERTY = "C21"
RULE = ("codes, probabilities over [0,1] and sequences of applications with seeded generators; exact checks per application and binomial, "
        "per-qubit, pairwise and lag correlation tests at p < 1e-9 over repeated applications; non-trivial = probability strictly "
        "between 0 and 1")
TINY = 1e-9


def snapshot(code):
    g = code.graph
    return ({n: {k: v for k, v in d.items() if k != "bit_val"} for n, d in g.nodes(data=True)},
            {frozenset(e[:2]): dict(e[2]) for e in g.edges(data=True)}, {k: repr(v) for k, v in g.graph.items()})


def edit(g):
    nodes = sorted(g.nodes)
    g.add_qubit((1001, 0, 0), [nodes[0], nodes[-1]])
    g.remove_qubit(nodes[1])
    g.add_qubit((1003, 1, 0))


def check(case, ctx):
    code = fp.build(case, **({"polarity": alternating_polarity} if case["pol"] else {}))
    g = code.graph
    nodes = sorted(g.nodes)
    rng0 = np.random.default_rng(case["seed"])
    for n in nodes:
        if case["stale"]:
            g.nodes[n]["bit_val"] = int(rng0.integers(0, 2))
        if rng0.random() < 0.5:
            g.nodes[n].update(state="p", hom_val_p=1.5, weight=3)
    p = case["p"]
    noise = IidNoise(code, p) if case["posit"] else IidNoise(code, error_probability=p)
    if case.get("edit"):
        # the qubits of the code are those it has when the noise is applied
        edit(g)
        nodes = sorted(g.nodes)
    before = snapshot(code)
    rng = np.random.default_rng(case["seed"])
    rows = []
    for k in range(case["K"] or 1 + case["bits"] // len(nodes)):
        if case["stale"]:
            for n in nodes:
                g.nodes[n]["bit_val"] = 1 if k % 2 else 0
        noise.apply_noise(rng)
        row = [g.nodes[n].get("bit_val", "missing") for n in nodes]
        require(all(isinstance(b, (int, np.integer)) and b in (0, 1) for b in row), "a bit value is not 0 or 1: %s", set(map(repr, row)))
        rows.append(row)
    require(snapshot(code) == before, "another attribute changed")
    B = np.array(rows, dtype=float)
    if p == 0:
        require(not B.any(), "probability 0 flipped a qubit")
    elif p == 1:
        require(B.all(), "probability 1 left a qubit unflipped")
    else:
        n, K = B.shape[1], B.shape[0]
        tot = int(B.sum())
        require(ss.binomtest(tot, B.size, p).pvalue > TINY, "%d of %d bits flipped with probability %s", tot, B.size, p)
        cols = B.sum(axis=0)
        for i in (int(cols.argmax()), int(cols.argmin())):
            require(ss.binomtest(int(cols[i]), K, p).pvalue > 1e-12, "qubit %s flipped %d times in %d", nodes[i], int(cols[i]), K)
        rs = B.sum(axis=1)
        for i in (int(rs.argmax()), int(rs.argmin())):
            require(ss.binomtest(int(rs[i]), n, p).pvalue > 1e-12, "application %d flipped %d qubits of %d", i, int(rs[i]), n)
        z = (B - p) / math.sqrt(p * (1 - p))
        if p * (1 - p) * B.size > 60:
            for what, a, b in (("consecutive qubits", z[:, 1:], z[:, :-1]), ("consecutive applications", z[1:], z[:-1]),
                               ("opposite qubits", z[:, : n // 2], z[:, ::-1][:, : n // 2])):
                if a.size:
                    require(abs(float((a * b).sum())) / math.sqrt(a.size) < 8 + 8 / math.sqrt(p * (1 - p) * a.size) / (p * (1 - p)), "%s are correlated", what)
        if n * K * p * (1 - p) > 60 and K >= 50 and 0.2 < p < 0.8:
            # with K applications two given qubits agree throughout with probability at most (p^2 + q^2)^K
            same = (p * p + (1 - p) * (1 - p)) ** K * n * (n - 1) / 2
            if same < TINY:
                require(len({tuple(c) for c in B.T}) == n, "two qubits have the same history")
                require(not {tuple(c) for c in B.T} & {tuple(1 - c) for c in B.T}, "two qubits have opposite histories")
    # equal seeds give equal noise, on a fresh code and a fresh layer
    code2 = fp.build(case)
    noise2 = IidNoise(code2, p)
    if case.get("edit"):
        edit(code2.graph)
    rng = np.random.default_rng(case["seed"])
    for row in rows[:2]:
        noise2.apply_noise(rng)
        require([code2.graph.nodes[n]["bit_val"] for n in nodes] == row, "equal seeds give different noise")
    ctx.mark(0 < p < 1)
    ctx.label("p=%g" % p if p in (0, 1, 0.5) else "p-other")


def check_reject(case, ctx):
    code = fp.build({"d": 2, "ec": "primal", "b": "open"})
    try:
        IidNoise(code, case["p"])
    except ValueError:
        ctx.mark()
        return
    require(False, "probability %r accepted", case["p"])


@st.composite
def cases(draw):
    c = draw(gen.code_spec(hi=6, max_volume=48))
    c.update({"seed": draw(gen.seeds()), "pol": draw(st.booleans()), "posit": draw(st.booleans()), "stale": draw(st.booleans()), "edit": draw(st.integers(0, 3)) == 0,
              "K": draw(st.sampled_from([1, 2, 12, 60])), "p": draw(st.one_of(st.sampled_from([0, 1, 0.0, 1.0, 0.5, 0.1, 0.01, 0.9, 0.001]), st.floats(0.002, 0.998)))})
    return c


@st.composite
def large_cases(draw):
    """Larger codes and enough applications to tell any two qubits apart."""
    c = draw(gen.code_spec(hi=9, max_volume=draw(st.sampled_from([48, 150, 250])), long=70))
    c.update({"seed": draw(gen.seeds()), "pol": False, "posit": True, "stale": False, "K": 90, "p": draw(st.sampled_from([0.5, 0.4, 0.65]))})
    return c


@st.composite
def rare_cases(draw):
    """Error probabilities near 0 or 1, with enough draws to tell them from a coarser probability."""
    c = draw(gen.code_spec(hi=9, max_volume=draw(st.sampled_from([100, 250])), long=70))
    p = 10.0 ** -draw(st.floats(1.5, 5.0))
    c.update({"seed": draw(gen.seeds()), "pol": False, "posit": True, "stale": False, "K": 0, "bits": 250000, "p": 1 - p if draw(st.booleans()) else p})
    return c


SUBS = [Sub("noise", check, cases, quick=900, thorough=25000), Sub("large", check, large_cases, quick=100, thorough=3000, share=0.6),
        Sub("rare", check, rare_cases, quick=60, thorough=2000, share=0.5),
        Sub("rejected", check_reject, lambda: st.fixed_dictionaries({"p": st.one_of(st.floats(1.0000001, 1e6), st.floats(-1e6, -1e-9), st.sampled_from([2, -1, 1.0000000000000002, -5e-324, float(1e308), float("nan"), float("inf"), float("-inf")]))}),
            quick=80, thorough=600, share=0.1)]
