"""C07: errors on at most (d-1)/2 syndrome qubits are always corrected."""
from harness import lemon

lemon.install()

import itertools as it

import numpy as np
from hypothesis import strategies as st

from flamingpy.decoders import decoder as dec
from harness import fp, gen
from harness.core import Sub, require

PROPERTY = "C07"
BUDGET = {"quick": 60, "thorough": 1500}
RULE = ("error sets of at most floor((d-1)/2) syndrome qubits are placed at random, along logical lines (contiguous, spread, "
        "at the boundaries, across seams) or in clusters, plus arbitrary flips elsewhere; decoded with every decoder and "
        "backend; non-trivial = exactly floor((d-1)/2) >= 1 errors")
DECODERS = ["MWPM:networkx", "MWPM:rustworkx", "MWPM:lemon", "UF"]


def decode(code, name, sg_default):
    dname, _, match = name.partition(":")
    return dec.correct(code, decoder=dname, weight_options=[None, {}, {"method": "uniform"}][sg_default % 3],
                       decoder_opts={"backend": match} if match else None)


def place(case, ref, rng):
    """At most t syndrome qubits."""
    d = ref.distance
    t = (d - 1) // 2
    t = max(0, t - case["less"])
    kind = case["place"]
    if t == 0:
        return set()
    if kind == "random":
        return {ref.qubits[int(i)] for i in rng.choice(len(ref.qubits), size=t, replace=False)}
    if kind == "cluster":
        c = ref.qubits[int(rng.integers(len(ref.qubits)))]
        near = sorted(ref.qubits, key=lambda q: (sum(min(abs(a - b), (2 * n - abs(a - b)) if bd == "periodic" else 99)
                                                     for a, b, n, bd in zip(q, c, ref.dims, ref.bounds)), q))[: 3 * t + 2]
        return {near[int(i)] for i in rng.choice(len(near), size=min(t, len(near)), replace=False)}
    # along a logical line through a random cell, along one of the shortest relevant axes
    axes = [a for a in ref.axes if ref.dims[a] == d] if case["short"] else list(ref.axes)
    ax = axes[int(rng.integers(len(axes)))]
    cell = ref.cells[int(rng.integers(len(ref.cells)))]
    line = sorted(q for q in ref.qubits if all(q[a] == cell[a] for a in range(3) if a != ax))
    n = len(line)
    if kind == "run":
        s = int(rng.integers(n if ref.bounds[ax] == "periodic" else n - t + 1))
        return {line[(s + i) % n] for i in range(t)}
    if kind == "ends":
        k = int(rng.integers(t + 1))
        return set(line[:k]) | set(line[n - (t - k):] if t - k else [])
    if kind == "alternate":
        s = int(rng.integers(2))
        return set(line[s::2][:t])
    return {line[int(i)] for i in rng.choice(n, size=min(t, n), replace=False)}


def check(case, ctx):
    ref = fp.ref(case)
    rng = np.random.default_rng(case["seed"])
    code = fp.used(case, backend=case["backend"])
    t = (ref.distance - 1) // 2
    errs = place(case, ref, rng)
    assert len(errs) <= t
    extra = [q for q in sorted(ref.nodes) if q not in ref.index and rng.random() < case["extra"]]
    fp.set_bits(code, list(errs) + extra)
    res = decode(code, case["dec"], case["seed"])
    left = {q for q, b in fp.bits(code).items() if b}
    require(not ref.syndrome(left), "the residual has a syndrome")
    require(ref.is_trivial(left), "%d errors %s on a distance-%d code left a logical operator" % (len(errs), sorted(errs), ref.distance))
    require(bool(res) is True, "correct() reported failure for %d errors on a distance-%d code" % (len(errs), ref.distance))
    ctx.mark(len(errs) == t and t >= 1)
    ctx.label(case["dec"], case["b"], "d=%d" % ref.distance, case["place"])


@st.composite
def thin(draw, hi, volume):
    """Codes whose relevant axes are long and whose irrelevant axes are short."""
    ec = draw(st.sampled_from(gen.ECS))
    b = draw(st.sampled_from(gen.BOUNDS))
    rel = {"open": (0,) if ec == "primal" else (1,), "toric": (0, 1), "periodic": (0, 1, 2)}[b]
    top = {"open": hi, "toric": max(5, min(hi, int((volume / 2) ** 0.5))), "periodic": max(3, min(5, int(volume ** (1 / 3) + 1e-6)))}[b]
    d = draw(st.sampled_from([x for x in (3, 5, 5, 7, 4, 9, 6, 11, 13, 15, 17) if x <= top]))
    dims = [0, 0, 0]
    for a in range(3):
        if a in rel:
            dims[a] = d + (draw(st.sampled_from([0, 0, 1, 2])) if b != "periodic" or d < 5 else 0)
        else:
            dims[a] = draw(st.integers(2, 3))
    return {"d": dims, "ec": ec, "b": b}


@st.composite
def cases(draw, hi=9, volume=125, decs=DECODERS):
    spec = draw(thin(hi, volume))
    spec.update(backend=draw(st.sampled_from(["rustworkx", "networkx"])), seed=draw(gen.seeds()), dec=draw(st.sampled_from(decs)),
                place=draw(st.sampled_from(["random", "cluster", "run", "ends", "alternate", "line"])), short=draw(st.booleans()),
                less=draw(st.sampled_from([0, 0, 0, 1])), extra=draw(st.sampled_from([0.0, 0.5])))
    return spec


def check_all(case, ctx):
    """Every single-qubit error (and, at distance 5, a slice of the two-qubit errors) of one code."""
    ref = fp.ref(case)
    code = fp.build(case, backend=case["backend"])
    t = (ref.distance - 1) // 2
    pool = it.combinations(ref.qubits, t) if t else []
    n = 0
    for k, errs in enumerate(pool):
        if k % case["of"] != case["part"]:
            continue
        fp.set_bits(code, errs)
        res = decode(code, case["dec"], k)
        left = {q for q, b in fp.bits(code).items() if b}
        require(not ref.syndrome(left), "errors %s: the residual has a syndrome", errs)
        require(ref.is_trivial(left) and bool(res), "errors %s on a distance-%d code are not corrected", errs, ref.distance)
        n += 1
    ctx.mark(n > 0)
    ctx.label(case["dec"], "t=%d" % t)


def enum_all(tier):
    small = [(ec, b, d) for ec in gen.ECS for b in gen.BOUNDS for d in
             ({"open": [(3, 2, 2), (2, 3, 2), (4, 2, 3), (3, 3, 3)], "toric": [(3, 3, 2), (3, 4, 2), (4, 3, 3)], "periodic": [(3, 3, 3), (3, 4, 3)]}[b])]
    for ec, b, d in small:
        rel = {"open": (0,) if ec == "primal" else (1,), "toric": (0, 1), "periodic": (0, 1, 2)}[b]
        if min(d[a] for a in rel) < 3:
            continue
        for name in DECODERS:
            yield {"d": list(d), "ec": ec, "b": b, "backend": "rustworkx", "dec": name, "part": 0, "of": 1}
    pairs = [("primal", "open", (5, 2, 2)), ("dual", "open", (2, 5, 2))]
    for ec, b, d in pairs:
        for name in DECODERS:
            of = 8 if tier == "quick" else 1
            yield {"d": list(d), "ec": ec, "b": b, "backend": "networkx", "dec": name, "part": 3 % of, "of": of}
    if tier == "thorough":
        for ec in gen.ECS:
            for name in DECODERS:
                for part in range(20):
                    yield {"d": [5, 5, 2], "ec": ec, "b": "toric", "backend": "rustworkx", "dec": name, "part": part, "of": 200}


SUBS = [
    Sub("exhaustive_small", check_all, enum=enum_all, rule="every correctable error of maximal weight on distance-3 codes; a slice at distance 5"),
    Sub("correctable", check, cases, quick=2400, thorough=30000, share=1.5),
    Sub("union_find_long", check, lambda: cases(hi=17, volume=250, decs=["UF"]), quick=1350, thorough=20000),
]
