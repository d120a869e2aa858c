"""C10: union-find corrects erasures, and erasures with few errors."""
from harness import lemon

lemon.install()

import numpy as np
from hypothesis import strategies as st

from flamingpy.decoders import decoder as dec
from flamingpy.decoders.unionfind import uf_decoder
from harness import fp, gen
from harness.core import Sub, require

PROPERTY = "C10"
BUDGET = {"quick": 60, "thorough": 1500}
RULE = ("erasures (random, along logical lines, clustered, or produced by p-squeezed neighbourhoods) with arbitrary flips on "
        "them and t flips elsewhere; either 2t+s<d, or t=0 and the erasure supports no logical operator by a reference "
        "homology test; non-trivial = at least one erased qubit and at least one odd stabilizer")
ASSUMPTIONS = ["periodic axes have length >= 3, where each qubit labels its own stabilizer-graph edge"]


def has_logical(ref, erased):
    """Does some syndrome-free subset of the erasure act non-trivially?  Union-find with winding potentials."""
    parent, pot = {}, {}

    def find(x):
        path = []
        while parent.setdefault(x, x) != x:
            path.append(x)
            x = parent[x]
        acc = 0
        for y in reversed(path):
            acc ^= pot[y]
            pot[y], parent[y] = acc, x
        return x

    def val(x):
        return 0 if parent[x] == x else pot[x]

    for q in erased:
        cs = ref.of_qubit[q]
        label = 0
        for k, ax in enumerate(ref.axes):
            if ref.bounds[ax] == "periodic" and q[ax] == (0 if ref.ec == "primal" else 1):
                label |= 1 << k
        a, b = (cs[0], cs[1]) if len(cs) == 2 else (cs[0], ref.side(q))
        ra, rb = find(a), find(b)
        va, vb = val(a), val(b)
        if ra == rb:
            if va ^ vb ^ label:
                return True
        else:
            parent[ra] = rb
            pot[ra] = va ^ vb ^ label
    if "low" in parent and "high" in parent and find("low") == find("high"):
        return True
    return False


def near(ref, c):
    return sorted(ref.qubits, key=lambda q: (sum(min(abs(a - b), (2 * n - abs(a - b)) if bd == "periodic" else 99)
                                                 for a, b, n, bd in zip(q, c, ref.dims, ref.bounds)), q))


def line_through(ref, cell, ax):
    return sorted(q for q in ref.qubits if all(q[a] == cell[a] for a in range(3) if a != ax))


def pick_erasure(case, ref, rng, s):
    kind = case["place"]
    if kind == "cluster":
        c = ref.qubits[int(rng.integers(len(ref.qubits)))]
        pool = near(ref, c)[: 2 * s + 1]
        return {pool[int(i)] for i in rng.choice(len(pool), size=min(s, len(pool)), replace=False)}
    if kind == "line":
        ax = ref.axes[int(rng.integers(len(ref.axes)))]
        line = line_through(ref, ref.cells[int(rng.integers(len(ref.cells)))], ax)
        return {line[int(i)] for i in rng.choice(len(line), size=min(s, len(line)), replace=False)}
    if kind == "ends":
        ax = ref.axes[int(rng.integers(len(ref.axes)))]
        line = line_through(ref, ref.cells[int(rng.integers(len(ref.cells)))], ax)
        k = int(rng.integers(s + 1))
        return set(line[:k]) | set(line[len(line) - (s - k):] if s - k else [])
    return {ref.qubits[int(i)] for i in rng.choice(len(ref.qubits), size=min(s, len(ref.qubits)), replace=False)}


def finish(case, code, ref, erased, errs, off, ctx):
    """Decode and judge."""
    flips = set(errs)
    rng = np.random.default_rng(case["seed"] + 1)
    extra = {q for q in sorted(ref.nodes) if q not in ref.index and rng.random() < case["extra"]}
    fp.set_bits(code, flips | extra)
    if case["direct"]:
        for q in ref.qubits:
            code.graph.nodes[q]["weight"] = -1 if q in erased else 2
        getattr(code, case["ec"] + "_stab_graph").assign_weights(code)
        rec = uf_decoder(code, case["ec"])
        dec.recovery(rec, code, case["ec"])
        res = bool(np.all(dec.check_correction(code)))
    else:
        res = bool(dec.correct(code, decoder="UF"))
        for q in ref.qubits:
            w = code.graph.nodes[q]["weight"]
            require(w == (-1 if q in erased else 2), "qubit %s has weight %s, erased: %s", q, w, q in erased)
    left = {q for q, b in fp.bits(code).items() if b}
    require(not ref.syndrome(left), "the residual has a syndrome")
    applied = (left ^ flips) - extra
    what = "%d erased %s, flips %s" % (len(erased), sorted(erased)[:8], sorted(flips)[:8])
    if not off:
        bad = applied - erased
        require(not bad, "the correction leaves the erasure at %s: %s" % (sorted(bad)[:3], what))
    require(ref.is_trivial(left), "a logical operator remains: %s" % what)
    require(res is True, "failure was reported: %s" % what)
    ctx.mark(bool(erased) and bool(ref.syndrome(flips)))


def check_bounded(case, ctx):
    """2t + s < d."""
    ref = fp.ref(case)
    rng = np.random.default_rng(case["seed"])
    code = fp.used(case, backend=case["backend"])
    d = ref.distance
    s = int(rng.integers(0, d)) if case["s"] is None else min(case["s"], d - 1)
    erased = pick_erasure(case, ref, rng, s)
    t = (d - 1 - len(erased)) // 2
    t = max(0, t - (1 if case["less"] else 0))
    if case["aligned"] and erased:
        cell = ref.of_qubit[sorted(erased)[0]][0]
        pool = [q for ax in ref.axes for q in line_through(ref, cell, ax)]
    else:
        pool = ref.qubits
    pool = sorted(set(pool) - erased)
    off = {pool[int(i)] for i in rng.choice(len(pool), size=min(t, len(pool)), replace=False)} if t and pool else set()
    assert 2 * len(off) + len(erased) < d
    errs = {q for q in sorted(erased) if rng.random() < case["p"]} | off
    finish(dict(case, direct=True), code, ref, erased, errs, off, ctx)
    ctx.label(case["b"], case["place"], "d=%d" % d, "t=%d" % len(off))


def check_erasure(case, ctx):
    """Erasures of any size without a logical operator."""
    ref = fp.ref(case)
    rng = np.random.default_rng(case["seed"])
    code = fp.used(case, backend=case["backend"])
    if case["direct"]:
        order = [ref.qubits[int(i)] for i in rng.permutation(len(ref.qubits))]
        if case["place"] == "cluster":
            c = ref.qubits[int(rng.integers(len(ref.qubits)))]
            order = near(ref, c)
        n = int(len(order) * case["frac"])
        erased = set(order[:n])
        while has_logical(ref, erased) and n:
            n = (2 * n) // 3
            erased = set(order[:n])
    else:
        pts = [p for p in sorted(ref.nodes)]
        order = [pts[int(i)] for i in rng.permutation(len(pts))]
        if case["place"] == "cluster":
            c = ref.qubits[int(rng.integers(len(ref.qubits)))]
            order = sorted(pts, key=lambda p: (sum(abs(a - b) for a, b in zip(p, c)), p))
        n = int(len(order) * case["frac"])
        while True:
            ps = set(order[:n])
            erased = {q for q in ref.qubits if sum(v in ps for v in ref.adj[q]) >= 2}
            if not n or not has_logical(ref, erased):
                break
            n = (2 * n) // 3
        for p in code.graph.nodes:
            code.graph.nodes[p]["state"] = "p" if p in ps else "GKP"
    errs = {q for q in sorted(erased) if rng.random() < case["p"]}
    finish(case, code, ref, erased, errs, set(), ctx)
    ctx.label(case["b"], case["place"], "direct" if case["direct"] else "p-squeezed", "s>=d" if len(erased) >= ref.distance else "s<d")


@st.composite
def base(draw, volume):
    spec = draw(gen.code_spec(lo=2, hi=9, periodic_lo=3, max_volume=volume))
    if draw(st.integers(0, 3)):  # long relevant axes
        d = draw(st.sampled_from([5, 7, 6, 9, 4, 3]))
        dims = list(gen.dims_of(spec))
        rel = {"open": (0,) if spec["ec"] == "primal" else (1,), "toric": (0, 1), "periodic": (0, 1, 2)}[spec["b"]]
        for a in range(3):
            dims[a] = (d if spec["b"] != "periodic" else min(d, 5)) if a in rel else min(dims[a], 3)
        spec["d"] = dims
    spec.update(backend=draw(st.sampled_from(["rustworkx", "networkx"])), seed=draw(gen.seeds()),
                p=draw(st.sampled_from([0.5, 1.0, 0.2])), extra=draw(st.sampled_from([0.0, 0.5])),
                place=draw(st.sampled_from(["random", "cluster", "line", "ends"])))
    return spec


@st.composite
def bounded(draw):
    spec = draw(base(64))
    spec.update(s=draw(st.sampled_from([None, None, 0, 1, 2, 3, 100])), less=draw(st.sampled_from([False, False, True])),
                aligned=draw(st.booleans()))
    return spec


@st.composite
def erasures(draw):
    spec = draw(base(100))
    spec.update(direct=draw(st.booleans()), frac=draw(st.sampled_from([0.03, 0.1, 0.2, 0.3, 0.5])))
    return spec


@st.composite
def large(draw):
    """Larger lattices: erased clusters of many cells that merge with each other and with the boundary."""
    spec = draw(gen.code_spec(lo=2, hi=10, periodic_lo=3, max_volume=draw(st.sampled_from([150, 300, 420])), long=70))
    spec.update(backend=draw(st.sampled_from(["rustworkx", "networkx"])), seed=draw(gen.seeds()),
                p=draw(st.sampled_from([0.5, 0.2, 0.05])), extra=0.0, place=draw(st.sampled_from(["random", "random", "cluster"])),
                direct=draw(st.booleans()), frac=draw(st.sampled_from([0.08, 0.12, 0.16, 0.2, 0.25, 0.3])))
    return spec


SUBS = [
    Sub("bounded_erasures", check_bounded, bounded, quick=3000, thorough=40000),
    Sub("correctable_erasures", check_erasure, erasures, quick=2400, thorough=30000),
    Sub("large_erasures", check_erasure, large, quick=480, thorough=6000),
]
