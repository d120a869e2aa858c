"""C03: the stabilizer graph encodes which stabilizers share which qubit; its cut/cycle distance is the code distance."""
from collections import Counter, deque

import numpy as np
from hypothesis import strategies as st

from flamingpy.codes import Stabilizer
from harness import fp, gen
from harness.core import Sub, require

PROPERTY = "C03"
RULE = ("stabilizer graphs of codes of generated distance, error complex, boundary and backend; non-trivial = dims not all "
        "equal or periodic seams present")
ASSUMPTIONS = ["periodic axes have length >= 3: at length 2 two cells share two qubits, so a simple graph cannot label both"]


def norm(node, sup2cell):
    """Stabilizer -> its cell; boundary point -> ('p', point); terminals stay strings."""
    if isinstance(node, Stabilizer):
        key = frozenset(node.coords())
        require(key in sup2cell, "stabilizer node on unknown support %s" % sorted(key))
        return ("s", sup2cell[key])
    if isinstance(node, str):
        require(node in ("low", "high"), "unknown node %r" % node)
        return node
    require(isinstance(node, tuple), "unknown node %r" % (node,))
    return ("p", node)


def check(case, ctx):
    code = fp.build(case, backend=case["backend"])
    ref = fp.ref(case)
    ec = case["ec"]
    sg = getattr(code, ec + "_stab_graph")
    sup2cell = {sup: c for c, sup in ref.stabs.items()}
    bq = ref.boundary_qubits()

    nodes = [norm(n, sup2cell) for n in sg.nodes()]
    want_nodes = [("s", c) for c in ref.cells] + [("p", q) for q in bq] + ["low", "high"]
    require(Counter(nodes) == Counter(want_nodes), "nodes differ: %s" % (
        list((Counter(nodes) - Counter(want_nodes)) + (Counter(want_nodes) - Counter(nodes)))[:4]))

    want = {}
    for q in ref.qubits:
        cs = ref.of_qubit[q]
        ends = frozenset(("s", c) for c in cs) if len(cs) == 2 else frozenset((("s", cs[0]), ("p", q)))
        want[ends] = q
    for q in bq:
        side = ref.side(q)
        require(side is not None, "reference side")  # never fails; documents the assumption
        want[frozenset((side, ("p", q)))] = None

    edges = list(sg.edges())
    got = {}
    for a, b in edges:
        e = frozenset((norm(a, sup2cell), norm(b, sup2cell)))
        require(e not in got, "edge %s appears twice" % (e,))
        lab = sg.edge_data(a, b)["common_vertex"]
        require(sg.edge_data(b, a)["common_vertex"] == lab, "edge data depends on direction")
        got[e] = lab
    for e, lab in got.items():
        require(e in want, "unexpected edge %s labelled %s" % (sorted(map(str, e)), lab))
        require(want[e] == lab, "edge %s labelled %s, should be %s" % (sorted(map(str, e)), lab, want[e]))
    for e in want:
        require(e in got, "missing edge %s for qubit %s" % (sorted(map(str, e)), want[e]))
    real = [frozenset((norm(a, sup2cell), norm(b, sup2cell))) for a, b in sg.real_edges()]
    require(len(real) == len(ref.qubits) and set(real) == {e for e in want if want[e] is not None}, "real_edges")
    require(Counter(norm(n, sup2cell) for n in sg.real_nodes()) == Counter(want_nodes) - Counter(["low", "high"]), "real_nodes")
    require(bool(sg.has_bound_points()) == bool(bq), "has_bound_points")
    require(sorted(sg.bound_points()) == sorted(bq), "bound_points")
    require(sorted(sg.low_bound_points) == sorted(q for q in bq if ref.side(q) == "low"), "low boundary points")
    require(sorted(sg.high_bound_points) == sorted(q for q in bq if ref.side(q) == "high"), "high boundary points")

    # neighbourhoods
    adj = {}
    for e in want:
        a, b = tuple(e)
        adj.setdefault(a, []).append((b, want[e]))
        adj.setdefault(b, []).append((a, want[e]))
    sample = [n for i, n in enumerate(sg.nodes()) if (i * 7 + case["seed"]) % 5 == 0] + ["low", "high"]
    for n in sample:
        k = norm(n, sup2cell)
        nb = Counter(norm(m, sup2cell) for m in sg.neighbors(n))
        require(nb == Counter(b for b, _ in adj.get(k, [])), "neighbours of %s" % (k,))
        oe = list(sg.out_edges(n))
        other = Counter()
        for a, b in oe:
            ka, kb = norm(a, sup2cell), norm(b, sup2cell)
            require(k in (ka, kb), "out_edges of %s lists %s-%s" % (k, ka, kb))
            other[kb if ka == k else ka] += 1
        require(other == nb, "out_edges of %s" % (k,))

    # distance, computed on the graph the code actually built
    gadj = {}
    for e, lab in got.items():
        a, b = tuple(e)
        gadj.setdefault(a, []).append((b, lab))
        gadj.setdefault(b, []).append((a, lab))
    if case["b"] == "open":
        d = zero_one_bfs(gadj, "low", "high")
        require(d == ref.dims[ref.axes[0]], "low-high distance %s, should be %s" % (d, ref.dims[ref.axes[0]]))
    else:
        best = None
        for ax in ref.axes:
            d = winding(gadj, ref, ax)
            require(d == ref.dims[ax], "shortest cycle around axis %d has %s qubits, should be %s" % (ax, d, ref.dims[ax]))
            best = d if best is None else min(best, d)
        require(best == ref.distance, "code distance %s, should be %s" % (best, ref.distance))
    ctx.label(ec + "-" + case["b"], case["backend"])
    ctx.mark(len(set(ref.dims)) > 1 or case["b"] != "open")


def zero_one_bfs(adj, s, t):
    dist = {s: 0}
    dq = deque([s])
    while dq:
        u = dq.popleft()
        for v, lab in adj.get(u, []):
            w = 0 if lab is None else 1
            if v not in dist or dist[u] + w < dist[v]:
                dist[v] = dist[u] + w
                (dq.appendleft if w == 0 else dq.append)(v)
    return dist.get(t)


def winding(adj, ref, ax):
    """Fewest qubits on a closed walk crossing a fixed plane of axis ax an odd number of times."""
    seam = 0 if ref.ec == "primal" else 1
    best = None
    starts = [("s", c) for c in ref.cells if c[ax] == (1 if ref.ec == "primal" else 2)]
    for s in starts:
        dist = {(s, 0): 0}
        dq = deque([(s, 0)])
        while dq:
            u, par = dq.popleft()
            for v, lab in adj.get(u, []):
                k = (v, par ^ (1 if lab is not None and lab[ax] == seam else 0))
                if k not in dist:
                    dist[k] = dist[(u, par)] + 1
                    dq.append(k)
        d = dist.get((s, 1))
        if d is not None and (best is None or d < best):
            best = d
    return best


@st.composite
def cases(draw):
    spec = draw(gen.code_spec(lo=2, hi=8, periodic_lo=3, max_volume=70, long=70))
    spec["backend"] = draw(st.sampled_from(["rustworkx", "networkx"]))
    spec["seed"] = draw(st.integers(0, 99))
    return spec


def enum_small(tier):
    top = 4 if tier == "quick" else 5
    for x in range(2, top + 1):
        for y in range(2, top + 1):
            for z in range(2, top + 1):
                for ec in gen.ECS:
                    for b in gen.BOUNDS:
                        if b != "open" and min(x, y) < 3 or b == "periodic" and z < 3:
                            continue
                        for be in ("rustworkx", "networkx"):
                            yield {"d": [x, y, z], "ec": ec, "b": b, "backend": be, "seed": x + y}


SUBS = [
    Sub("stab_graph_small", check, enum=enum_small, rule="every code up to 4x4x4 (5x5x5 thorough), both backends"),
    Sub("stab_graph", check, cases, quick=1500, thorough=8000),
    Sub("big_codes", check, enum=gen.big_cases("C03", lambda r: {"backend": str(r.choice(["rustworkx", "networkx"]))}, thorough=200), share=0.5, rule="a few codes of 500 to 1300 cells, drawn from the seed"),
]
