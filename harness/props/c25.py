"""C25: standard graph states have the right number of qubits and exact connectivity."""
import networkx as nx
import numpy as np
from hypothesis import strategies as st

from flamingpy.codes.graphs import EGraph
from flamingpy.utils import graph_states as gs
from harness.core import Sub, require

PROPERTY = "C25"
RULE = ("every n up to the bound for each constructor (enumerated), random larger n, and invalid sizes of many types; the connectivity is "
        "compared with the named graph by degrees, edge counts and connectedness; non-trivial = n of at least 3")
KINDS = {"star": gs.star_graph, "complete": gs.complete_graph, "linear": gs.linear_cluster, "ring": gs.ring_graph}


def check(case, ctx):
    n, kind = case["n"], case["kind"]
    g = KINDS[kind](n)
    require(isinstance(g, EGraph), "%s(%d) is a %s", kind, n, type(g).__name__)
    require(len(g) == n, "%s(%d) has %d qubits", kind, n, len(g))
    for p in g:
        require(isinstance(p, tuple) and len(p) == 3 and all(np.isfinite(float(x)) for x in p), "%s(%d): qubit %r", kind, n, p)
    require(not any(a == b for a, b in g.edges), "%s(%d) has a self-loop", kind, n)
    degs = sorted(d for _, d in g.degree)
    m = g.number_of_edges()
    require(n == 1 or nx.is_connected(g), "%s(%d) is disconnected", kind, n)
    if kind == "star":
        want = [1] * (n - 1) + [n - 1] if n > 1 else [0]
        if n > 2:
            require(g.degree((0, 0, 0)) == n - 1, "the centre of star(%d) is not at the origin", n)
    elif kind == "complete":
        want = [n - 1] * n
    elif kind == "linear":
        want = [0] if n == 1 else [1, 1] + [2] * (n - 2)
        order = sorted(g)
        require(all(g.has_edge(a, b) for a, b in zip(order, order[1:])), "linear(%d): neighbours in position are not connected", n)
    else:
        want = {1: [0], 2: [1, 1]}.get(n, [2] * n)
        if n > 2:
            order = sorted(g, key=lambda p: np.arctan2(float(p[1]), float(p[0])))
            require(all(g.has_edge(a, b) for a, b in zip(order, order[1:] + order[:1])), "ring(%d): neighbours on the circle are not connected", n)
    require(degs == sorted(want), "%s(%d) has degrees %s", kind, n, dict(zip(*np.unique(degs, return_counts=True))))
    require(m == sum(want) // 2, "%s(%d) has %d edges", kind, n, m)
    idx = g.index_generator()
    require(sorted(idx.values()) == list(range(n)), "%s(%d): indices", kind, n)
    if n <= 60:
        A = g.adj_generator(sparse=False)
        require(np.array_equal(A, A.T) and int(A.sum()) == 2 * m and set(np.unique(A)) <= {0, 1}, "%s(%d): adjacency matrix", kind, n)
    if n > 10**5:
        ctx.mark()
        ctx.label(kind, "huge")
        return
    again = KINDS[kind](n)
    require(again is not g and set(again) == set(g) and set(map(frozenset, again.edges)) == set(map(frozenset, g.edges)), "%s(%d) is not reproducible", kind, n)
    ctx.mark(n > 2)
    ctx.label(kind)


def check_bell(case, ctx):
    for _ in range(2):
        b = gs.bell()
        require(len(b) == 2 and b.number_of_edges() == 1 and all(isinstance(p, tuple) and len(p) == 3 for p in b), "bell pair: %s", list(b.edges))
        b.add_qubit(neighbors=[0])
    ctx.mark()


INVALID = {"float": lambda v: float(v), "str": lambda v: str(v), "none": lambda v: None, "list": lambda v: [v], "tuple": lambda v: (v, v, v),
           "nonpos": lambda v: -abs(v), "half": lambda v: v + 0.5, "nan": lambda v: float("nan"), "complex": lambda v: complex(v), "arr": lambda v: np.array([v, v])}


def check_invalid(case, ctx):
    n = INVALID[case["type"]](case["v"])
    try:
        KINDS[case["kind"]](n)
    except Exception:
        ctx.mark()
        return
    require(False, "%s(%r) accepted", case["kind"], n)


def all_n(tier):
    big = 160 if tier == "quick" else 420
    for n in list(range(1, big)):
        yield {"kind": "complete", "n": n}
    for n in range(1, 700 if tier == "quick" else 3000):
        for k in ("star", "linear", "ring"):
            yield {"kind": k, "n": n}


def huge(tier):
    cases = [("ring", 650000), ("star", 750000), ("linear", 600000), ("complete", 700), ("star", 130001), ("ring", 200003), ("linear", 70000), ("star", 400000)]
    if tier == "thorough":
        cases += [("ring", 1500000), ("star", 2000000), ("linear", 2000000), ("complete", 1400), ("complete", 1025), ("ring", 1000001), ("star", 1000000), ("linear", 1000000)]
    for k, n in cases:
        yield {"kind": k, "n": n}


SUBS = [
    Sub("huge", check, enum=huge, share=1.5),
    Sub("sizes", check, enum=all_n),
    Sub("large", check, lambda: st.one_of(
        st.fixed_dictionaries({"kind": st.sampled_from(["star", "linear", "ring"]), "n": st.integers(700, 20000)}),
        st.fixed_dictionaries({"kind": st.just("complete"), "n": st.integers(160, 330)})), quick=60, thorough=1500, share=0.6),
    Sub("bell", check_bell, examples=[{}], share=0.02),
    Sub("invalid", check_invalid, lambda: st.fixed_dictionaries({"kind": st.sampled_from(sorted(KINDS)), "type": st.sampled_from(sorted(INVALID)), "v": st.integers(0, 50)}),
        quick=400, thorough=2000, share=0.1),
]
