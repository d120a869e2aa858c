"""C09: matching backends return perfect matchings of minimum total weight."""
from harness import lemon

lemon.install()

import networkx as nx
import numpy as np
from hypothesis import strategies as st

from flamingpy.decoders.mwpm.algos import build_match_graph
from flamingpy.decoders.mwpm.matching import LemonMatchingGraph, NxMatchingGraph, RxMatchingGraph
from harness import fp, gen
from harness.core import HarnessError, Sub, require
from harness.ref import min_tjoin, min_weight_perfect_matching

PROPERTY = "C09"
BUDGET = {"quick": 60, "thorough": 1200}
RULE = ("weighted graphs with a planted perfect matching (complete or sparse, ties, zeros, large and fractional weights) and the "
        "matching graphs of generated codes; each backend's answer is compared with an exact pairing computed by dynamic "
        "programming; non-trivial = at least 4 vertices and at least two distinct weights")
ASSUMPTIONS = ["the lemon backend works in single precision: fractional totals are compared up to single-precision rounding"]
BACKENDS = {"networkx": NxMatchingGraph, "rustworkx": RxMatchingGraph, "lemon": LemonMatchingGraph}
KINDS = ["one", "ties", "zeros", "small", "large", "unit_float", "log", "quarter", "huge", "close", "wide"]


def draw_weight(kind, rng):
    if kind == "one":
        return 1
    if kind == "ties":
        return int(rng.integers(1, 3))
    if kind == "zeros":
        return int(rng.integers(0, 10)) * int(rng.integers(0, 2))
    if kind == "small":
        return int(rng.integers(0, 50))
    if kind == "large":
        return int(rng.integers(0, 1000000))
    if kind == "unit_float":
        return float(rng.random())
    if kind == "log":
        return float(-np.log(rng.uniform(1e-12, 0.6)))
    if kind == "huge":  # integers that differ by less than a double resolves at their size
        return 2 ** 60 + int(rng.integers(0, 12))
    if kind == "close":
        return 10 ** 6 + int(rng.integers(0, 5))
    if kind == "wide":
        return float(10.0 ** rng.uniform(-6, 12))
    return float(rng.integers(0, 40)) / 4


def name_nodes(how, n):
    if how == "int":
        return list(range(n))
    if how == "reversed":
        return list(range(n, 0, -1))
    if how == "tuple":
        return [(i, 2 * i, 3) for i in range(n)]
    return ["v%d" % i for i in range(n)]


def judge(mg, name, edges, n, nodes, ctx, best):
    """edges: {(i, j) with i < j: weight}."""
    matching = list(mg.min_weight_perfect_matching())
    idx = {v: i for i, v in enumerate(nodes)}
    seen = set()
    total = 0
    for e in matching:
        require(len(e) == 2 and e[0] in idx and e[1] in idx, "%s: %r is not an edge" % (name, e))
        i, j = sorted((idx[e[0]], idx[e[1]]))
        require(i != j and (i, j) in edges, "%s: %r is not an edge of the graph" % (name, e))
        require(i not in seen and j not in seen, "%s: vertex matched twice" % name)
        seen |= {i, j}
        total += edges[(i, j)]
    require(len(seen) == n, "%s: the matching covers %d of %d vertices" % (name, len(seen), n))
    ints = all(isinstance(w, int) for w in edges.values())
    scale = max(edges.values())
    big = ints and scale * n > 2 ** 22
    tol = 0 if ints and not (name == "lemon" and big) else (4e-6 * n * (scale + 1e-9) if name == "lemon" else 1e-9 * (1 + n * scale))
    require(total <= best + tol, "%s: total weight %s, the minimum is %s" % (name, total, best))
    tw = mg.total_weight_of(matching)
    require(abs(tw - total) <= 1e-9 * (1 + abs(total)), "%s: total_weight_of says %s, the sum is %s" % (name, tw, total))
    require(mg.total_weight_of([]) == 0, "%s: weight of the empty matching" % name)


def check_graph(case, ctx):
    rng = np.random.default_rng(case["seed"])
    n = 2 * case["half"]
    order = [int(x) for x in rng.permutation(n)]
    edges = {}
    for k in range(0, n, 2):
        i, j = sorted(order[k:k + 2])
        edges[(i, j)] = draw_weight(case["kind"], rng)
    if case["steep"]:  # make the planted matching expensive
        edges = {e: w + 3 for e, w in edges.items()}
    for i in range(n):
        for j in range(i + 1, n):
            if (i, j) not in edges and rng.random() < case["density"]:
                edges[(i, j)] = draw_weight(case["kind"], rng)
    cost = [[edges.get((min(i, j), max(i, j))) for j in range(n)] for i in range(n)]
    best = min_weight_perfect_matching(cost)
    nodes = name_nodes(case["names"], n)
    todo = list(edges.items())
    todo = [todo[i] for i in rng.permutation(len(todo))]
    names = ["networkx", "rustworkx", "lemon"]
    for name in names:
        mg = BACKENDS[name]("primal")
        for (i, j), w in todo:
            a, b = (nodes[i], nodes[j]) if (i + j) % 2 else (nodes[j], nodes[i])
            mg.add_edge((a, b), w, [a, "mid", b])
        for (i, j), w in todo:
            a, b = (nodes[i], nodes[j]) if (i + j) % 2 else (nodes[j], nodes[i])
            for e in ((a, b), (b, a)):
                require(mg.edge_weight(e) == w, "%s: edge_weight%s is %s, inserted %s" % (name, e, mg.edge_weight(e), w))
                require(list(mg.edge_path(e)) == [a, "mid", b], "%s: edge_path%s" % (name, e))
        judge(mg, name, edges, n, nodes, ctx, best)
        if name != "networkx":
            other = mg.to_nx()
            require(isinstance(other, NxMatchingGraph), "to_nx type")
            judge(other, "networkx", edges, n, nodes, ctx, best)
    complete = len(edges) == n * (n - 1) // 2
    ctx.mark(n >= 4 and len(set(edges.values())) > 1)
    ctx.label("complete" if complete else "sparse", case["kind"], "n=%d" % n)


def blossom(n, edges):
    """Total weight of a minimum perfect matching by an independently transformed maximum matching (exact for integers)."""
    g = nx.Graph()
    g.add_nodes_from(range(n))
    top = 1 + max(edges.values())
    for (i, j), w in edges.items():
        g.add_edge(i, j, weight=top - w)
    m = nx.max_weight_matching(g, maxcardinality=True, weight="weight")
    if 2 * len(m) != n:
        raise HarnessError("the oracle's matching is not perfect")
    return sum(edges[tuple(sorted(e))] for e in m)


def check_big(case, ctx):
    """More vertices than a decoding of a small code produces; vertices of a virtual kind joined at weight zero."""
    rng = np.random.default_rng(case["seed"])
    n = 2 * case["half"]
    order = [int(x) for x in rng.permutation(n)]
    edges, paths = {}, {}
    for k in range(0, n, 2):
        edges[tuple(sorted(order[k:k + 2]))] = draw_weight(case["kind"], rng)
    dummy = set(order[: int(n * case["virtual"])])
    for i in range(n):
        for j in range(i + 1, n):
            if {i, j} <= dummy:
                edges[(i, j)] = 0
            elif (i, j) not in edges and rng.random() < case["density"]:
                edges[(i, j)] = draw_weight(case["kind"], rng)
    best = blossom(n, edges)
    nodes = name_nodes(case["names"], n)
    todo = sorted(edges.items())
    if case["shuffle"]:
        todo = [todo[i] for i in rng.permutation(len(todo))]
    for name in BACKENDS:
        mg = BACKENDS[name]("dual" if case["half"] % 2 else "primal")
        for (i, j), w in todo:
            paths[(i, j)] = [] if {i, j} <= dummy else [nodes[i], nodes[j]]
            mg.add_edge((nodes[i], nodes[j]), w, paths[(i, j)])
        for (i, j), w in todo:
            for e in ((nodes[i], nodes[j]), (nodes[j], nodes[i])):
                require(mg.edge_weight(e) == w, "%s: edge_weight%s is %s, inserted %s" % (name, e, mg.edge_weight(e), w))
                require(list(mg.edge_path(e) or []) == paths[(i, j)], "%s: edge_path%s" % (name, e))
        judge(mg, name, edges, n, nodes, ctx, best)
    ctx.mark(len(set(edges.values())) > 1)
    ctx.label(case["kind"], "n>=%d" % (n // 10 * 10), "edges>=%d" % (len(edges) // 200 * 200))


def check_code(case, ctx):
    """Matching graphs built from codes: the three backends hold the same graph and find the same optimum."""
    ref = fp.ref(case)
    rng = np.random.default_rng(case["seed"])
    code = fp.used(case, backend=case["backend"])
    flips = [q for q in ref.qubits if rng.random() < case["p"]]
    while len(ref.syndrome(flips)) > 12:
        flips = flips[:-1]
    fp.set_bits(code, flips)
    w = {q: draw_weight(case["kind"], rng) for q in ref.qubits}
    for q, x in w.items():
        code.graph.nodes[q]["weight"] = x
    sg = getattr(code, case["ec"] + "_stab_graph")
    sg.assign_weights(code)
    defects = sorted(ref.syndrome(flips))
    n = len(defects)
    dist, bound = [], []
    for c in defects:
        d, b = ref.dijkstra(lambda q: w[q], [c])
        dist.append(d)
        bound.append(b)
    pair = [[dist[i].get(defects[j]) for j in range(n)] for i in range(n)]
    best = min_tjoin(n, pair, bound)
    cell = {}
    for c, sup in ref.stabs.items():
        cell[frozenset(sup)] = c
    ints = all(isinstance(x, int) for x in w.values())
    for name in BACKENDS:
        mg = build_match_graph(code, case["ec"], name)
        require(isinstance(mg, BACKENDS[name]), "wrong backend class")
        require(len(mg.virtual_points) == (n if case["b"] == "open" else 0), "%s: %d virtual points" % (name, len(mg.virtual_points)))
        m = list(mg.min_weight_perfect_matching())
        ends = [v for e in m for v in e]
        require(len(ends) == len(set(ends)) == n + len(mg.virtual_points), "%s: the matching is not perfect" % name)
        virt = set(mg.virtual_points)
        total = 0
        for e in m:
            kinds = [v in virt for v in e]
            if all(kinds):
                require(mg.edge_weight(e) == 0, "%s: virtual points are joined with weight %s" % (name, mg.edge_weight(e)))
                continue
            real = [cell[frozenset(v.coords())] for v, k in zip(e, kinds) if not k]
            idx = [defects.index(c) for c in real]
            want = bound[idx[0]] if len(idx) == 1 else pair[idx[0]][idx[1]]
            got = mg.edge_weight(e)
            require(abs(got - want) <= 1e-9 * (1 + want), "%s: edge weight %s, shortest distance %s" % (name, got, want))
            path = list(mg.edge_path(e))
            require(len(path) >= 2, "%s: path %r" % (name, path))
            s = sum(sg.edge_data(a, b)["weight"] for a, b in zip(path, path[1:]))
            require(abs(s - got) <= 1e-9 * (1 + got), "%s: path of weight %s on an edge of weight %s" % (name, s, got))
            total += got
        scale = max([x for r in pair for x in r if x is not None] + [x for x in bound if x is not None] + [0]) if n else 0
        tol = 0 if ints and scale < 1e6 else (4e-6 * (n + 1) * scale if name == "lemon" else 1e-9 * (1 + (n + 1) * scale))
        require(total <= best + tol, "%s: matching of weight %s, the minimum is %s" % (name, total, best))
        tw = mg.total_weight_of(m)
        require(abs(tw - total) <= 1e-9 * (1 + total), "%s: total_weight_of" % name)
    ctx.mark(n >= 4 and len(set(w.values())) > 1)
    ctx.label(case["b"], case["kind"], "defects=%d" % n)


@st.composite
def graphs(draw):
    return {"half": draw(st.sampled_from([3, 4, 5, 6, 2, 1])), "kind": draw(st.sampled_from(KINDS)), "seed": draw(gen.seeds()),
            "density": draw(st.sampled_from([1.0, 1.0, 0.8, 0.5, 0.25, 0.0])), "steep": draw(st.booleans()),
            "names": draw(st.sampled_from(["int", "reversed", "tuple", "str"]))}


@st.composite
def big_graphs(draw):
    return {"half": draw(st.integers(7, 22)), "kind": draw(st.sampled_from(["one", "ties", "zeros", "small", "large", "quarter"])),
            "seed": draw(gen.seeds()), "density": draw(st.sampled_from([1.0, 1.0, 0.5, 0.1])), "shuffle": draw(st.booleans()),
            "virtual": draw(st.sampled_from([0.0, 0.5, 0.5])), "names": draw(st.sampled_from(["int", "reversed", "tuple", "str"]))}


@st.composite
def codes(draw):
    spec = draw(gen.code_spec(lo=2, hi=6, periodic_lo=3, max_volume=36))
    spec.update(backend=draw(st.sampled_from(["rustworkx", "networkx"])), seed=draw(gen.seeds()),
                kind=draw(st.sampled_from(["one", "ties", "zeros", "small", "log", "unit_float"])), p=draw(st.sampled_from([0.03, 0.08, 0.2])))
    return spec


SUBS = [
    Sub("graphs", check_graph, graphs, quick=3200, thorough=60000),
    Sub("large_graphs", check_big, big_graphs, quick=600, thorough=12000),
    Sub("code_graphs", check_code, codes, quick=1000, thorough=10000),
]
