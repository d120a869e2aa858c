"""C04: stabilizer-graph backends agree; shortest paths are real and optimal."""
import heapq
from collections import Counter

import numpy as np
from hypothesis import strategies as st

from flamingpy.codes import Stabilizer
from flamingpy.codes.graphs import NxStabilizerGraph, RxStabilizerGraph
from harness import fp, gen
from harness.core import Sub, require

PROPERTY = "C04"
RULE = ("stabilizer graphs of generated codes, and arbitrary graphs built through the graph API, with generated non-negative "
        "weights, compared node by node with an independent Dijkstra; non-trivial = at least two distinct weights")


def key(node):
    if isinstance(node, Stabilizer):
        return frozenset(node.coords())
    return node


def dijkstra(adj, source, allowed=None):
    dist = {source: 0}
    heap = [(0, 0, source)]
    n = 0
    done = set()
    while heap:
        d, _, u = heapq.heappop(heap)
        if u in done:
            continue
        done.add(u)
        for v, w in adj.get(u, {}).items():
            if allowed is not None and v not in allowed:
                continue
            if v not in dist or d + w < dist[v]:
                dist[v] = d + w
                n += 1
                heapq.heappush(heap, (d + w, n, v))
    return dist


def near(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return abs(a - b) <= 1e-9 * max(abs(a), abs(b))


def check_paths(sg, adj, source, result, allowed, what):
    lengths, paths = result
    lengths, paths = dict(lengths), dict(paths)
    truth = dijkstra(adj, key(source), allowed)
    truth.pop(key(source))
    require({key(t) for t in lengths} == set(truth), "%s: targets with a length differ from the reachable nodes" % what)
    require({key(t) for t in paths} == set(truth), "%s: targets with a path differ from the reachable nodes" % what)
    for t, length in lengths.items():
        kt = key(t)
        require(near(length, truth[kt]), "%s: length to %s is %s, the minimum is %s" % (what, kt, length, truth[kt]))
        path = [key(n) for n in paths[t]]
        require(path[0] == key(source) and path[-1] == kt, "%s: path to %s has the wrong ends: %s" % (what, kt, path))
        total = 0
        for a, b in zip(path, path[1:]):
            require(b in adj.get(a, {}), "%s: path uses a non-edge %s-%s" % (what, a, b))
            total += adj[a][b]
        require(near(total, length), "%s: path to %s weighs %s but %s is reported" % (what, kt, total, length))
        if allowed is not None:
            require("low" not in path and "high" not in path, "%s: path passes a terminal" % what)


def observe(sg):
    """(nodes, edges with data) seen through the public API."""
    nodes = Counter(key(n) for n in sg.nodes())
    edges = {}
    for a, b in sg.edges():
        e = frozenset((key(a), key(b)))
        require(e not in edges, "edge listed twice")
        edges[e] = dict(sg.edge_data(a, b))
    return nodes, edges


def adjacency(edges):
    adj = {}
    for e, data in edges.items():
        a, b = tuple(e)
        adj.setdefault(a, {})[b] = data["weight"]
        adj.setdefault(b, {})[a] = data["weight"]
    return adj


def weight_value(kind, h):
    if kind == "unit":
        return 1
    if kind == "small":
        return 1 + h % 3
    if kind == "zero":
        return h % 3
    if kind == "wide":
        return (h % 1000) * (h % 7) + 1
    if kind == "large":  # integer weights of a large multiplier
        return 2**27 + h % 9 + (h % 2) * 2**20
    if kind == "spread":  # neighbouring sizes over many orders of magnitude
        return (1 + h % 97 / 9.7) * 10.0 ** (h % 11 - 8)
    return ((h % 100000) + 1) / 7919.0   # float


def check_code_graph(case, ctx):
    ec = case["ec"]
    ref = fp.ref(case)
    rng = np.random.default_rng(case["seed"])
    wts = {q: weight_value(case["kind"], int(rng.integers(1 << 30))) for q in ref.qubits}
    flips = [q for q in ref.qubits if rng.random() < case["p"]]
    views = {}
    for be in ("networkx", "rustworkx"):
        code = fp.used(case, backend=be)
        fp.set_bits(code, flips)
        for q, w in wts.items():
            code.graph.nodes[q]["weight"] = w
        sg = getattr(code, ec + "_stab_graph")
        if case["seed"] % 4 >= 2:  # the same queries were made before, with other weights or with the same ones in another order
            other = rng.permutation(len(ref.qubits))
            for k, q in enumerate(sorted(ref.qubits)):
                code.graph.nodes[q]["weight"] = wts[sorted(ref.qubits)[other[k]]] if case["seed"] % 4 == 3 else 1 + hash(q) % 5
            sg.assign_weights(code)
            sg.shortest_paths_from_low()
            sg.shortest_paths_from_high()
            for k in case["src"]:
                sg.shortest_paths_without_high_low(list(sg.stabilizers)[k % len(sg.stabilizers)])
            for q, w in wts.items():
                code.graph.nodes[q]["weight"] = w
        sg.assign_weights(code)
        nodes, edges = observe(sg)
        for e, data in edges.items():
            lab = data["common_vertex"]
            want = 0 if lab is None else wts[lab]
            require(data.get("weight") == want, "%s: edge of %s weighs %s, should be %s" % (be, lab, data.get("weight"), want))
        odd = Counter(key(s) for s in sg.odd_parity_stabilizers())
        want_odd = Counter(ref.stabs[c] for c in ref.syndrome(flips))
        require(odd == want_odd, "%s: odd-parity stabilizers differ" % be)
        views[be] = (sg, nodes, edges)
    sg_n, n1, e1 = views["networkx"]
    sg_r, n2, e2 = views["rustworkx"]
    require(n1 == n2, "backends have different nodes")
    require(e1 == e2, "backends have different edges or edge data")
    adj = adjacency(e1)
    for be, (sg, _, edges) in views.items():
        allowed = {k for k in n1 if k not in ("low", "high")}
        stabs = list(sg.stabilizers)
        for k in case["src"]:
            s = stabs[k % len(stabs)]
            check_paths(sg, adj, s, sg.shortest_paths_without_high_low(s), allowed, be + " from a stabilizer")
        check_paths(sg, adj, "low", sg.shortest_paths_from_low(), None, be + " from low")
        check_paths(sg, adj, "high", sg.shortest_paths_from_high(), None, be + " from high")
        for n in [stabs[k % len(stabs)] for k in case["src"]] + ["low"]:
            require({key(m) for m in sg.neighbors(n)} == set(adj.get(key(n), {})), "%s: neighbours" % be)
            out = {frozenset((key(a), key(b))) for a, b in sg.out_edges(n)}
            require(out == {frozenset((key(n), m)) for m in adj.get(key(n), {})}, "%s: out_edges" % be)
        # the queries must not have changed the graph
        nodes_after, edges_after = observe(sg)
        require(nodes_after == n1 and edges_after == edges, "%s: querying paths changed the graph" % be)
        conv = sg.to_nx()
        nodes_c, edges_c = observe(conv)
        require({k: v for k, v in edges_c.items()} == e1, "%s: to_nx changed edges or weights" % be)
        require(set(nodes_c) == set(n1), "%s: to_nx changed the nodes" % be)
    ctx.label(ec + "-" + case["b"], case["kind"])
    ctx.mark(len(set(wts.values())) > 1)


class Thing:
    """A hashable stand-in for a stabilizer of an arbitrary code."""

    def __init__(self, i):
        self.i = i
        self.parity = 0

    def coords(self):
        return [("q", self.i)]

    def __repr__(self):
        return "T%d" % self.i


def check_custom(case, ctx):
    n = case["n"]
    views = {}
    for name, cls in (("networkx", NxStabilizerGraph), ("rustworkx", RxStabilizerGraph)):
        things = [Thing(i) for i in range(n)]
        g = cls()
        g.add_stabilizers(things)
        low = [(-1, 0, i) for i in range(case["low"])]
        high = [(9, 0, i) for i in range(case["high"])]
        g.add_low_bound_points(low)
        g.add_high_bound_points(high)
        pool = things + low + high
        seen = set()
        for i, j, h in case["edges"]:
            a, b = i % len(pool), j % len(pool)
            if a == b or frozenset((a, b)) in seen:
                continue
            seen.add(frozenset((a, b)))
            g.add_edge(pool[a], pool[b], common_vertex=(a, b, h))
            g.edge_data(pool[a], pool[b])["weight"] = weight_value(case["kind"], h)
        for p in low:
            g.edge_data("low", p)["weight"] = 0
        for p in high:
            g.edge_data("high", p)["weight"] = 0
        idx = {t: ("T", t.i) for t in things}
        views[name] = (g, things, low, high, idx)
    norm_edges = {}
    for name, (g, things, low, high, idx) in views.items():
        k = lambda x: idx.get(x, x)
        nodes = Counter(k(x) for x in g.nodes())
        edges = {frozenset((k(a), k(b))): dict(g.edge_data(a, b)) for a, b in g.edges()}
        norm_edges[name] = (nodes, edges)
    require(norm_edges["networkx"] == norm_edges["rustworkx"], "hand-built graphs differ between backends")
    edges = norm_edges["networkx"][1]
    again = sum(case["src"]) % 2 == 1
    for name, (g, things, low, high, idx) in views.items():
        adj = adjacency(edges)
        k = lambda x: idx.get(x, x)

        def check_from(source, res, allowed, what):
            lengths, paths = res
            truth = dijkstra(adj, k(source), allowed)
            truth.pop(k(source))
            lengths = {k(t): v for t, v in dict(lengths).items()}
            paths = {k(t): [k(x) for x in v] for t, v in dict(paths).items()}
            require(set(lengths) == set(truth) == set(paths), "%s %s: reachable targets differ" % (name, what))
            for t, length in lengths.items():
                require(near(length, truth[t]), "%s %s: length to %s is %s, the minimum is %s" % (
                    name, what, t, length, truth[t]))
                p = paths[t]
                require(p[0] == k(source) and p[-1] == t, "path ends")
                require(all(b in adj.get(a, {}) for a, b in zip(p, p[1:])), "path uses a non-edge")
                require(near(sum(adj[a][b] for a, b in zip(p, p[1:])), length), "path weight is not the length")
        allowed = {x for x in norm_edges[name][0] if x not in ("low", "high")}
        for s in case["src"]:
            check_from(things[s % n], g.shortest_paths_without_high_low(things[s % n]), allowed, "from node")
        check_from("low", g.shortest_paths_from_low(), None, "from low")
        check_from("high", g.shortest_paths_from_high(), None, "from high")
        if again:  # the same weights, dealt to other edges
            own = sorted((e for e in edges if not {"low", "high"} & e), key=lambda e: sorted(map(repr, e)))
            old = [edges[e]["weight"] for e in own]
            for e, w in zip(own, old[1:] + old[:1]):
                adj[tuple(e)[0]][tuple(e)[1]] = adj[tuple(e)[1]][tuple(e)[0]] = w
            back = {k(x): x for x in g.nodes()}
            for e in own:
                a, b = tuple(e)
                g.edge_data(back[a], back[b])["weight"] = adj[a][b]
            for s in case["src"]:
                check_from(things[s % n], g.shortest_paths_without_high_low(things[s % n]), allowed, "again from node")
            check_from("low", g.shortest_paths_from_low(), None, "again from low")
            check_from("high", g.shortest_paths_from_high(), None, "again from high")
    ctx.label(case["kind"], "twice" if again else "once")
    ctx.mark(len({d["weight"] for d in edges.values()}) > 1)


KINDS = ["unit", "small", "zero", "wide", "float", "large", "spread"]


@st.composite
def code_cases(draw):
    spec = draw(gen.code_spec(lo=2, hi=6, periodic_lo=3, max_volume=48))
    spec.update(seed=draw(gen.seeds()), kind=draw(st.sampled_from(KINDS)), p=draw(st.sampled_from([0.0, 0.1, 0.5])),
                src=draw(st.lists(st.integers(0, 200), min_size=1, max_size=3)))
    return spec


@st.composite
def big_code_cases(draw):
    """Long or wide codes (many boundary points, many stabilizers), few sources."""
    spec = draw(gen.code_spec(lo=2, hi=12, periodic_lo=3, max_volume=draw(st.sampled_from([130, 200, 260])), long=70))
    spec.update(seed=draw(gen.seeds()), kind=draw(st.sampled_from(KINDS)), p=draw(st.sampled_from([0.0, 0.1, 0.5])),
                src=draw(st.lists(st.integers(0, 400), min_size=1, max_size=1)))
    return spec


@st.composite
def custom_cases(draw):
    n = draw(st.integers(1, 9))
    return {"n": n, "low": draw(st.integers(0, 3)), "high": draw(st.integers(0, 3)), "kind": draw(st.sampled_from(KINDS)),
            "edges": draw(st.lists(st.tuples(st.integers(0, 14), st.integers(0, 14), st.integers(0, 5000)), max_size=30)),
            "src": draw(st.lists(st.integers(0, 20), min_size=1, max_size=3))}


SUBS = [
    Sub("custom_graphs", check_custom, custom_cases, quick=6000, thorough=60000, share=0.5),
    Sub("code_graphs", check_code_graph, code_cases, quick=1500, thorough=10000),
    Sub("large_code_graphs", check_code_graph, big_code_cases, quick=288, thorough=2500),
]
