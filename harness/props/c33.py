"""C33: stabilizer graphs and matching graphs answer every query as the graph that was built."""
from harness import lemon

lemon.install()

import types
from collections import Counter

import networkx as nx
import numpy as np
from hypothesis import strategies as st

from flamingpy.codes import EGraph, NxStabilizerGraph, RxStabilizerGraph, Stabilizer
from flamingpy.decoders.mwpm.matching import LemonMatchingGraph, NxMatchingGraph, RxMatchingGraph
from harness import gen
from harness.core import Sub, require
from harness.ref import min_weight_perfect_matching

PROPERTY = "C33"
RULE = ("histories of up to 30 operations on an empty stabilizer graph (stabilizers, boundary points, edges, weights, flips, path searches, failing "
        "queries, conversion, after which the converted graph is used) and of up to 30 on a matching graph (insertions, insertions again, queries, "
        "matchings, conversion), each run with every backend and compared after every operation with a dictionary; non-trivial = a path search "
        "or matching that follows an insertion which follows another path search or matching, or a conversion")
ASSUMPTIONS = ["no stabilizer, boundary point or stabilizer-graph edge is inserted twice", "edge labels are vertices of the code"]
STAB = {"networkx": NxStabilizerGraph, "rustworkx": RxStabilizerGraph}
MATCH = {"networkx": NxMatchingGraph, "rustworkx": RxMatchingGraph, "lemon": LemonMatchingGraph}


def dijkstra(adj, source):
    dist, todo = {source: 0}, {source}
    done = set()
    while todo:
        u = min(todo, key=lambda x: dist[x])
        todo.discard(u)
        done.add(u)
        for v, w in adj.get(u, {}).items():
            if v not in done and dist[u] + w < dist.get(v, float("inf")):
                dist[v] = dist[u] + w
                todo.add(v)
    return dist


class View:
    """One backend's graph, with names for its nodes."""

    def __init__(self, name, lattice):
        self.what = name
        self.g = STAB[name]()
        self.lattice = lattice
        self.code = types.SimpleNamespace(graph=lattice)
        self.stab = []

    def k(self, node):
        for i, s in enumerate(self.stab):
            if s is node:
                return ("stab", i)
        return node

    def node(self, key):
        return self.stab[key[1]] if key[0] == "stab" else key


def fails(fn, want, what, *args):
    try:
        got = fn()
    except Exception as err:
        require(want is None or isinstance(err, want), "%s raised %s" % (what % args, type(err).__name__))
        return
    require(False, "%s returned %r instead of raising" % (what % args, got))


def compare(v, model):
    nodes, edges, stabs, low, high, bits = model
    g = v.g
    require(Counter(v.k(n) for n in g.nodes()) == Counter(nodes), "%s: nodes are %s, inserted %s", v.what, sorted(map(str, map(v.k, g.nodes()))), nodes)
    seen = set()
    for a, b in g.edges():
        e = frozenset((v.k(a), v.k(b)))
        require(e in edges and e not in seen, "%s: edge %s is listed but not in the graph (or twice)", v.what, sorted(map(str, e)))
        seen.add(e)
        require(dict(g.edge_data(a, b)) == edges[e] == dict(g.edge_data(b, a)), "%s: data of %s is %s, should be %s", v.what, sorted(map(str, e)),
                dict(g.edge_data(a, b)), edges[e])
    require(seen == set(edges), "%s: %d edges are not listed", v.what, len(set(edges) - seen))
    inner = [e for e in edges if "low" not in e and "high" not in e]
    require(Counter(frozenset((v.k(a), v.k(b))) for a, b in g.real_edges()) == Counter(inner), "%s: real_edges", v.what)
    require([v.k(s) for s in g.stabilizers] == stabs, "%s: stabilizers", v.what)
    require([v.k(x) for x in g.bound_points()] == low + high and list(g.low_bound_points) == low and list(g.high_bound_points) == high,
            "%s: boundary points are %s, inserted %s and %s", v.what, list(g.bound_points()), low, high)
    require(bool(g.has_bound_points()) == bool(low + high), "%s: has_bound_points", v.what)
    require([v.k(x) for x in g.real_nodes()] == stabs + low + high, "%s: real_nodes", v.what)
    odd = [s for s in stabs if sum(bits[q] for q in v.support[s[1]]) % 2]
    require([v.k(s) for s in g.odd_parity_stabilizers()] == odd, "%s: odd stabilizers", v.what)
    near = {}
    for e in edges:
        a, b = tuple(e)
        near.setdefault(a, []).append(b)
        near.setdefault(b, []).append(a)
    for n in nodes:
        x = v.node(n)
        require(Counter(v.k(y) for y in g.neighbors(x)) == Counter(near.get(n, [])), "%s: neighbours of %s", v.what, n)
        out = [(v.k(a), v.k(b)) for a, b in g.out_edges(x)]
        require(Counter(map(frozenset, out)) == Counter(frozenset((n, y)) for y in near.get(n, [])), "%s: edges at %s are %s", v.what, n, out)


def check_paths(v, model, source, how):
    nodes, edges = model[:2]
    allowed = set(nodes) if how else {n for n in nodes if n not in ("low", "high")}
    adj = {}
    for e, d in edges.items():
        a, b = tuple(e)
        if a in allowed and b in allowed:
            adj.setdefault(a, {})[b] = adj.setdefault(b, {})[a] = d["weight"]
    fn = {"low": v.g.shortest_paths_from_low, "high": v.g.shortest_paths_from_high}.get(how)
    lengths, paths = fn() if fn else v.g.shortest_paths_without_high_low(v.node(source))
    source = how or source
    truth = dijkstra(adj, source)
    truth.pop(source)
    lengths = {v.k(t): x for t, x in dict(lengths).items()}
    paths = {v.k(t): [v.k(x) for x in p] for t, p in dict(paths).items()}
    require(set(lengths) == set(paths) == set(truth), "%s: paths from %s lead to %s, reachable are %s", v.what, source, sorted(map(str, paths)), sorted(map(str, truth)))
    for t, p in paths.items():
        require(p[0] == source and p[-1] == t and all(b in adj.get(a, {}) for a, b in zip(p, p[1:])), "%s: path from %s to %s is %s", v.what, source, t, p)
        total = sum(adj[a][b] for a, b in zip(p, p[1:]))
        require(abs(total - lengths[t]) <= 1e-9 * (1 + total), "%s: path to %s weighs %s, reported %s", v.what, t, total, lengths[t])
        require(abs(total - truth[t]) <= 1e-9 * (1 + total), "%s: path to %s weighs %s, the shortest %s", v.what, t, total, truth[t])


def vertex(i):
    return (2 * i + 1, 0, 0)


def check_stab(case, ctx):
    lattice = EGraph()
    for i in range(12):
        lattice.add_node(vertex(i), bit_val=0)
    wt, bits = {}, {vertex(i): 0 for i in range(12)}
    views = [View("networkx", lattice), View("rustworkx", lattice)]
    nodes, edges, stabs, low, high = ["low", "high"], {}, [], [], []
    model = (nodes, edges, stabs, low, high, bits)
    searched, support = 0, []
    for v in views:
        v.support = support

    def assign(a, b, h):
        for i in range(12):
            lattice.nodes[vertex(i)]["weight"] = wt[vertex(i)] = [1, (a + i * i * b) % 5, (h * (i + 1)) % 97 / 13.0][h % 3]
        for v in views:
            v.g.assign_weights(v.code)
        for d in edges.values():
            d["weight"] = wt[d["common_vertex"]] if d["common_vertex"] is not None else 0

    for op, a, b, h in case["ops"]:
        if op == "stab":
            qs = [vertex(i) for i in sorted({a % 12, b % 12, h % 12})]
            support.append(qs)
            key = ("stab", len(support) - 1)
            for v in views:
                s = Stabilizer(lattice.subgraph(qs))
                v.stab.append(s)
                if a % 2:
                    v.g = v.g.add_stabilizer(s)
                else:
                    v.g = v.g.add_stabilizers([s])
            nodes.append(key)
            stabs.append(key)
        elif op in ("low", "high"):
            side = low if op == "low" else high
            point = (2 * len(low + high), 1 if op == "low" else 9, 1)
            for v in views:
                one, many = (v.g.add_low_bound_point, v.g.add_low_bound_points) if op == "low" else (v.g.add_high_bound_point, v.g.add_high_bound_points)
                v.g = one(point) if h % 2 else many([point])
            nodes.append(point)
            side.append(point)
            edges[frozenset((op, point))] = {"common_vertex": None}
        elif op == "node":
            point = (a % 9, 77, len(nodes))
            for v in views:
                v.g = v.g.add_node(point)
            nodes.append(point)
        elif op == "edge":
            x, y = nodes[a % len(nodes)], nodes[b % len(nodes)]
            if x == y or frozenset((x, y)) in edges or frozenset((x, y)) == frozenset(("low", "high")):
                continue
            q = vertex(h % 12)
            for v in views:
                v.g = v.g.add_edge(v.node(x), v.node(y), common_vertex=q) if h % 3 else v.g.add_edge(v.node(x), v.node(y), q)
            edges[frozenset((x, y))] = {"common_vertex": q}
        elif op == "weights":
            assign(a, b, h)
        elif op == "poke" and edges:
            e = sorted(edges, key=lambda e: sorted(map(str, e)))[h % len(edges)]
            x, y = sorted(e, key=str)
            for v in views:
                v.g.edge_data(v.node(y), v.node(x))["weight"] = a
            edges[e]["weight"] = a
        elif op == "flip":
            q = vertex(a % 12)
            bits[q] ^= 1
            lattice.nodes[q]["bit_val"] = bits[q]
        elif op == "paths":
            if not all("weight" in d for d in edges.values()):
                assign(b, a, h)
            src = [n for n in nodes if n not in ("low", "high")]
            for v in views:
                how = ("low", "high", None)[h % 3]
                if how or src:
                    check_paths(v, model, src[a % len(src)] if src else None, how)
            searched += 1
        elif op == "absent":
            x, y = nodes[a % len(nodes)], nodes[b % len(nodes)]
            if frozenset((x, y)) not in edges:
                for v in views:
                    fails(lambda: v.g.edge_data(v.node(x), v.node(y)), KeyError, "%s: data of the absent edge %s-%s", v.what, x, y)
                    fails(lambda: v.g.edge_data(v.node(x), (5, 5, 5 + a)), KeyError, "%s: data of an edge to an unknown node", v.what)
        elif op == "convert":
            for v in views:
                new = v.g.to_nx()
                require(isinstance(new, NxStabilizerGraph), "%s: to_nx returned %s", v.what, type(new).__name__)
                compare(v, model)
                v.g = new
                if "->" not in v.what:
                    v.what += "->networkx"
            ctx.mark()
            ctx.label("converted")
        for v in views:
            compare(v, model)
    ctx.mark(searched > 1)
    ctx.label("searches%d" % min(searched, 4), "nodes>=%d" % (len(nodes) // 5 * 5), "boundary" if low + high else "no-boundary")


def check_connect(case, ctx):
    """connect_nodes: stabilizers that share a vertex, and boundary points on stabilizers."""
    lattice = EGraph()
    for i in range(14):
        lattice.add_node(vertex(i), bit_val=0)
    supports = [sorted(set(vertex(i % 14) for i in s)) for s in case["stabs"]]
    low = [vertex(i) for i in sorted(set(case["low"]))]
    high = [vertex(i) for i in sorted(set(case["high"]) - set(case["low"]))]
    got = []
    for name, cls in STAB.items():
        g = cls()
        stabs = [Stabilizer(lattice.subgraph(s)) for s in supports]
        g.add_stabilizers(stabs)
        g.add_low_bound_points(low)
        g.add_high_bound_points(high)
        g.connect_nodes()
        name_of = {id(s): ("stab", i) for i, s in enumerate(stabs)}
        k = lambda x: name_of.get(id(x), x)
        seen = {}
        for a, b in g.edges():
            e = frozenset((k(a), k(b)))
            require(e not in seen, "%s: edge twice", name)
            seen[e] = g.edge_data(a, b)["common_vertex"]
        want = {}
        for i, s in enumerate(supports):
            for j in range(i):
                if set(s) & set(supports[j]):
                    want[frozenset((("stab", i), ("stab", j)))] = set(s) & set(supports[j])
            for p in low + high:
                if p in s:
                    want[frozenset((("stab", i), p))] = {p}
        for side, pts in (("low", low), ("high", high)):
            for p in pts:
                want[frozenset((side, p))] = {None}
        require(set(seen) == set(want), "%s: %d edges differ", name, len(set(seen) ^ set(want)))
        for e, lab in seen.items():
            require(lab in want[e], "%s: edge %s is labelled %s, the ends share %s", name, sorted(map(str, e)), lab, want[e])
        got.append(len(seen))
    ctx.mark(len(supports) > 1 and got[0] > len(low + high))
    ctx.label("stabs%d" % len(supports))


# ------------------------------------------------------------------ matching graphs
def node_name(i):
    return [("n", i), (2 * i, 1, 3), "v%d" % i, i][i % 4]


def best_matching(edges):
    """(vertices, weight of a minimum perfect matching or None)."""
    vs = sorted({i for e in edges for i in e})
    if not vs or len(vs) % 2 or len(vs) > 12:
        return vs, None
    cost = [[edges[frozenset((a, b))][0] if a != b and frozenset((a, b)) in edges else None for b in vs] for a in vs]
    g = nx.Graph([tuple(e) for e in edges])
    if 2 * len(nx.max_weight_matching(g, maxcardinality=True)) != len(vs):
        return vs, None
    return vs, min_weight_perfect_matching(cost)


def compare_match(what, mg, edges, vs):
    back = {node_name(i): i for i in range(40)}
    got = Counter(back.get(x, x) for x in mg.graph.nodes())
    require(got == Counter(vs), "%s: the graph has the nodes %s, inserted %s", what, sorted(map(str, got.elements())), vs)
    for e, (w, path) in edges.items():
        i, j = sorted(e)
        for pair in ((node_name(i), node_name(j)), (node_name(j), node_name(i))):
            require(mg.edge_weight(pair) == w, "%s: weight of %s is %s, inserted %s", what, pair, mg.edge_weight(pair), w)
            require(list(mg.edge_path(pair)) == path, "%s: path of %s is %s, inserted %s", what, pair, mg.edge_path(pair), path)


def check_match(case, ctx):
    views = {n: c("primal") for n, c in MATCH.items()}
    edges, matched = {}, 0
    for op, a, b, h in case["ops"]:
        i, j = a % case["n"], b % case["n"]
        if op == "edge":
            if i == j:
                continue
            w = [h % 7, h, h / 8.0, 0][(a + b + h) % 4]
            path = [] if h % 3 == 0 else [node_name(i), "mid%d" % h, node_name(j)]
            for mg in views.values():
                if path:
                    mg.add_edge((node_name(i), node_name(j)), w, list(path))
                else:
                    mg.add_edge((node_name(i), node_name(j)), w)
            if frozenset((i, j)) in edges:
                ctx.label("inserted-again")
            edges[frozenset((i, j))] = (w, path)
        elif op == "absent":
            if i != j and frozenset((i, j)) not in edges:
                for name, mg in views.items():
                    fails(lambda: mg.edge_weight((node_name(i), node_name(j))), None, "%s: weight of the absent edge %s-%s", name, i, j)
                    fails(lambda: mg.edge_path((node_name(i), node_name(j))), None, "%s: path of the absent edge %s-%s", name, i, j)
        elif op == "convert":
            for name, mg in list(views.items()):
                if hasattr(mg, "to_nx"):
                    new = mg.to_nx()
                    require(isinstance(new, NxMatchingGraph) and new.ec == mg.ec, "%s: to_nx returned %s", name, type(new).__name__)
                    del views[name]
                    views[name + "->networkx"] = new
            ctx.mark()
            ctx.label("converted")
        vs, best = best_matching(edges)
        if op == "match" and best is not None:
            for name, mg in views.items():
                m = list(mg.min_weight_perfect_matching())
                back = {node_name(i): i for i in range(40)}
                pairs = [frozenset(back[x] for x in e) for e in m]
                require(Counter(x for p in pairs for x in p) == Counter(vs) and all(p in edges for p in pairs), "%s: %s is not a perfect matching", name, m)
                total = sum(edges[p][0] for p in pairs)
                require(abs(total - best) <= 1e-5 * (1 + best) if "lemon" in name else abs(total - best) <= 1e-9 * (1 + best), "%s: weight %s, the minimum is %s", name, total, best)
                require(mg.total_weight_of(m) == total, "%s: total_weight_of is %s, the sum %s", name, mg.total_weight_of(m), total)
            matched += 1
        for name, mg in views.items():
            compare_match(name, mg, edges, vs)
    ctx.mark(matched > 1)
    ctx.label("matchings%d" % min(matched, 4))


def op(name):
    return st.tuples(st.just(name), st.integers(0, 60), st.integers(0, 60), st.integers(0, 200))


@st.composite
def stab_cases(draw):
    start = draw(st.lists(st.one_of(op("stab"), op("low"), op("high"), op("stab")), min_size=1, max_size=8))
    mixed = st.one_of(*[op(o) for o in ("edge", "edge", "edge", "edge", "weights", "paths", "paths", "poke", "flip", "absent", "stab", "low", "high", "node", "convert")])
    return {"ops": start + draw(st.lists(mixed, min_size=1, max_size=22)) + [draw(op("weights")), draw(op("paths"))]}


@st.composite
def connect_cases(draw):
    q = st.integers(0, 13)
    return {"stabs": draw(st.lists(st.lists(q, min_size=1, max_size=6), min_size=1, max_size=8)), "low": draw(st.lists(q, max_size=4)),
            "high": draw(st.lists(q, max_size=4))}


@st.composite
def match_cases(draw):
    n = draw(st.sampled_from([2, 4, 6, 8, 5]))
    order = draw(st.permutations(list(range(n))))
    planted = [("edge", order[k], order[k + 1], draw(st.integers(0, 200))) for k in range(0, n - 1, 2)]
    rest = draw(st.lists(st.one_of(*[op(o) for o in ("edge", "edge", "edge", "match", "match", "absent", "convert")]), max_size=24))
    return {"n": n, "ops": planted + rest + [("match", 0, 0, 0)]}


SUBS = [
    Sub("stabilizer_graph_histories", check_stab, stab_cases, quick=5000, thorough=80000, share=1.5),
    Sub("connect_nodes", check_connect, connect_cases, quick=3000, thorough=40000, share=0.5),
    Sub("matching_graph_histories", check_match, match_cases, quick=5000, thorough=80000, share=1.5),
]
