"""C29: union-find clusters are an exact disjoint-set, grow as documented and end in a spanning forest."""
from harness import lemon

lemon.install()

import types
from collections import Counter

import numpy as np
from hypothesis import strategies as st

from flamingpy.codes import EGraph, NxStabilizerGraph, RxStabilizerGraph, Stabilizer
from flamingpy.decoders.unionfind.algos import initialize_cluster_trees, peeling, uf_decode, union, union_find
from flamingpy.decoders.unionfind.uf_classes import Boundary, Node, Root, Support
from harness import fp, gen
from harness.core import Sub, require

PROPERTY = "C29"
RULE = ("(a) histories of up to 40 cluster creations, node additions, unions, root and parity queries on the cluster-tree classes, compared after "
        "every step with a dictionary of sets (links are read without calling the code); (b) codes with generated syndromes and erasures: initial "
        "clusters, grown edges and the spanning forest compared with an own synchronous half-edge growth; (c) random supports; non-trivial = two "
        "clusters of several nodes merged, or some cluster grew")
ASSUMPTIONS = ["periodic axes have length >= 3, where each qubit labels its own stabilizer-graph edge"]


# ------------------------------------------------------------------ histories on the cluster trees
class Model:
    def __init__(self):
        self.nodes = []         # every node made
        self.set_of = {}        # node position -> set id
        self.sets = {}          # set id -> dict(members, parity, boundary, root)
        self.lone = []          # nodes without a cluster


def structural_root(node):
    """Follow the parent links."""
    seen = 0
    while not isinstance(node, Root):
        require(node.parent is not node, "a clustered node is its own parent")
        node = node.parent
        seen += 1
        require(seen < 10 ** 4, "the parent links form a cycle")
    return node


def compare(m, what):
    roots = {}
    for k, node in enumerate(m.nodes):
        s = m.set_of[k]
        r = structural_root(node)
        if s in roots:
            require(roots[s] is r, "%s: nodes that were joined have different roots", what)
        roots[s] = r
    require(len({id(r) for r in roots.values()}) == len(roots), "%s: nodes that were never joined share a root", what)
    for s, d in m.sets.items():
        r = roots[s]
        require(r.size == len(d["members"]), "%s: a cluster of %d nodes has size %s", what, len(d["members"]), r.size)
        require(r.parity == d["parity"], "%s: the parity of a cluster is %s, should be %s", what, r.parity, d["parity"])
        if d["boundary"]:
            require(any(r.boundary is m.nodes[k] for k in d["boundary"]), "%s: the boundary of a cluster is not one of its boundary nodes", what)
        else:
            require(r.boundary is None, "%s: a cluster without boundary node has boundary %s", what, r.boundary)
        require(r.node.parent is r, "%s: the node of a root is not its child", what)
        # the tree hangs together downwards as well
        found, stack = [], [r.node]
        while stack:
            x = stack.pop()
            found.append(id(x))
            require(len(found) <= len(d["members"]), "%s: a tree reaches more nodes than its cluster has", what)
            for c in x.children:
                require(c.parent is x, "%s: a child does not point back to its parent", what)
                stack.append(c)
        require(Counter(found) == Counter(id(m.nodes[k]) for k in d["members"]), "%s: the children links do not reach exactly the cluster", what)
        require(set(r.children) == set(r.node.children), "%s: children of the root", what)


def check_history(case, ctx):
    m = Model()
    merged = False
    for step, op in enumerate(case["ops"]):
        kind, i, j = op
        what = "step %d (%s)" % (step, kind)
        if kind in ("new0", "new1", "newb"):
            node = Node(("n", len(m.nodes)))
            require(node.find_root() is None and node.parity() is None, "%s: a node without cluster has a root", what)
            par = {"new0": 0, "new1": 1, "newb": "boundary"}[kind]
            root = Root(node) if kind == "new1" and i % 2 else Root(node, parity=par)
            k = len(m.nodes)
            m.nodes.append(node)
            m.set_of[k] = k
            m.sets[k] = {"members": [k], "parity": 1 if kind == "new1" else 0, "boundary": [k] if kind == "newb" else []}
            require(root.node is node and node.find_root() is root, "%s: a new cluster", what)
        elif kind == "deep":    # unions of equally large clusters, without a root query in between, make the deepest trees
            level = []
            for _ in range(1 << i):
                k = len(m.nodes)
                node = Node(("n", k))
                m.nodes.append(node)
                level.append(Root(node, parity=k % 2))
            first, n = len(m.nodes) - (1 << i), 1 << i
            while len(level) > 1:
                pairs = zip(level[::2], level[1::2])
                level = [ra for ra, rb in pairs if union(ra, rb) is not None]
            require(len(level) == 1, "%s: unions of different clusters returned None", what)
            for k in range(first, first + n):
                m.set_of[k] = first
            m.sets[first] = {"members": list(range(first, first + n)), "parity": sum(k % 2 for k in range(first, first + n)) % 2, "boundary": []}
            merged = True
            compare(m, what)
            # query the deepest nodes first
            def depth(x):
                d = 0
                while not isinstance(x.parent, Root):
                    x, d = x.parent, d + 1
                return d
            order = sorted(range(first, first + n), key=lambda k: -depth(m.nodes[k]))
            for k in order[: 1 + j % 4]:
                r = structural_root(m.nodes[k])
                require(m.nodes[k].find_root() is r, "%s: find_root of a deep node", what)
                compare(m, "%s, find_root of a deep node" % what)
        elif not m.nodes:
            continue
        else:
            a, b = i % len(m.nodes), j % len(m.nodes)
            sa, sb = m.set_of[a], m.set_of[b]
            if kind in ("add", "addroot"):
                node = Node(("n", len(m.nodes)))
                if kind == "add":
                    m.nodes[a].add_child(node)
                else:
                    structural_root(m.nodes[a]).add_child(node)
                k = len(m.nodes)
                m.nodes.append(node)
                m.set_of[k] = sa
                m.sets[sa]["members"].append(k)
            elif kind == "find":
                want = structural_root(m.nodes[a])
                require(m.nodes[a].find_root() is want, "%s: find_root returned another root", what)
            elif kind == "parity":
                got = m.nodes[a].parity()
                require(got == m.sets[sa]["parity"], "%s: parity %r, should be %d", what, got, m.sets[sa]["parity"])
            elif kind == "union":
                ra, rb = (m.nodes[a].find_root(), m.nodes[b].find_root()) if (i + j) % 3 else (structural_root(m.nodes[a]), structural_root(m.nodes[b]))
                na, nb = ra.node, rb.node
                size = {id(na): len(m.sets[sa]["members"]), id(nb): len(m.sets[sb]["members"])}
                got = union(ra, rb)
                if sa == sb:
                    require(got is None, "%s: a union of a cluster with itself returned %s", what, got)
                else:
                    merged = merged or min(size.values()) > 1
                    require(isinstance(got, tuple) and {id(x) for x in got} == {id(na), id(nb)}, "%s: the union returned %s", what, got)
                    big, small = got
                    require(size[id(big)] >= size[id(small)], "%s: the smaller cluster absorbed the larger", what)
                    if size[id(na)] == size[id(nb)]:
                        require(big is na, "%s: with equal sizes the first cluster must absorb the second", what)
                    d = {"members": m.sets[sa]["members"] + m.sets[sb]["members"], "parity": m.sets[sa]["parity"] ^ m.sets[sb]["parity"],
                         "boundary": m.sets[sa]["boundary"] + m.sets[sb]["boundary"]}
                    del m.sets[sb]
                    m.sets[sa] = d
                    for k in d["members"]:
                        m.set_of[k] = sa
                    require(structural_root(big) is (ra if big is na else rb), "%s: the root of the union is not that of the larger cluster", what)
        compare(m, what)
        ctx.label(kind)
    for k, node in enumerate(m.nodes):
        r = structural_root(node)
        require(node.find_root() is r, "find_root at the end")
        if k % (1 + len(m.nodes) // 40):
            continue
        compare(m, "after the final find_root of node %d" % k)
    ctx.mark(merged)


@st.composite
def histories(draw):
    op = st.tuples(st.sampled_from(["new0", "new1", "newb", "new1", "add", "addroot", "find", "find", "parity", "union", "union", "union", "union"]),
                   st.integers(0, 30), st.integers(0, 30))
    start = draw(st.integers(1, 12))
    kinds = draw(st.lists(st.sampled_from(["new0", "new1", "newb"]), min_size=start, max_size=start))
    return {"ops": [[k, 1, 0] for k in kinds] + [list(o) for o in draw(st.lists(op, min_size=draw(st.sampled_from([0, 8, 25])), max_size=40))]}


@st.composite
def deep_histories(draw):
    c = draw(histories())
    ops = c["ops"]
    for _ in range(draw(st.integers(1, 2))):
        ops.insert(draw(st.integers(0, len(ops))), ["deep", draw(st.integers(2, 8)), draw(st.integers(0, 30))])
    # unions between old and new clusters
    return {"ops": [[k, i * 9 if k in ("union", "find") else i, j * 7] if k not in ("deep",) else [k, i, j] for k, i, j in ops]}


# ------------------------------------------------------------------ clusters of a code
class Growth:
    """Synchronous half-edge growth on plain data."""

    def __init__(self, ref, flips, erased):
        self.ref = ref
        self.odd = ref.syndrome(flips)
        self.ends = {}
        for q in ref.qubits:
            cs = ref.of_qubit[q]
            self.ends[q] = tuple(cs) if len(cs) == 2 else (cs[0], ("point", q))
        self.verts = set(ref.cells) | {e[1] for e in self.ends.values() if e[1][0] == "point"}
        self.status = {q: 2 if q in erased else 0 for q in ref.qubits}
        self.inc = {v: [] for v in self.verts}
        for q, (a, b) in self.ends.items():
            self.inc[a].append(q)
            self.inc[b].append(q)

    def components(self):
        parent = {v: v for v in self.verts}

        def find(x):
            while parent[x] != x:
                parent[x] = parent[parent[x]]
                x = parent[x]
            return x

        for q, (a, b) in self.ends.items():
            if self.status[q] == 2:
                parent[find(a)] = find(b)
        out = {}
        for v in self.verts:
            out.setdefault(find(v), set()).add(v)
        return list(out.values())

    def charged(self, comp):
        return sum(v in self.odd for v in comp) % 2 == 1 and not any(v[0] == "point" for v in comp)

    def run(self):
        rounds = 0
        while True:
            bad = [c for c in self.components() if self.charged(c)]
            if not bad:
                return rounds
            rounds += 1
            add = Counter(q for c in bad for v in c for q in self.inc[v])
            for q, k in add.items():
                self.status[q] = min(2, self.status[q] + k)


def name(node, sup2cell):
    return sup2cell[frozenset(node.coords())] if isinstance(node, Stabilizer) else ("point", node)


def prepare(case):
    ref = fp.ref(case)
    rng = np.random.default_rng(case["seed"])
    qs = ref.qubits
    k = min(len(qs), case["errors"])
    flips = {qs[int(i)] for i in rng.choice(len(qs), size=k, replace=False)} if k else set()
    erased = {q for q in qs if rng.random() < case["erase"]}
    if case["near"] and qs:
        c = qs[int(rng.integers(len(qs)))]
        pool = sorted(qs, key=lambda q: (sum(abs(a - b) for a, b in zip(q, c)), q))[: 3 * max(1, case["errors"])]
        flips = {pool[int(i)] for i in rng.choice(len(pool), size=min(len(pool), case["errors"]), replace=False)}
    for q in sorted(erased):
        if rng.random() < 0.3:
            flips ^= {q}
    code = fp.used(case, backend=case["backend"])
    fp.set_bits(code, flips)
    for q in qs:
        code.graph.nodes[q]["weight"] = -1 if q in erased else 2
    sg = getattr(code, case["ec"] + "_stab_graph")
    sg.assign_weights(code)
    return ref, code, sg, flips, erased


def walk(root):
    found, stack = [], [root.node]
    while stack:
        x = stack.pop()
        found.append(x)
        require(len(found) < 10 ** 5, "endless tree")
        stack.extend(x.children)
    return found


def status_of(support, sg_edges, sup2cell, growth):
    words = {"empty": 0, "half-grown": 1, "grown": 2}
    pair = {frozenset(e): q for q, e in growth.ends.items()}
    out = {}
    for e, s in support.status.items():
        a, b = (name(x, sup2cell) for x in e)
        key = frozenset((a, b))
        require(key in pair, "the support table has an edge %s the code does not", sorted(map(str, key)))
        out[pair[key]] = words[s]
    require(len(out) == len(growth.ends), "the support table has %d edges, the code %d", len(out), len(growth.ends))
    return out


def check_code(case, ctx):
    ref, code, sg, flips, erased = prepare(case)
    sup2cell = {s: c for c, s in ref.stabs.items()}
    g = Growth(ref, flips, erased)
    start = g.components()

    # initial clusters
    node_dict, trees, odd = initialize_cluster_trees(sg)
    require({name(n, sup2cell) for n in node_dict} == g.verts and len(node_dict) == len(g.verts), "the nodes of the cluster trees are not those of the graph")
    require(all(node.id == n for n, node in node_dict.items()), "a node of the cluster trees has another id")
    got = {frozenset(name(x.id, sup2cell) for x in walk(t)): t for t in trees}
    require(len(trees) == len(got) and set(got) == {frozenset(c) for c in start}, "the initial clusters are not the components of the erasure")
    for comp, t in got.items():
        points = [v for v in comp if v[0] == "point"]
        require(t.size == len(comp), "initial size %s of a cluster of %d", t.size, len(comp))
        require(t.parity == sum(v in g.odd for v in comp) % 2, "initial parity")
        require((t.boundary is None) == (not points), "initial boundary")
    require({id(t) for t in odd} == {id(t) for c, t in got.items() if g.charged(c)} and len(odd) == len({id(t) for t in odd}), "the odd clusters are not those to be grown")

    # support and boundaries
    support = Support(sg)
    st0 = status_of(support, None, sup2cell, g)
    require(st0 == g.status, "the initial support table is wrong")
    boundary = {t.node: Boundary(t, support, sg) for t in trees}
    for comp, t in got.items():
        want = {v for v in comp if any(g.status[q] != 2 for q in g.inc[v])}
        require({name(x.id, sup2cell) for x in boundary[t.node].nodes} == want, "the boundary of an initial cluster is wrong")

    # growth
    union_find(odd, boundary, sg, support, node_dict)
    rounds = g.run()
    st1 = status_of(support, None, sup2cell, g)
    diff = [q for q in st1 if st1[q] != g.status[q]]
    require(not diff, "after growth edge %s is %s, should be %s (%d edges differ)", diff[0] if diff else None, st1[diff[0]] if diff else None, g.status[diff[0]] if diff else None, len(diff))
    comps = {frozenset(c) for c in g.components()}
    by_root = {}
    for n, node in node_dict.items():
        by_root.setdefault(id(structural_root(node)), []).append(n)
    roots = {id(structural_root(node)): structural_root(node) for node in node_dict.values()}
    require({frozenset(name(n, sup2cell) for n in v) for v in by_root.values()} == comps, "the final clusters are not the components of the grown edges")
    for k, v in by_root.items():
        c = {name(n, sup2cell) for n in v}
        require(roots[k].size == len(c) and roots[k].parity == sum(x in g.odd for x in c) % 2, "size or parity of a final cluster")
        require((roots[k].boundary is None) == (not any(x[0] == "point" for x in c)), "boundary of a final cluster")
        require(not roots[k].parity or roots[k].boundary, "a final cluster is odd away from the boundary")

    # the forest that is decoded
    forest, parity = uf_decode(code, case["ec"])
    names = {i: name(n, sup2cell) for i, n in zip(forest.node_indices(), forest.nodes())}
    require(len(set(names.values())) == len(names), "a vertex appears twice in the forest")
    require(set(names.values()) == {v for c in comps if len(c) > 1 for v in c}, "the forest spans other vertices than the grown clusters")
    tree = {v: v for v in names.values()}

    def find(x):
        while tree[x] != x:
            tree[x] = tree[tree[x]]
            x = tree[x]
        return x

    for a, b, d in forest.weighted_edge_list():
        q = d["common_vertex"]
        require(set(g.ends[q]) == {names[a], names[b]}, "forest edge labelled by the wrong qubit %s", q)
        require(g.status[q] == 2, "forest edge %s was never grown", q)
        ra, rb = find(names[a]), find(names[b])
        require(ra != rb, "the forest has a cycle")
        tree[ra] = rb
    total = {}
    for v in names.values():
        total.setdefault(find(v), set()).add(v)
    require({frozenset(v) for v in total.values()} == {c for c in comps if len(c) > 1}, "the forest does not connect each cluster")
    require(set(parity) == set(names), "the parities do not cover the forest")
    for i, v in names.items():
        if v[0] != "point":
            require(parity[i] == (v in g.odd), "parity of %s in the forest is %s", v, parity[i])
        require(parity[i] in (0, 1), "parity %r", parity[i])
    at = {v: i for i, v in names.items()}
    for comp in total.values():
        require(sum(parity[at[v]] for v in comp) % 2 == 0, "a tree of the forest has odd parity")
        require(sum(parity[at[v]] for v in comp if v[0] == "point") == sum(v in g.odd for v in comp) % 2, "more than one boundary point carries parity")
    rec = peeling(forest, parity)
    require(ref.syndrome(rec) == g.odd, "peeling the forest does not reproduce the syndrome")
    require(all(g.status[q] == 2 for q in rec), "peeling left the grown clusters")
    ctx.mark(rounds > 0)
    ctx.label(case["ec"] + "-" + case["b"], "rounds%d" % min(rounds, 5), "erased" if erased else "no-erasure")


@st.composite
def codes(draw):
    c = draw(gen.code_spec(lo=2, hi=8, periodic_lo=3, max_volume=draw(st.sampled_from([40, 160])), long=30))
    c.update({"seed": draw(gen.seeds()), "errors": draw(st.integers(0, 14)), "erase": draw(st.sampled_from([0, 0, 0.05, 0.15, 0.3, 0.6, 1.0])),
              "near": draw(st.booleans()), "backend": draw(st.sampled_from(["rustworkx", "networkx"]))})
    return c


# ------------------------------------------------------------------ support tables by themselves
def table_graph(edges, backend):
    """A stabilizer graph with these edges (and the terminals at vertices 0 and 1)."""
    g = {"networkx": NxStabilizerGraph, "rustworkx": RxStabilizerGraph}[backend]()
    code = types.SimpleNamespace(graph=EGraph())
    for v in sorted({v for e in edges for v in e[:2]} | {VERTEX(0), VERTEX(1)}):
        g.add_node(v)
    g.add_edge("low", VERTEX(0))
    for a, b, w, q in edges:
        code.graph.add_node(q, weight=w)
        g.add_edge(a, b, common_vertex=q)
    g.add_edge(VERTEX(1), "high")
    g.assign_weights(code)
    return g


def VERTEX(k):
    return (2 * k, 1, 1)


def check_support(case, ctx):
    edges, seen = [], set()
    for k, (a, b, w) in enumerate(case["edges"]):
        a, b, k = VERTEX(a), VERTEX(b), (2 * k + 1, 0, 0)
        if a != b and frozenset((a, b)) not in seen:
            seen.add(frozenset((a, b)))
            edges.append((a, b, w, k))
    g = table_graph(edges, case["backend"])
    s = Support(g)
    model = {frozenset((a, b)): 2 if w == -1 else 0 for a, b, w, _ in edges}
    words = ["empty", "half-grown", "grown"]
    require(s.status == {e: words[v] for e, v in model.items()}, "the initial support table is %s", s.status)
    for k, flip in case["grow"]:
        if not edges:
            break
        a, b, _, _ = edges[k % len(edges)]
        e = (b, a) if flip else (a, b)
        got = s.grow(e)
        key = frozenset(e)
        model[key] += model[key] < 2
        full = model[key] == 2 and got is not None
        before = words.index(s.status[key])
        require(before == model[key], "edge %s is %s, should be %s", e, s.status[key], words[model[key]])
        if got is not None:
            require(full and frozenset(got) == key, "growing %s returned %s", e, got)
            require((key, "told") not in seen, "edge %s was reported as grown twice", e)
            seen.add((key, "told"))
        else:
            init = next(w for x, y, w, _ in edges if frozenset((x, y)) == key)
            require(model[key] < 2 or init == -1 or (key, "told") in seen, "edge %s became grown silently", e)
        require(s.status == {x: words[v] for x, v in model.items()}, "growing %s changed another edge", e)
    grown = {e for e, v in model.items() if v == 2}
    label = {frozenset((a, b)): q for a, b, _, q in edges}
    forest = s.span_forest(g) if case["labels"] else s.span_forest()
    idx = dict(zip(forest.node_indices(), forest.nodes()))
    verts = {v for e in grown for v in e}
    require(sorted(idx.values()) == sorted(verts), "the forest has vertices %s, should have %s", sorted(idx.values()), sorted(verts))

    def comps(es):
        p = {v: v for v in verts}

        def find(x):
            while p[x] != x:
                x = p[x]
            return x
        merges = 0
        for a, b in es:
            ra, rb = find(a), find(b)
            merges += ra != rb
            p[ra] = rb
        return frozenset(frozenset(v for v in verts if find(v) == r) for r in {find(v) for v in verts}), merges

    es = [(idx[a], idx[b]) for a, b, _ in forest.weighted_edge_list()]
    require(all(frozenset(e) in grown for e in es), "the forest has an edge that is not grown")
    part, merges = comps(es)
    require(merges == len(es), "the forest has a cycle")
    require(part == comps([tuple(e) for e in grown])[0], "the forest does not span the grown clusters")
    for a, b, d in forest.weighted_edge_list():
        if case["labels"]:
            require(d["common_vertex"] == label[frozenset((idx[a], idx[b]))], "forest edge labelled %s", d)
        else:
            require(d is None, "forest edge labelled %s without a graph", d)
    ctx.mark(len(es) < len(grown) and len(es) > 0)


@st.composite
def supports(draw):
    top = draw(st.sampled_from([3, 5, 8]))
    v = st.integers(0, top)
    m = draw(st.sampled_from([0, 8, 16]))
    return {"edges": [list(t) for t in draw(st.lists(st.tuples(v, v, st.sampled_from([2, 2, 1, -1])), min_size=m, max_size=24))],
            "grow": [list(t) for t in draw(st.lists(st.tuples(st.integers(0, 30), st.booleans()), min_size=2 * m, max_size=50))], "labels": draw(st.booleans()),
            "backend": draw(st.sampled_from(["rustworkx", "networkx"]))}


SUBS = [Sub("histories", check_history, histories, quick=6000, thorough=120000), Sub("codes", check_code, codes, quick=1500, thorough=40000, share=1.5),
        Sub("deep", check_history, deep_histories, quick=400, thorough=8000, share=0.5),
        Sub("supports", check_support, supports, quick=3000, thorough=60000, share=0.5)]
