"""C12: graph-state bookkeeping stays coherent under any edit history (model-based histories)."""
import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

from flamingpy.codes.graphs import EGraph
from harness.core import Sub, Violation, require

PROPERTY = "C12"
RULE = ("histories of up to 25 (thorough: 40) additions, removals, rejected edits, index and adjacency queries on ordinary and macronode "
        "graphs, compared after every step with a dictionary model; non-trivial = the history has at least one accepted removal or "
        "addition made while indices exist, followed by an adjacency query")
REJECT = (ValueError, TypeError, KeyError, IndexError, Exception)


class Model:
    def __init__(self, g):
        self.adj = {n: set(g[n]) for n in g}
        self.attr = {n: dict(d) for n, d in g.nodes(data=True)}
        self.eattr = {frozenset((a, b)): dict(d) for a, b, d in g.edges(data=True)}
        self.macro = None if g.macro_to_micro is None else {k: list(v) for k, v in g.macro_to_micro.items()}
        self.ind = None

    def take_indices(self, g):
        """First generation: check the documented order, then adopt."""
        ti = dict(g.to_indices)
        n = len(self.adj)
        require(set(ti) == set(self.adj), "generated indices do not cover the qubits")
        require(sorted(ti.values()) == list(range(n)), "generated indices are not 0..N-1")
        if self.macro is None:
            require([p for p, _ in sorted(ti.items(), key=lambda kv: kv[1])] == sorted(self.adj), "indices are not in sorted order")
        else:
            pos = 0
            for k in sorted(self.macro):
                m = self.macro[k]
                require({ti[p] for p in m} == set(range(pos, pos + len(m))), "micronodes of %s are not contiguous", k)
                pos += len(m)
        self.ind = ti


def compare(g, m, what):
    require(set(g.nodes) == set(m.adj), "%s: qubits differ from the history", what)
    require(len(g) == len(m.adj), "%s: order", what)
    for n in m.adj:
        require(set(g[n]) == m.adj[n], "%s: neighbours of %s are %s, should be %s", what, n, sorted(g[n]), sorted(m.adj[n]))
        if n in m.attr:
            require(dict(g.nodes[n]) == m.attr[n], "%s: attributes of %s changed", what, n)
    for e, d in m.eattr.items():
        a, b = tuple(e)
        require(dict(g.edges[a, b]) == d, "%s: attributes of edge %s changed", what, sorted(e))
    if m.macro is None:
        require(g.macro_to_micro is None, "%s: macronode dictionary appeared", what)
    else:
        got = {k: sorted(v) for k, v in g.macro_to_micro.items() if v}
        require(got == {k: sorted(v) for k, v in m.macro.items() if v}, "%s: macronode dictionary %s, should be %s", what, got, m.macro)
    if m.ind is None:
        if g.to_indices is not None:
            m.take_indices(g)
    require((g.to_indices is None) == (m.ind is None) and (g.to_points is None) == (m.ind is None), "%s: index maps vanished", what)
    if m.ind is not None:
        require(dict(g.to_indices) == m.ind, "%s: indices are %s, should be %s", what, g.to_indices, m.ind)
        require(dict(g.to_points) == {v: k for k, v in m.ind.items()}, "%s: index-to-point map is not the inverse", what)


def adjacency(g, m, sparse, what):
    got = g.adj_generator() if sparse is None else g.adj_generator(sparse=sparse)
    if m.ind is None:
        require(g.to_indices is not None, "adjacency without indices")
        m.take_indices(g)
    require(sp.issparse(got) if sparse is not False else isinstance(got, np.ndarray), "%s: adjacency is a %s", what, type(got).__name__)
    order = sorted(m.ind, key=m.ind.get)
    A = np.zeros((len(order), len(order)))
    for i, a in enumerate(order):
        for b in m.adj[a]:
            A[i, order.index(b)] = m.eattr.get(frozenset((a, b)), {}).get("weight", 1)
    D = got.toarray() if sp.issparse(got) else got
    require(D.shape == A.shape and np.array_equal(D, A), "%s: adjacency matrix (sparse=%s) is not that of the graph", what, sparse)
    keep = g.adj_mat.toarray() if sp.issparse(g.adj_mat) else g.adj_mat
    require(np.array_equal(keep, A), "%s: stored adjacency matrix is stale", what)


def start_graph(case, rng):
    kind = case["start"]
    if kind == "empty":
        return EGraph()
    n = case["n"]
    g = EGraph()
    pts = set()
    while len(pts) < n:
        pts.add(tuple(int(v) for v in rng.integers(case["low"], case["low"] + 4, size=3)))
    pts = [tuple(p) for p in rng.permutation(sorted(pts)).tolist()]
    for k, p in enumerate(pts):
        g.add_node(p, tag=k)
    pairs = [(i, j) for i in range(n) for j in range(i)]
    for i, j in pairs:
        if rng.random() < 0.4:
            a, b = pts[i], pts[j]
            if kind == "macro" and (g.degree(a) >= 4 or g.degree(b) >= 4 or not _axis_neighbours(a, b)):
                continue
            g.add_edge(a, b, weight=int(rng.choice([-1, 1]))) if rng.random() < 0.7 else g.add_edge(a, b)
    if kind == "macro":
        g.remove_nodes_from([p for p in pts if g.degree(p) == 0])
        if len(g) == 0:
            g.add_edge((0, 0, 0), (1, 0, 0))
        return g.macronize(pad_boundary=case["pad"])
    return g


def _axis_neighbours(a, b):
    return sum(abs(x - y) for x, y in zip(a, b)) == 1


def pick(seq, k):
    return seq[k % len(seq)] if seq else None


def new_position(op, m, macro):
    x = op["pos"]
    if macro and op["frac"]:
        base = pick(sorted(m.macro), op["k"]) or (0, 0, 0)
        if op["far"]:
            base = (base[0] + (10 if op["k"] % 2 else -10), base[1], base[2])
        off = (op["frac"] / 100.0, 0.0, 0.013)
        return tuple(float(b + o) for b, o in zip(base, off))
    return tuple(x)


def apply(g, m, op, step):
    """Run one operation on both; returns True if an edit was accepted."""
    kind = op["op"]
    what = "step %d (%s)" % (step, kind)
    nodes = sorted(m.adj)
    if kind == "index":
        ti = g.index_generator()
        if m.ind is None:
            m.take_indices(g)
        require(dict(ti) == m.ind, "%s: returned %s, indices are %s", what, ti, m.ind)
    elif kind == "adj":
        if nodes:  # networkx gives no sparse adjacency matrix for the empty graph
            adjacency(g, m, op["sparse"], what)
    elif kind == "slice":
        ax, num = op["k"] % 3, op["pos"][0]
        got = g.slice_coords("xyz"[ax], num)
        require(sorted(got) == [p for p in nodes if p[ax] == num], "%s: slice %s=%s is %s", what, "xyz"[ax], num, got)
    elif kind == "lc":
        if 0 < len(nodes) <= 5:
            other = EGraph([(i, i + 1) for i in range(len(nodes) - 1)])
            other.add_nodes_from(range(len(nodes)))
            g.is_lc_equivalent(other)
    elif kind == "macronize":
        if m.macro is None and all(m.adj[n] for n in nodes) and all(sum(a) == sum(a) for a in nodes):
            g.macronize()
    elif kind == "add":
        return add(g, m, op, what, nodes)
    elif kind == "rm":
        return remove(g, m, op, what, nodes)
    return False


def add(g, m, op, what, nodes):
    mode, nmode = op["mode"], op["nmode"]
    macro = m.macro is not None
    reject = False
    if mode == "new":
        q = new_position(op, m, macro)
        if q in m.adj:
            reject = True
        arg = q
    elif mode == "auto":
        q = None
        reject = not nodes
        if nodes:
            q = (max(p[0] for p in nodes) + 1, 0, 0)
        arg = None
    elif mode == "existing" and nodes:
        arg = q = pick(nodes, op["k"])
        reject = True
    elif mode == "len":
        arg, q, reject = (1, 2, 3, 4), None, True
    else:
        arg, q, reject = op["k"], None, True
    nbrs, expected = None, []
    picked = list(dict.fromkeys(pick(nodes, k) for k in op["ks"])) if nodes else []
    if nmode == "empty":
        nbrs = []
    elif nmode == "pos":
        nbrs = expected = picked
    elif nmode == "idx":
        ind = m.ind
        if ind is None and picked and not reject:
            # the first use of indices generates them (the sorted order is checked when adopted)
            if not macro:
                ind = {p: i for i, p in enumerate(nodes)}
            else:
                g.index_generator()
                m.take_indices(g)
                ind = m.ind
        if ind is None:
            ind = {p: i for i, p in enumerate(nodes)}
        nbrs, expected = [ind[p] for p in picked], picked
    elif nmode == "unknown_pos":
        nbrs = picked + [(77, 77, 77)]
        reject = True
    elif nmode == "unknown_idx":
        if m.ind is None and not reject:
            g.index_generator()
            m.take_indices(g)
        nbrs = [(m.ind or {}).get(p, 0) for p in picked] + [999]
        reject = True
    elif nmode == "bad":
        nbrs, reject = ["a", "b"], True
    use_macro = op["macro"]
    if use_macro and not macro:
        reject = True
    # give the old state a snapshot through the model: nothing in it changes on rejection
    keep = None if nbrs is None else list(nbrs)
    try:
        kw = {}
        if nbrs is not None:
            kw["neighbors"] = nbrs
        if use_macro is not None:
            kw["add_to_macronode"] = use_macro
        if arg is None and op["k"] % 2:
            g.add_qubit(**kw)
        else:
            g.add_qubit(arg, **kw)
    except Violation:
        raise
    except Exception as e:
        require(reject, "%s: a valid addition of %s with neighbours %s was rejected: %s: %s", what, arg, nbrs, type(e).__name__, e)
        return False
    require(not reject, "%s: an invalid addition of %s with neighbours %s was accepted", what, arg, nbrs)
    require(keep is None or nbrs == keep, "%s: the neighbour list was changed", what)
    if m.ind is None and g.to_indices is not None:
        # indices were generated to resolve neighbours; they must be those of the old graph plus the new qubit
        ti = dict(g.to_indices)
        require(q in ti, "%s: the new qubit has no index", what)
        fresh = ti.pop(q)
        require(ti == {p: i for i, p in enumerate(nodes)} or macro, "%s: indices are not in sorted order", what)
        require(fresh not in ti.values(), "%s: index %s reused", what, fresh)
        m.ind = dict(g.to_indices)
    elif m.ind is not None:
        fresh = g.to_indices.get(q) if g.to_indices is not None else None
        require(isinstance(fresh, int) and fresh >= 0 and fresh not in m.ind.values(), "%s: the new qubit got index %r", what, fresh)
        m.ind[q] = fresh
    m.adj[q] = set(expected)
    for p in expected:
        m.adj[p].add(q)
    if use_macro:
        m.macro.setdefault(tuple(round(i) for i in q), []).append(q)
    return True


def remove(g, m, op, what, nodes):
    mode = op["mode"]
    reject = False
    q = None
    if mode in ("pos", "idx") and not nodes:
        mode = "unknown_pos"
    if mode == "pos":
        arg = q = pick(nodes, op["k"])
    elif mode == "idx":
        q = pick(nodes, op["k"])
        if m.ind is None:
            arg, reject = op["k"] % len(nodes), True
        else:
            arg = m.ind[q]
    elif mode == "unknown_pos":
        arg, reject = (88, 88, 88), True
    elif mode == "unknown_idx":
        arg, reject = 10 ** 6, True
    else:
        arg, reject = "s", True
    try:
        g.remove_qubit(arg)
    except Violation:
        raise
    except Exception as e:
        require(reject, "%s: a valid removal of %s was rejected: %s: %s", what, arg, type(e).__name__, e)
        return False
    require(not reject, "%s: an invalid removal of %r was accepted", what, arg)
    for p in m.adj.pop(q):
        m.adj[p].discard(q)
        m.eattr.pop(frozenset((p, q)), None)
    m.attr.pop(q, None)
    if m.ind is not None:
        m.ind.pop(q)
    if m.macro is not None:
        for k in list(m.macro):
            m.macro[k] = [p for p in m.macro[k] if p != q]
            if not m.macro[k]:
                del m.macro[k]
    return True


def check(case, ctx):
    rng = np.random.default_rng(case["seed"])
    g = start_graph(case, rng)
    m = Model(g)
    edited = hit = False
    for step, op in enumerate(case["ops"]):
        ok = apply(g, m, op, step)
        if ok and m.ind is not None:
            edited = True
        if edited and op["op"] == "adj":
            hit = True
        compare(g, m, "after step %d (%s %s)" % (step, op["op"], op.get("mode", "")))
        ctx.label(op["op"] + ("-rejected" if op["op"] in ("add", "rm") and not ok else ""))
    if len(g):
        for sparse in case["final"]:
            adjacency(g, m, sparse, "at the end")
            hit |= edited
    compare(g, m, "at the end")
    ctx.mark(hit)
    ctx.label("start-" + case["start"])


@st.composite
def op_strategy(draw):
    kind = draw(st.sampled_from(["add", "add", "add", "rm", "rm", "adj", "adj", "index", "slice", "lc", "macronize"]))
    op = {"op": kind}
    bad = draw(st.integers(0, 4)) == 4     # an edit meant to be rejected
    if kind == "add":
        op.update(mode=draw(st.sampled_from(["new", "auto", "existing", "len", "type"] if bad else ["new", "new", "auto"])),
                  nmode=draw(st.sampled_from(["none", "pos", "idx", "unknown_pos", "unknown_idx", "bad"] if bad else
                                             ["none", "empty", "pos", "pos", "pos", "idx", "idx", "idx"])),
                  ks=draw(st.one_of(st.lists(st.integers(0, 30), max_size=4), st.lists(st.integers(0, 30), max_size=4), st.lists(st.integers(0, 30), min_size=5, max_size=24))), k=draw(st.integers(0, 30)),
                  pos=draw(st.lists(st.integers(-4, 6), min_size=3, max_size=3)),
                  frac=draw(st.sampled_from([0, 21, 32, -21, 7])), far=draw(st.integers(0, 3)) == 0,
                  macro=draw(st.sampled_from([None, None, None, False] + [True] * bad)))
    elif kind == "rm":
        op.update(mode=draw(st.sampled_from(["unknown_pos", "unknown_idx", "type"] if bad else ["pos", "pos", "idx", "idx", "idx"])), k=draw(st.integers(0, 30)))
    elif kind == "adj":
        op.update(sparse=draw(st.sampled_from([True, False, None])))
    elif kind == "slice":
        op.update(k=draw(st.integers(0, 2)), pos=[draw(st.integers(-4, 4))])
    return op


@st.composite
def cases(draw, top=25):
    start = draw(st.sampled_from(["plain", "plain", "macro", "macro", "empty"]))
    ops = draw(st.lists(op_strategy(), min_size=draw(st.sampled_from([1, 1, 6, top // 2])), max_size=top))
    if start == "macro":
        for op in ops:
            if op["op"] == "add" and op["macro"] is None and op["k"] % 2:
                op["macro"] = True
    return {"start": start, "n": draw(st.integers(1, 9)), "low": draw(st.sampled_from([0, -2, -5])), "pad": draw(st.booleans()), "seed": draw(st.integers(0, 2**32 - 1)),
            "ops": ops, "final": draw(st.sampled_from([[True, False], [False, True], [True], [False]]))}


SUBS = [Sub("histories", check, cases, quick=16000, thorough=80000),
        Sub("long_histories", check, lambda: cases(top=40), quick=600, thorough=15000, share=0.4)]
