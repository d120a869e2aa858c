"""C14: local-Clifford equivalence answers are correct and certified."""
import itertools as it
import os

import networkx as nx
import numpy as np
from hypothesis import strategies as st

from flamingpy.codes.graphs import EGraph
from harness.core import Sub, require, scribble

PROPERTY = "C14"
BUDGET = {"quick": 60, "thorough": 1500}
RULE = ("pairs of simple graphs on up to 8 vertices: random pairs, members of the same local-complementation orbit, one edge "
        "away from the orbit, disconnected graphs; the oracle is breadth-first search of the orbit; non-trivial = equivalent "
        "but different graphs, or inequivalent graphs with equally many edges or one edge apart")
ASSUMPTIONS = ["qubits are compared in index order (sorted positions), as the function does"]


def lcomp(a, v):
    """Local complementation of a graph given as a tuple of neighbour masks."""
    n = len(a)
    out = list(a)
    nb = a[v]
    for u in range(n):
        if nb >> u & 1:
            out[u] ^= nb & ~(1 << u)
    return tuple(out)


_orbits = {}


def orbit(a, cap=60000):
    if a in _orbits:
        return _orbits[a]
    seen = {a}
    stack = [a]
    while stack:
        x = stack.pop()
        for v in range(len(x)):
            y = lcomp(x, v)
            if y not in seen:
                seen.add(y)
                stack.append(y)
        if len(seen) > cap:
            raise AssertionError("orbit too large")
    if len(_orbits) > 400:
        _orbits.clear()
    _orbits[a] = seen
    return seen


def from_edges(n, edges):
    a = [0] * n
    for i, j in edges:
        a[i] |= 1 << j
        a[j] |= 1 << i
    return tuple(a)


def from_mask(n, mask):
    return from_edges(n, [e for k, e in enumerate(it.combinations(range(n), 2)) if mask >> k & 1])


def matrix(a):
    n = len(a)
    return np.array([[a[i] >> j & 1 for j in range(n)] for i in range(n)])


def egraph(a, how):
    n = len(a)
    pts = [(i, 0, 0) for i in range(n)] if how % 2 == 0 else [(0, 0, i) for i in range(n)]
    g = EGraph()
    order = list(range(n)) if how < 2 else list(range(n))[::-1]
    for i in order:
        g.add_node(pts[i])
    for i in order:
        for j in range(i):
            if a[i] >> j & 1:
                g.add_edge(pts[j], pts[i])
    return g


def prepare(g, how):
    """Prior use of the graph's indices and adjacency matrix."""
    if how == 1:
        g.index_generator()
    elif how == 2:
        g.adj_generator(sparse=False)
    elif how == 3:
        g.adj_generator(sparse=True)
    elif how == 4:
        g.adj_generator()
        g.adj_generator(sparse=False)


def snapshot(g):
    return ({n: dict(d) for n, d in g.nodes(data=True)}, {frozenset(e[:2]): dict(e[2]) for e in g.edges(data=True)})


def in_span_rows(X, Y):
    """Row space over GF(2) of X is contained in that of Y, both full rank n."""
    def rank(M):
        M = M.copy() % 2
        r = 0
        for c in range(M.shape[1]):
            piv = next((i for i in range(r, M.shape[0]) if M[i, c]), None)
            if piv is None:
                continue
            M[[r, piv]] = M[[piv, r]]
            for i in range(M.shape[0]):
                if i != r and M[i, c]:
                    M[i] ^= M[r]
            r += 1
        return r
    return rank(np.vstack([X, Y])) == rank(Y) == X.shape[0] and rank(X) == X.shape[0]


def judge(a, b, want, case, ctx):
    n, m = len(a), len(b)
    g1, g2 = egraph(a, case["how"] % 4), egraph(b, (case["how"] // 4) % 4)
    prepare(g1, case["prep"] % 5)
    prepare(g2, (case["prep"] // 5) % 5)
    s1, s2 = snapshot(g1), snapshot(g2)
    yes, tens = g1.is_lc_equivalent(g2) if case["deflt"] else g1.is_lc_equivalent(g2, clifford_form="tensor")
    yes2, glob = g1.is_lc_equivalent(g2, clifford_form="global")
    require(bool(yes) == want, "answer %s, should be %s for %s and %s", bool(yes), want, a, b)
    require(bool(yes2) == want, "answer %s in global form", bool(yes2))
    require(snapshot(g1) == s1 and snapshot(g2) == s2, "the graphs were changed")
    require(np.array_equal(nx.to_numpy_array(g1, nodelist=sorted(g1)), matrix(a)), "first graph changed")
    if not want:
        require(tens is None and glob is None, "a Clifford is returned for inequivalent graphs")
        return
    require(len(tens) == n, "%d single-qubit factors for %d qubits", len(tens), n)
    G, H = matrix(a), matrix(b)
    blocks = [np.asarray(t).astype(int) for t in tens]
    for k, t in enumerate(blocks):
        require(t.shape == (2, 2) and np.all((t == 0) | (t == 1)), "factor %d is %s", k, t.tolist())
        require((t[0, 0] * t[1, 1] + t[0, 1] * t[1, 0]) % 2 == 1, "factor %d is not invertible: %s", k, t.tolist())
    def big(bs):
        return np.block([[np.diag([t[0, 0] for t in bs]), np.diag([t[0, 1] for t in bs])],
                         [np.diag([t[1, 0] for t in bs]), np.diag([t[1, 1] for t in bs])]]).astype(int)
    scribble(list(tens))   # what is returned belongs to the caller
    scribble(g1.is_lc_equivalent(g2, clifford_form="global")[1])
    tens3 = g1.is_lc_equivalent(g2)[1]
    require(all(np.array_equal(s, t) for s, t in zip(blocks, tens3)), "another answer after the first one was overwritten")
    Q = big(blocks)
    glob = np.asarray(glob).astype(int)
    require(glob.shape == (2 * n, 2 * n), "global form has shape %s", glob.shape)
    require(np.all((glob == 0) | (glob == 1)), "global form has entries outside {0,1}")
    for i in range(n):
        for r in (0, n):
            for c in (0, n):
                row = glob[r + i, c:c + n]
                require(not np.any(np.delete(row, i)), "global form is not a local Clifford")
    require(np.array_equal(glob, Q), "tensor and global form differ")
    # stabilizer group of a graph state: rows (Z part, X part) = (G, I)
    before = np.hstack([G, np.eye(n, dtype=int)])
    after = np.hstack([H, np.eye(n, dtype=int)])
    image = (before @ Q.T) % 2
    require(in_span_rows(image, after), "the returned Clifford does not map %s to %s", a, b)


def check(case, ctx):
    n = case["n"]
    rng = np.random.default_rng(case["seed"])
    pairs = list(it.combinations(range(n), 2))
    edges = [e for e in pairs if rng.random() < case["p"]]
    if case["split"] and n > 2:
        cut = 1 + int(rng.integers(n - 1))
        side = rng.permutation(n) < cut
        edges = [(i, j) for i, j in edges if side[i] == side[j]]
    a = from_edges(n, edges)
    kind = case["kind"]
    if kind == "orbit":
        b = a
        for _ in range(int(rng.integers(1, 3 * n + 1))):
            b = lcomp(b, int(rng.integers(n)))
        want = True
    elif kind == "twin":    # equivalent graphs that agree in simple ways (edges or degrees)
        if rng.random() < 0.6 and n > 1:    # sparse, connected
            t = [(int(rng.integers(i)), i) for i in range(1, n)] + [pairs[int(rng.integers(len(pairs)))] for _ in range(int(rng.integers(0, 2)))]
            a = from_edges(n, t)
        deg = sorted(bin(x).count("1") for x in a)
        same = [x for x in orbit(a) if x != a and sum(bin(y).count("1") for y in x) == sum(deg)]
        if rng.random() < 0.3:
            same = [x for x in same if sorted(bin(y).count("1") for y in x) == deg] or same
        same = sorted(same) or [a]
        b = same[int(rng.integers(len(same)))]
        want = True
    elif kind == "near":
        b = a
        for _ in range(int(rng.integers(0, 2 * n))):
            b = lcomp(b, int(rng.integers(n)))
        i, j = pairs[int(rng.integers(len(pairs)))] if pairs else (0, 0)
        bl = list(b)
        if i != j:
            bl[i] ^= 1 << j
            bl[j] ^= 1 << i
        b = tuple(bl)
        want = b in orbit(a)
    elif kind == "relabel":
        perm = [int(x) for x in rng.permutation(n)]
        b = from_edges(n, [(perm[i], perm[j]) for i, j in edges])
        want = b in orbit(a)
    elif kind == "same":
        b, want = a, True
    elif kind == "size":
        m = n + 1 + int(rng.integers(2))
        b = from_edges(m, [e for e in it.combinations(range(m), 2) if rng.random() < case["p"]])
        want = False
        if rng.random() < 0.5:
            a, b = b, a
    else:
        b = from_edges(n, [e for e in pairs if rng.random() < case["p"]])
        want = b in orbit(a)
    judge(a, b, want, case, ctx)
    ctx.mark((want and a != b) or (not want and (kind == "near" or sum(map(lambda x: bin(x).count("1"), a)) == sum(map(lambda x: bin(x).count("1"), b)))))
    ctx.label(kind, "equivalent" if want else "inequivalent", "n=%d" % n, "split" if case["split"] else "whole")


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(["orbit", "orbit", "twin", "twin", "twin", "near", "near", "relabel", "random", "same", "size"]))
    n = draw(st.sampled_from([2, 3, 4, 5, 6, 1] if kind == "random" else [5, 6, 7, 4, 3, 2, 8, 1] if kind != "twin" else [5, 6, 4, 7, 3]))
    return {"n": n, "seed": draw(st.integers(0, 2**32 - 1)), "p": draw(st.sampled_from([0.5, 0.3, 0.7, 0.15])),
            "split": draw(st.integers(0, 3)) == 0, "kind": kind, "how": draw(st.integers(0, 15)), "prep": draw(st.integers(0, 24)),
            "deflt": draw(st.booleans())}


def check_block(case, ctx):
    """One graph against every graph on the same vertices."""
    n, m = case["n"], case["m"]
    a = from_mask(n, m)
    o = orbit(a)
    step = case["step"]
    for k in range(case["start"], 1 << (n * (n - 1) // 2), step):
        b = from_mask(n, k)
        judge(a, b, b in o, {"how": k % 16, "prep": (k + m) % 25, "deflt": k % 2 == 0}, ctx)
    ctx.mark()
    ctx.label("n=%d" % n)


def enum_pairs(tier):
    for n in (1, 2, 3):
        for m in range(1 << (n * (n - 1) // 2)):
            yield {"n": n, "m": m, "start": 0, "step": 1}
    for m in range(64):
        yield {"n": 4, "m": m, "start": 0, "step": 1}
    if tier == "thorough":
        for m in range(1024):
            yield {"n": 5, "m": m, "start": m % 32, "step": 32}


def check_large(case, ctx):
    """Larger graphs: only a yes is checkable by construction; a no is forced by unequal cut ranks."""
    n = case["n"]
    rng = np.random.default_rng(case["seed"])
    if case["tree"]:    # few independent local symmetries are lost, so the solution spaces are large
        edges = {(int(rng.integers(i)) if rng.random() < 0.7 else i - 1, i) for i in range(1, n)}
        edges |= {tuple(sorted(int(x) for x in rng.choice(n, size=2, replace=False))) for _ in range(case["tree"] - 1)}
        relabel = rng.permutation(n)
        a = from_edges(n, [(int(relabel[i]), int(relabel[j])) for i, j in edges])
    else:
        a = from_edges(n, [e for e in it.combinations(range(n), 2) if rng.random() < case["p"]])
    b = a
    for _ in range(int(rng.integers(1, 3 * n))):
        b = lcomp(b, int(rng.integers(n)))
    if case["flip"]:
        i, j = sorted(int(x) for x in rng.choice(n, size=2, replace=False))
        bl = list(b)
        bl[i] ^= 1 << j
        bl[j] ^= 1 << i
        b = tuple(bl)
        if all(cut_rank(a, s) == cut_rank(b, s) for s in subsets(n, rng)):
            ctx.rejected = True
            return
        judge(a, b, False, case, ctx)
    else:
        judge(a, b, True, case, ctx)
    ctx.mark(a != b)
    ctx.label("n=%d" % n, "flip" if case["flip"] else "orbit", "tree" if case["tree"] else "random")


def subsets(n, rng):
    for i in range(n):
        yield 1 << i
        for j in range(i):
            yield 1 << i | 1 << j
    for _ in range(40):
        yield int(rng.integers(1, (1 << n) - 1))


def cut_rank(a, s):
    rows = [a[i] & ~s for i in range(len(a)) if s >> i & 1]
    r = 0
    basis = {}
    for v in rows:
        while v:
            h = v.bit_length()
            if h not in basis:
                basis[h] = v
                r += 1
                break
            v ^= basis[h]
    return r


@st.composite
def large(draw, tree=False):
    return {"n": draw(st.integers(7 if tree else 9, 14 if tree else 16)), "tree": draw(st.integers(1, 3)) if tree else 0, "seed": draw(st.integers(0, 2**32 - 1)), "p": draw(st.sampled_from([0.1, 0.2, 0.4, 0.6])),
            "flip": draw(st.booleans()), "how": draw(st.integers(0, 15)), "prep": draw(st.integers(0, 24)), "deflt": draw(st.booleans())}


def enum_big(tier):
    rng = np.random.default_rng([abs(int(os.environ.get("VERIF_SEED") or 1)), *b"C14big"])
    for k in range(12 if tier == "quick" else 150):
        n = int(rng.choice([18, 20, 24, 28, 33, 40]))
        yield {"n": n, "tree": int(rng.integers(0, 3)), "seed": int(rng.integers(2**32)), "p": float(rng.choice([0.1, 0.2, 0.4])),
               "flip": bool(rng.integers(2)), "how": int(rng.integers(16)), "prep": int(rng.integers(25)), "deflt": bool(rng.integers(2))}


SUBS = [
    Sub("big", check_large, enum=enum_big, share=0.8, rule="graphs on 18 to 40 vertices"),
    Sub("all_pairs_small", check_block, enum=enum_pairs, share=1.5, rule="every ordered pair up to 4 vertices (thorough: also 1/32 of those at 5)"),
    Sub("pairs", check, cases, quick=9000, thorough=100000, share=1.5),
    Sub("large", check_large, large, quick=1500, thorough=8000),
    Sub("trees", check_large, lambda: large(tree=True), quick=16000, thorough=300000, share=1.5),
]
