"""C16: Gaussian CV operations are the exact symplectic maps."""
import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

from flamingpy.codes.graphs import EGraph
from flamingpy.cv.ops import SCZ_apply, SCZ_mat, invert_permutation, splitter_symp
from flamingpy.noise import CVLayer
from harness.core import Sub, repeatable, require

PROPERTY = "C16"
RULE = ("symmetric adjacency matrices (0/1, signed, integer- or real-weighted) in dense and eight sparse formats, and vectors or "
        "matrices of quadratures of several types, against dense matrix algebra in double precision; non-trivial = at least "
        "one non-zero adjacency entry and three modes")
FORMATS = ["dense", "csr_matrix", "csc_matrix", "coo_matrix", "lil_matrix", "csr_array", "csc_array", "coo_array"]


def adjacency(case, rng):
    n = case["n"]
    M = (rng.random((n, n)) < case["p"]).astype(float)
    kind = case["w"]
    if kind == "signed":
        M *= rng.choice([-1, 1], size=(n, n))
    elif kind == "int":
        M *= rng.integers(-5, 6, size=(n, n))
    elif kind == "real":
        M *= rng.normal(size=(n, n))
    M = np.triu(M, 1)
    if case["loops"]:
        M += np.diag((rng.random(n) < 0.3) * (1.0 if kind != "real" else 0.37))
        return M + np.triu(M, 1).T
    return M + M.T


def dtype_for(case):
    if case["w"] == "real":
        return float
    return {"i8": np.int8, "i64": np.int64, "f64": float}[case["adt"]]


def dense(x):
    return x.toarray() if sp.issparse(x) else np.asarray(x)


def check(case, ctx):
    rng = np.random.default_rng(case["seed"])
    A = adjacency(case, rng)
    n = case["n"]
    base = A.astype(dtype_for(case))
    A = base.astype(float)
    adj = base.copy() if case["fmt"] == "dense" else getattr(sp, case["fmt"])(base)
    S = np.block([[np.eye(n), np.zeros((n, n))], [A, np.eye(n)]])
    for flag in (True, False, None):
        out = SCZ_mat(adj) if flag is None else SCZ_mat(adj, sparse=flag)
        want_sparse = case["fmt"] != "dense" and flag is not False
        require(sp.issparse(out) == want_sparse, "SCZ_mat(%s, sparse=%s) returned %s", case["fmt"], flag, type(out).__name__)
        D = dense(out)
        require(D.shape == (2 * n, 2 * n), "shape %s", D.shape)
        require(np.allclose(D.astype(float), S, rtol=1e-12, atol=1e-12), "CZ matrix differs")
    require(np.array_equal(dense(adj), base), "SCZ_mat changed the adjacency matrix")
    if case["seed"] % 4 == 1:
        repeatable(SCZ_mat, adj)
        repeatable(SCZ_mat, adj, sparse=False)
    Om = np.block([[np.zeros((n, n)), np.eye(n)], [-np.eye(n), np.zeros((n, n))]])
    D = dense(SCZ_mat(adj)).astype(float)
    require(np.allclose(D @ Om @ D.T, Om, atol=1e-9), "CZ matrix is not symplectic")
    shape = (2 * n,) if case["dim"] == 1 else (2 * n, 2 * n)
    qdt = case["qdt"]
    if qdt == "i64":
        Q = rng.integers(-1000, 1000, size=shape)
    elif qdt == "f32":
        Q = rng.normal(size=shape).astype(np.float32)
    else:
        Q = rng.normal(size=shape) * case["scale"]
    if case["dim"] == 2 and case["symm"]:
        Q = Q + Q.T
    if case["order"] == "F":
        Q = np.asfortranarray(Q)
    keep = Q.copy()
    Qf = Q.astype(float)
    want = S @ Qf if case["dim"] == 1 else S @ Qf @ S.T
    tol = (1e-4 if qdt == "f32" else 1e-9) * (1 + np.abs(S).max() ** 2 * n * n) * (1 + np.abs(Qf).max())
    for mode in (None, True, False):
        got = SCZ_apply(adj, Q) if mode is None else SCZ_apply(adj, Q, one_shot=mode)
        require(isinstance(got, np.ndarray), "result type %s", type(got).__name__)
        require(got.shape == shape, "result shape %s", got.shape)
        require(np.allclose(got.astype(float), want, rtol=1e-5 if qdt == "f32" else 1e-9, atol=tol), "one_shot=%s differs from multiplication", mode)
        require(np.array_equal(Q, keep), "one_shot=%s changed its input", mode)
        got[...] = 0
        require(np.array_equal(Q, keep), "one_shot=%s returned a view of its input", mode)
    require(np.array_equal(dense(adj), base), "SCZ_apply changed the adjacency matrix")
    ctx.mark(n >= 3 and bool(np.any(A)))
    ctx.label(case["fmt"], case["w"], "dim%d" % case["dim"], qdt)


@st.composite
def cases(draw):
    return {"n": draw(st.one_of(*[st.integers(1, 9)] * 40, st.sampled_from([17, 33, 65, 129, 140, 257]))), "seed": draw(st.integers(0, 2**32 - 1)), "p": draw(st.sampled_from([0.5, 0.2, 0.9, 0.0])),
            "w": draw(st.sampled_from(["one", "signed", "int", "real"])), "loops": draw(st.integers(0, 4)) == 0,
            "fmt": draw(st.sampled_from(FORMATS)), "adt": draw(st.sampled_from(["i8", "i64", "f64"])),
            "dim": draw(st.sampled_from([1, 2])), "qdt": draw(st.sampled_from(["f64", "f64", "f32", "i64"])),
            "scale": draw(st.sampled_from([1.0, 1000.0])), "symm": draw(st.booleans()), "order": draw(st.sampled_from(["C", "F"]))}


def check_perm(case, ctx):
    rng = np.random.default_rng(case["seed"])
    n = case["n"]
    p = rng.permutation(n).astype(case["dtype"])
    keep = p.copy()
    q = invert_permutation(p) if case["seed"] % 2 else repeatable(invert_permutation, p)
    require(np.array_equal(p, keep), "the permutation was changed")
    require(sorted(int(x) for x in q) == list(range(n)), "the inverse is not a permutation: %s", list(q[:60]))
    for i in range(n):
        if not (int(q[int(p[i])]) == i and int(p[int(q[i])]) == i):
            require(False, "inverse of %s at %d is %s", p[:60].tolist(), int(p[i]), q[int(p[i])])
    a = rng.normal(size=n)
    require(np.array_equal(a[p][q], a), "permuting and un-permuting changes an array")
    ctx.mark(n > 2 and not np.array_equal(p, np.arange(n)) and not np.array_equal(p[p], np.arange(n)))


def check_splitter(case, ctx):
    n = case["n"]
    B = np.asarray(repeatable(splitter_symp) if case["deflt"] and n == 4 else repeatable(splitter_symp, n)).astype(float)
    require(B.shape == (2 * n, 2 * n), "shape %s for %d modes", B.shape, n)
    if n == 4:
        q, p = np.arange(4), np.arange(4, 8)
    else:
        q, p = np.arange(0, 2 * n, 2), np.arange(1, 2 * n, 2)
    Om = np.zeros((2 * n, 2 * n))
    Om[q, p], Om[p, q] = 1, -1
    require(np.allclose(B @ Om @ B.T, Om, atol=1e-5), "not symplectic for %d modes", n)
    require(np.allclose(B @ B.T, np.eye(2 * n), atol=1e-5), "not orthogonal for %d modes", n)
    require(np.allclose(B[np.ix_(q, p)], 0, atol=1e-6) and np.allclose(B[np.ix_(p, q)], 0, atol=1e-6), "mixes positions and momenta")
    qq, pp = B[np.ix_(q, q)], B[np.ix_(p, p)]
    require(np.allclose(qq, pp, atol=1e-6), "acts differently on positions and momenta")
    one = np.asarray(splitter_symp()).astype(float)[:4, :4]
    for k in range(0, n, 4):
        require(np.allclose(np.abs(qq[k:k + 4, k:k + 4]), 0.5, atol=1e-6), "block %d is not balanced", k // 4)
        require(np.allclose(qq[k:k + 4, k:k + 4], one, atol=1e-6), "block %d is not the four-splitter", k // 4)
        rest = np.delete(qq[k:k + 4], np.arange(k, k + 4), axis=1)
        require(np.allclose(rest, 0, atol=1e-6), "block %d couples to other macronodes", k // 4)
    ctx.mark(n > 4)


def check_layer(case, ctx):
    """CVLayer.SCZ is the CZ matrix of the layer's graph."""
    rng = np.random.default_rng(case["seed"])
    n = case["n"]
    g = EGraph()
    pts = [(int(i), int(rng.integers(5)), 0) for i in rng.permutation(n)]
    g.add_nodes_from(pts)
    for i in range(n):
        for j in range(i):
            if rng.random() < 0.4:
                g.add_edge(pts[i], pts[j], weight=int(rng.choice([-1, 1])))
    layer = CVLayer(g, delta=0.1)
    order = sorted(pts)
    A = np.zeros((n, n))
    for a, b, d in g.edges(data=True):
        i, j = order.index(a), order.index(b)
        A[i, j] = A[j, i] = d["weight"]
    S = np.block([[np.eye(n), np.zeros((n, n))], [A, np.eye(n)]])
    for flag in (True, False, None):
        out = layer.SCZ() if flag is None else layer.SCZ(sparse=flag)
        require(sp.issparse(out) == (flag is not False), "SCZ(sparse=%s) returned %s", flag, type(out).__name__)
        require(np.array_equal(dense(out), S), "SCZ differs from the graph's CZ matrix")
    ctx.mark(n > 2)


SUBS = [
    Sub("scz", check, cases, quick=9000, thorough=80000),
    Sub("permutations", check_perm, lambda: st.fixed_dictionaries({
        "n": st.one_of(*[st.integers(1, 60)] * 30, st.sampled_from([130, 300, 33000, 65536])), "seed": st.integers(0, 2**32 - 1), "dtype": st.sampled_from(["int64", "int32", "uint16"])}), quick=1800, thorough=20000, share=0.3),
    Sub("splitter", check_splitter, enum=lambda tier: [{"n": n, "deflt": d} for n in range(4, 65 if tier == "quick" else 201, 4) for d in (True, False)], share=0.3),
    Sub("layer", check_layer, lambda: st.fixed_dictionaries({"n": st.one_of(*[st.integers(1, 10)] * 30, st.sampled_from([40, 130])), "seed": st.integers(0, 2**32 - 1)}), quick=900, thorough=8000, share=0.4),
]
