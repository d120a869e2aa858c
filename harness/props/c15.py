"""C15: GF(2) row reduction and null space are exact."""
import os

import numpy as np
from hypothesis import strategies as st

from flamingpy.utils.linalg import (clifford_vec_to_global, clifford_vec_to_tensors, lc_constraint_system, nullspace_basis,
                                   reduce_RREform_mod2, search_nullspace)
from harness.core import Sub, repeatable, require
from harness.ref import Span

PROPERTY = "C15"
RULE = ("binary matrices of generated shape and density (dependent, duplicated and zero rows and columns included) in several "
        "integer types and memory layouts; the oracle is bit-vector Gaussian elimination; non-trivial = rank below both dimensions")


def matrix(case):
    """Rows as Python integers (bit j = column j)."""
    m, n = case["rows"], case["cols"]
    rng = np.random.default_rng(case["seed"])
    A = (rng.random((m, n)) < case["p"]).astype(int)
    kind = case["shape"]
    if kind == "lowrank" and m and n:
        k = 1 + int(rng.integers(max(1, min(m, n) // 2)))
        A = (rng.integers(0, 2, size=(m, k)) @ rng.integers(0, 2, size=(k, n))) % 2
    elif kind == "dup" and m > 1:
        for _ in range(m // 2):
            i, j = rng.integers(m, size=2)
            A[i] = A[j]
    elif kind == "zeros":
        if m:
            A[rng.random(m) < 0.3] = 0
        if n:
            A[:, rng.random(n) < 0.3] = 0
    elif kind == "identity":
        A = np.eye(m, n, dtype=int)[rng.permutation(m)] if m else A
    elif kind == "late" and m:   # the rank grows only in the last rows (or columns)
        k = 1 + int(rng.integers(max(1, m - 1)))
        A[:k] = A[0] if rng.random() < 0.5 else (rng.integers(0, 2, size=(k, min(m, 2))) @ A[m - min(m, 2):]) % 2
        if rng.random() < 0.3:
            A[:, : n // 2] = A[:, :1]
    elif kind == "shifted":     # pivots only in the last columns and rows
        A[:, : n - max(1, n // 5)] = 0
        A[: m - max(1, m // 3)] = 0
    elif kind == "staircase":
        A = np.triu(np.ones((m, n), dtype=int))[rng.permutation(m)] if m else A
    return A


def masks(A):
    return [sum(1 << j for j in range(A.shape[1]) if A[i, j]) for i in range(A.shape[0])]


def check(case, ctx):
    A = matrix(case)
    m, n = A.shape
    M = np.array(A, dtype=case["dtype"], order=case["order"])
    if case["order"] == "T":
        M = np.array(A.T, dtype=case["dtype"]).T
    before = M.copy()
    limit = None if case["limit"] is None else min(case["limit"], n)
    R, p = reduce_RREform_mod2(M) if limit is None else reduce_RREform_mod2(M, max_cols=limit)
    require(np.array_equal(M, before), "row reduction changed its input")
    R = np.asarray(R)
    require(R.shape == (m, n), "shape %s, should be %s", R.shape, (m, n))
    require(np.all((R == 0) | (R == 1)), "entries outside {0,1}")
    R = R.astype(int)
    lead = n if limit is None else limit
    low = (1 << lead) - 1
    span, lead_span = Span(), Span()
    for r in masks(A):
        span.add(r)
        lead_span.add(r & low)
    require(int(p) == lead_span.rank, "rank %s, should be %s", p, lead_span.rank)
    out = Span()
    for r in masks(R):
        out.add(r)
        require(span.contains(r), "a reduced row leaves the row space")
    require(out.rank == span.rank, "row space of dimension %s, should be %s", out.rank, span.rank)
    # reduced row echelon form over the leading columns
    last = -1
    for i in range(m):
        nz = np.nonzero(R[i, :lead])[0]
        if i < p:
            require(nz.size > 0, "row %d of rank %d is zero in the leading columns", i, p)
            require(nz[0] > last, "pivots are not in echelon order")
            last = int(nz[0])
            require(int(R[:, last].sum()) == 1, "pivot column %d is not a unit vector", last)
        else:
            require(nz.size == 0, "row %d beyond the rank is not zero", i)
    # null space
    if case["seed"] % 4 == 1:
        repeatable(reduce_RREform_mod2, M, **({} if limit is None else {"max_cols": limit}))
        repeatable(nullspace_basis, M)
    if limit is None:
        N = nullspace_basis(M)
        require(np.array_equal(M, before), "nullspace_basis changed its input")
        N = np.asarray(N)
        require(N.ndim == 2 and N.shape == (n - span.rank, n), "null space of shape %s, should be %s", N.shape, (n - span.rank, n))
        require(np.all((N == 0) | (N == 1)), "null space entries outside {0,1}")
        N = N.astype(int)
        require(not np.any((A @ N.T) % 2), "a basis vector is not in the null space")
        ns = Span()
        for r in masks(N):
            require(ns.add(r), "basis vectors are dependent")
    ctx.mark(0 < span.rank < min(m, n) or (limit is not None and limit < n))
    ctx.label(case["shape"], case["dtype"], "limited" if limit is not None else "full")


@st.composite
def cases(draw):
    lo = 0 if draw(st.integers(0, 9)) == 0 else 1
    size = draw(st.sampled_from(["small"] * 50 + ["big", "tall", "wide", "huge"] * 10 + ["long"]))
    rows, cols = {"small": (9, 9), "big": (40, 40), "tall": (120, 8), "wide": (8, 120), "huge": (90, 90), "long": (20, 300)}[size]
    return {"rows": draw(st.integers(lo, rows)), "cols": draw(st.integers(1, cols)), "seed": draw(gen_seed()),
            "p": draw(st.sampled_from([0.5, 0.2, 0.8, 0.05])), "shape": draw(st.sampled_from(["random", "lowrank", "dup", "zeros", "identity", "staircase", "late", "late"])),
            "dtype": draw(st.sampled_from(["int64", "int8", "uint8", "int32"])), "order": draw(st.sampled_from(["C", "F"])),
            "limit": draw(st.one_of(st.none(), st.integers(0, 40), st.integers(0, cols)))}


def gen_seed():
    return st.integers(0, 2**32 - 1)


def check_exact(case, ctx):
    """All matrices of one small shape."""
    m, n = case["m"], case["n"]
    for bits in range(case["lo"], case["hi"]):
        A = np.array([[bits >> (i * n + j) & 1 for j in range(n)] for i in range(m)], dtype=int)
        for limit in range(n + 1):
            R, p = reduce_RREform_mod2(A, max_cols=limit)
            want, q = plain_rref(A, limit)
            require(int(p) == q, "matrix %s limit %s: rank %s, should be %s", A.tolist(), limit, p, q)
            require(np.array_equal(R[:q, :limit], want[:q, :limit]), "matrix %s limit %s", A.tolist(), limit)
        N = nullspace_basis(A)
        kernel = {x for x in range(1 << n) if all(bin(x & r).count("1") % 2 == 0 for r in masks(A))}
        got = {0}
        for r in masks(np.asarray(N)):
            got |= {g ^ r for g in got}
        require(got == kernel and len(got) == 1 << len(N), "null space of %s", A.tolist())
    ctx.mark()


def plain_rref(A, limit):
    R = [list(map(int, r)) for r in A]
    p = 0
    for j in range(limit):
        piv = next((i for i in range(p, len(R)) if R[i][j]), None)
        if piv is None:
            continue
        R[p], R[piv] = R[piv], R[p]
        for i in range(len(R)):
            if i != p and R[i][j]:
                R[i] = [a ^ b for a, b in zip(R[i], R[p])]
        p += 1
        if p == len(R):
            break
    return np.array(R), p


def enum_exact(tier):
    top = 9 if tier == "quick" else 12
    for m in range(1, 5):
        for n in range(1, 7):
            if m * n <= top:
                tot = 1 << (m * n)
                step = max(64, tot // 16)
                for lo in range(0, tot, step):
                    yield {"m": m, "n": n, "lo": lo, "hi": min(tot, lo + step)}


def check_search(case, ctx):
    """The search over a null space, and the forms of the vector it returns."""
    n, d = case["n"], case["d"]
    rng = np.random.default_rng(case["seed"])
    B = (rng.random((d, 4 * n)) < case["p"]).astype(int)
    if case["plant"] and d:     # a pair (or single vector) whose blocks are all invertible
        gl2 = [(1, 0, 0, 1), (0, 1, 1, 0), (1, 1, 0, 1), (1, 0, 1, 1), (1, 1, 1, 0), (0, 1, 1, 1)]
        sol = np.array([gl2[int(rng.integers(6))] for _ in range(n)]).T.flatten()
        i, j = (int(x) for x in rng.integers(d, size=2))
        B[i] = sol if i == j else (B[j] + sol) % 2
    if case["ones"] and d:      # blocks of ones are singular
        k = int(rng.integers(n))
        B[int(rng.integers(d)), k::n] = 1
    before = B.copy()

    def good(v):
        return all((v[k] & v[k + 3 * n]) ^ (v[k + n] & v[k + 2 * n]) for k in range(n))

    sums = [B[i] ^ B[j] if i != j else B[i] for i in range(d) for j in range(i + 1)]
    fits = [tuple(int(x) for x in v) for v in sums if good([int(x) for x in v])]
    got = search_nullspace(B) if case["seed"] % 4 else repeatable(search_nullspace, B)
    require(np.array_equal(B, before), "the search changed its input")
    if not fits:
        require(got is None, "%s is returned although no basis vector or pair fits", None if got is None else list(got))
    else:
        require(got is not None, "nothing is found although %s fits", fits[0])
        v = np.asarray(got)
        require(tuple(int(x) for x in v) in fits, "%s is no basis vector or sum of two with invertible blocks", v.tolist())
        tens, glob = repeatable(clifford_vec_to_tensors, v), np.asarray(repeatable(clifford_vec_to_global, v))
        require(len(tens) == n and glob.shape == (2 * n, 2 * n), "%d factors, global form of shape %s", len(tens), glob.shape)
        want = np.zeros((2 * n, 2 * n), dtype=int)
        for k in range(n):
            blk = [[v[k], v[k + n]], [v[k + 2 * n], v[k + 3 * n]]]
            require(np.array_equal(tens[k], blk), "factor %d", k)
            want[np.ix_([k, k + n], [k, k + n])] = blk
        require(np.array_equal(glob, want), "global form")
    ctx.mark(d > 1 and (bool(fits) != all(good([int(x) for x in v]) for v in sums)))
    ctx.label("found" if fits else "none")


def enum_wide(tier):
    rng = np.random.default_rng([abs(int(os.environ.get("VERIF_SEED") or 1)), 15])
    for k in range(24 if tier == "quick" else 600):
        yield {"rows": int(rng.integers(1, 300)), "cols": int(rng.choice([64, 65, 100, 128, 129, 200, 255, 256, 257, 300, 400, 520])), "seed": int(rng.integers(2**32)),
               "p": float(rng.choice([0.5, 0.1, 0.02])), "shape": ["shifted", "lowrank", "random", "late"][k % 4], "dtype": ["int64", "int8", "uint8", "int32"][int(rng.integers(4))],
               "order": "CF"[int(rng.integers(2))], "limit": None if k % 3 else int(rng.choice([63, 64, 200, 500]))}


@st.composite
def searches(draw):
    large = draw(st.integers(0, 24)) == 7
    return {"n": draw(st.integers(7, 20) if large else st.integers(1, 6)), "d": draw(st.integers(7, 40) if large else st.integers(0, 6)), "seed": draw(gen_seed()), "p": draw(st.sampled_from([0.5, 0.8, 0.3])),
            "plant": draw(st.booleans()), "ones": draw(st.booleans())}


def check_system(case, ctx):
    """A vector solves the constraint system exactly when G A + B + (G C + D) H = 0."""
    n = case["n"]
    rng = np.random.default_rng(case["seed"])
    G, H = (np.triu((rng.random((n, n)) < case["p"]).astype(case["dtype"]), 1) for _ in range(2))
    G, H = G + G.T, H + H.T
    if case["same"]:
        H = G.copy()
    M = np.asarray(lc_constraint_system(G, H))
    require(M.shape == (n * n, 4 * n), "shape %s", M.shape)
    require(np.all((M == 0) | (M == 1)), "entries outside {0,1}")
    G, H, M = G.astype(int), H.astype(int), M.astype(int)
    vecs = [np.eye(4 * n, dtype=int)[k] for k in range(4 * n)] + [rng.integers(0, 2, size=4 * n) for _ in range(6)]
    kernel = np.asarray(nullspace_basis(M)).astype(int)
    vecs += [v for v in kernel[:6]] + [(rng.integers(0, 2, size=len(kernel)) @ kernel) % 2 for _ in range(3) if len(kernel)]
    for v in vecs:
        a, b, c, d = (np.diag(x) for x in v.reshape(4, n))
        left = (M @ v) % 2
        want = (G @ a + b + (G @ c + d) @ H) % 2
        require(np.array_equal(np.sort(left), np.sort(want.flatten())), "%d of %d equations hold for %s, should be %d", int((left == 0).sum()), n * n, v.tolist(), int((want == 0).sum()))
    ctx.mark(n > 1)
    ctx.label("n=%d" % n)


@st.composite
def systems(draw):
    return {"n": draw(st.integers(1, 9)), "seed": draw(gen_seed()), "p": draw(st.sampled_from([0.5, 0.2, 0.8])), "same": draw(st.integers(0, 3)) == 0,
            "dtype": draw(st.sampled_from(["int64", "int8", "uint8"]))}


SUBS = [
    Sub("all_small", check_exact, enum=enum_exact, rule="every binary matrix with at most 9 (thorough: 12) entries"),
    Sub("wide_matrices", check, enum=enum_wide, share=0.8),
    Sub("matrices", check, cases, quick=32000, thorough=200000),
    Sub("clifford_search", check_search, searches, quick=12000, thorough=100000),
    Sub("constraint_system", check_system, systems, quick=8000, thorough=60000),
]
