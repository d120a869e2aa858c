"""C17: GKP binning decomposes every outcome into nearest bin and remainder."""
import math
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from flamingpy.cv.gkp import GKP_binner, integer_fractional
from harness.core import Sub, repeatable, require

PROPERTY = "C17"
RULE = ("real outcomes near bin centres, edges and elsewhere (|x| up to 1e12 spacings), spacings over twelve orders of magnitude, "
        "scalar, list and array input; the oracle is exact rational arithmetic; non-trivial = outcome outside the central bin")
ASSUMPTIONS = ["within double-precision rounding (1e-9 + 4e-15 |x| / spacing, in spacings) of a bin edge either neighbouring bin is accepted"]
ALPHA = math.sqrt(math.pi)


def nearest(x, a):
    """(n, distance to the nearest bin edge in units of a), exactly."""
    r = Fraction(x) / Fraction(a)
    n = math.floor(r + Fraction(1, 2))
    edge = abs(abs(r - n) - Fraction(1, 2))
    return n, float(edge)


def slack(x, a):
    """Rounding of a few operations in double precision, in units of the spacing."""
    return 1e-9 + 4e-15 * abs(x) / a


def judge(x, a, n, f, what):
    require(math.isfinite(f) and float(n) == int(n), "%s: n=%r f=%r for x=%r", what, n, f, x)
    n = int(n)
    tol = slack(x, a) * a
    require(abs(n * a + f - x) <= tol, "%s: %r*%r + %r is not %r", what, n, a, f, x)
    require(abs(f) <= a / 2 * (1 + 1e-9) + tol, "%s: remainder %r exceeds half of %r", what, f, a)
    want, edge = nearest(x, a)
    if edge > slack(x, a):
        require(n == want, "%s: bin %d of %r, should be %d", what, n, x, want)
        return want
    return None


def check_if(case, ctx):
    a = case["alpha"]
    xs = [a * (k + u) for k, u in case["xs"]]
    form = case["form"]
    if form == "scalar":
        for x in xs:
            n, f = integer_fractional(x, a)
            judge(x, a, n, float(f), "scalar")
    else:
        arg = list(xs) if form == "list" else np.array(xs)
        if form == "array2":
            arg = np.array([xs, xs[::-1]])
        keep = np.array(arg).copy()
        n, f = integer_fractional(arg, a) if len(xs) % 2 else repeatable(integer_fractional, arg, a)
        require(np.array_equal(np.array(arg), keep), "the input was changed")
        n, f = np.asarray(n), np.asarray(f)
        require(n.shape == keep.shape and f.shape == keep.shape, "shapes %s and %s for input of shape %s", n.shape, f.shape, keep.shape)
        for x, i, g in zip(keep.ravel(), n.ravel(), f.ravel()):
            judge(float(x), a, i, float(g), form)
    ctx.mark(any(abs(x) > a / 2 for x in xs))
    ctx.label(form)


def check_bin(case, ctx):
    xs = [ALPHA * (k + u) for k, u in case["xs"]]
    form = case["form"]

    def bits(vals):
        if form == "scalar":
            return [GKP_binner(v) for v in vals]
        if form == "array2":
            return np.asarray(repeatable(GKP_binner, np.array([vals, vals])))[1]
        if form == "list":
            return GKP_binner(list(vals))
        if form == "one":
            return [GKP_binner([v])[0] for v in vals]
        return GKP_binner(np.array(vals))

    def one(x, b, what):
        want, edge = nearest(x, ALPHA)
        require(b in (0, 1), "%s: bit %r", what, b)
        # the oracle's sqrt(pi) is a double too: allow its rounding over n periods
        if edge > slack(x, ALPHA):
            require(int(b) == want % 2, "%s: bit of %r is %r, should be %d", what, x, b, want % 2)
            return int(b)
        return None

    b0 = bits(xs)
    require(len(b0) == len(xs), "number of bits")
    for name, vals, flip in (("2 sqrt(pi) shift", [x + 2 * ALPHA for x in xs], 0), ("-2 sqrt(pi) shift", [x - 2 * ALPHA for x in xs], 0),
                             ("sqrt(pi) shift", [x + ALPHA for x in xs], 1), ("negation", [-x for x in xs], 0)):
        b1 = bits(vals)
        for x, y, p, q in zip(xs, vals, b0, b1):
            one(x, p, "outcome")
            one(y, q, name)
            e0, e1 = nearest(x, ALPHA)[1], nearest(y, ALPHA)[1]
            if min(e0, e1) > 2 * slack(x, ALPHA) + 2 * slack(y, ALPHA):
                require(int(p) ^ int(q) == flip, "%s of %r: %r -> %r", name, x, p, q)
    if form != "one":
        arg = xs[0] if form == "scalar" else np.array(xs)
        pb, pf = GKP_binner(arg, return_fraction=True)
        pb, pf = np.atleast_1d(pb), np.atleast_1d(pf)
        for x, b, f in zip(xs, pb, pf):
            one(x, b, "with fraction")
            want, edge = nearest(x, ALPHA)
            require(abs(f) <= ALPHA / 2 + ALPHA * slack(x, ALPHA), "fraction %r of %r", f, x)
            if edge > slack(x, ALPHA):
                require(abs(want * ALPHA + f - x) <= 4 * ALPHA * slack(x, ALPHA), "fraction %r of %r", f, x)
    ctx.mark(any(abs(x) > ALPHA / 2 for x in xs))
    ctx.label(form)


def outcomes():
    k = st.one_of(st.integers(-6, 6), st.integers(-300, 300), st.integers(-100000, 100000), st.integers(-2 ** 40, 2 ** 40),
                  st.sampled_from([2 ** 31, 2 ** 31 - 1, -2 ** 31, -2 ** 31 - 1, 2 ** 32, 2 ** 32 + 1, 2 ** 15, 2 ** 16, -2 ** 15 - 1, 127, 128, 255, 256, -129]))
    u = st.one_of(st.sampled_from([0.0, 0.25, -0.25, 0.49, -0.49, 0.4999, -0.4999, 0.5001, 1e-7, -1e-7, 0.5, -0.5, 0.499999999]), st.floats(-0.5, 0.5),
                  # at every distance from a bin edge
                  st.tuples(st.sampled_from([-1, 1]), st.sampled_from([-1, 1]), st.floats(1.5, 9)).map(lambda t: t[0] * (0.5 + t[1] * 10 ** -t[2])))
    return st.lists(st.tuples(k, u), min_size=1, max_size=6)


def alphas():
    return st.one_of(st.sampled_from([ALPHA, 1.0, 2.0, 2 * ALPHA, math.pi, 0.1, 1e-6, 1e6]), st.floats(1e-6, 1e6))


def check_long(case, ctx):
    """Long arrays: every element is treated alike, wherever it stands."""
    rng = np.random.default_rng(case["seed"])
    a = case["alpha"]
    shape = case["shape"]
    k = rng.integers(-case["reach"], case["reach"] + 1, size=shape)
    u = np.clip(rng.uniform(-0.5, 0.5, size=shape), -0.499999, 0.499999)
    x = a * (k + u)
    n, f = repeatable(integer_fractional, x, a)
    n, f = np.asarray(n), np.asarray(f)
    require(n.shape == x.shape and f.shape == x.shape, "shapes %s and %s for input of shape %s", n.shape, f.shape, x.shape)
    bad = np.argwhere(n != k)
    require(not len(bad), "element %s of %s: bin %s", *(lambda i: (list(i), x[tuple(i)], n[tuple(i)]) if len(bad) else ("", "", ""))(bad[0] if len(bad) else ()))
    require(np.allclose(n * a + f, x, rtol=1e-12, atol=1e-9 * a) and np.all(np.abs(f) <= a / 2 * (1 + 1e-9)), "remainders do not recombine in an array of shape %s", x.shape)
    x = ALPHA * (k + u)
    bits, frac = GKP_binner(x, return_fraction=True)
    require(np.array_equal(np.asarray(bits), k % 2) and np.array_equal(np.asarray(GKP_binner(x)), k % 2), "bits of an array of shape %s", x.shape)
    require(np.allclose(k * ALPHA + frac, x, rtol=1e-12, atol=1e-8), "fractions of an array of shape %s", x.shape)
    if x.ndim == 1:
        require(np.array_equal(np.asarray(GKP_binner(x.tolist())), k % 2), "bits of a list of length %s", x.size)
    ctx.mark()


SUBS = [
    Sub("long", check_long, lambda: st.fixed_dictionaries({
        "seed": st.integers(0, 2**32 - 1), "alpha": st.sampled_from([ALPHA, 1.0, 2.5]), "reach": st.sampled_from([2, 20, 1000]),
        "shape": st.sampled_from([[100], [64], [128], [257], [512], [1000], [1024], [2000], [2048], [4097], [5000], [8192], [10001], [40, 50], [3, 400], [16384], [65536], [70000], [6, 7, 8]])}), quick=320, thorough=4000, share=0.3),
    Sub("integer_fractional", check_if, lambda: st.fixed_dictionaries({
        "alpha": alphas(), "xs": outcomes(), "form": st.sampled_from(["scalar", "list", "array", "array2"])}), quick=15000, thorough=200000),
    Sub("binner", check_bin, lambda: st.fixed_dictionaries({
        "xs": outcomes(), "form": st.sampled_from(["scalar", "list", "array", "array2", "one"])}), quick=12000, thorough=150000),
]
