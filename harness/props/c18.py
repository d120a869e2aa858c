"""C18: phase-error probabilities equal the Gaussian comb they model."""
import math

import numpy as np
from hypothesis import strategies as st

from flamingpy.cv.gkp import Z_err, Z_err_cond
from harness.core import Sub, repeatable, require

PROPERTY = "C18"
RULE = ("variances (log-uniform, 1e-5 to 10) and outcomes inside the summation window, in scalar, list-like and broadcast array "
        "forms, both conditioning modes, against a log-domain evaluation of the comb; non-trivial = probability strictly "
        "between 0.001 and 0.999, or an undefined (underflowing) ratio")
ALPHA = math.sqrt(math.pi)
UNSURE = object()


def reference(var, hom, use_hom):
    """(p, undefined?, distance to nearest bin edge); comb weights exp(-(x - n sqrt(pi))^2 / var)."""
    n0 = math.floor(hom / ALPHA + 0.5)
    frac = hom - n0 * ALPHA
    span = 3 + int(math.sqrt(60 * var) / ALPHA + 1) + 2
    # terms relative to the nearest lattice point, offset k from it
    top = -frac * frac / var
    s_same = s_other = 0.0
    for k in range(-span, span + 1):
        e = -((frac - k * ALPHA) ** 2) / var - top
        w = math.exp(e) if e > -745 else 0.0
        if k % 2:
            s_other += w
        else:
            s_same += w
    return s_other / (s_same + s_other), -top, ALPHA / 2 - abs(frac), frac


def judge(var, hom, use_hom, repl, got):
    p, expo, edge, frac = reference(var, hom, use_hom)
    require(np.isfinite(got), "var=%r hom=%r: result %r", var, hom, got)
    require(isinstance(repl, float) and not 0 <= repl <= 1 or -1e-12 <= got <= 1 + 1e-12, "probability %r outside [0,1]", got)
    if expo > 752:
        want = abs(frac) / ALPHA if repl == "bin_location" else repl
        require(abs(got - want) < 1e-9, "var=%r hom=%r: undefined value replaced by %r, requested %r", var, hom, got, want)
        return True
    if expo > 690:  # between the smallest normal number and underflow: no digits left
        return False
    tol = 1e-9 + 2e-12 * expo + 1e-13 * (1 + abs(hom)) / var
    ok = abs(got - p) < tol
    if edge < 1e-9 and use_hom:  # the outcome is on the edge between two bins
        ok = ok or abs(got - (1 - p)) < tol
    require(ok, "var=%r hom=%r use_hom_val=%s: probability %r, comb gives %r", var, hom, use_hom, got, p)
    return 0.001 < p < 0.999


def limit(var, num):
    """Largest |outcome| for which the window of the code covers the distribution."""
    return (num - 1) * ALPHA - math.sqrt(30 * var) - ALPHA


def make(case):
    rng = np.random.default_rng(case["seed"])
    num = case["num"]
    shape_v, shape_h = case["shapes"]
    var = 10.0 ** rng.uniform(case["lo"], case["hi"], size=shape_v)
    lim = min(limit(float(v), num) for v in np.ravel(var))
    if lim < ALPHA:
        return None
    if not case["use"]:  # only the distance to the nearest lattice point enters
        lim *= case["far"]
    kind = rng.integers(0, 4, size=shape_h)
    n = rng.integers(-int(lim / ALPHA), int(lim / ALPHA) + 1, size=shape_h)
    near = n * ALPHA + rng.normal(size=shape_h) * 0.2
    half = (n + 0.5) * ALPHA + rng.normal(size=shape_h) * 0.02
    hom = np.where(kind == 0, rng.uniform(-lim, lim, size=shape_h), np.where(kind == 1, near, np.where(kind == 2, half, n * ALPHA + 0.0)))
    return var, np.clip(hom, -lim, lim)


def call(var, hom, case, **kw):
    args = {}
    if case["num"] != 10:
        args["var_num"] = case["num"]
    if case["repl"] != 0:
        args["replace_undefined"] = case["repl"]
    if case["use"]:
        args["use_hom_val"] = True
    with np.errstate(all="ignore"):
        return Z_err_cond(var, hom, **args)


def check(case, ctx):
    made = make(case)
    if made is None:
        ctx.rejected = True
        return
    var, hom = made
    keep = (np.copy(var), np.copy(hom))
    bvar, bhom = np.broadcast_arrays(var, hom)
    arr = call(var, hom, case) if case["seed"] % 4 else repeatable(call, var, hom, case)
    require(np.array_equal(var, keep[0]) and np.array_equal(hom, keep[1]), "arguments changed")
    if bvar.size == 1:
        require(np.size(arr) == 1, "one value expected, got %r", arr)
    else:
        require(np.shape(arr) == bvar.shape, "shape %s for inputs %s and %s", np.shape(arr), np.shape(var), np.shape(hom))
    flat = np.ravel(arr)
    hit = False
    for v, h, got in zip(bvar.ravel(), bhom.ravel(), flat):
        hit |= judge(float(v), float(h), case["use"], case["repl"], float(got))
    # scalar calls agree element by element
    for k in range(min(4, bvar.size)):
        v, h = float(bvar.ravel()[k]), float(bhom.ravel()[k])
        one = call(v, h, case)
        require(np.ndim(one) == 0, "scalar call returned %r", one)
        judge(v, h, case["use"], case["repl"], float(one))
        require(abs(float(one) - float(flat[k])) < 1e-9 or reference(v, h, case["use"])[2] < 1e-9 or 690 < reference(v, h, case["use"])[1] < 752,
                "scalar call gives %r, the array call %r at var=%r hom=%r", float(one), float(flat[k]), v, h)
    ctx.mark(hit)
    ctx.label("use_hom" if case["use"] else "frac", "ndim%d" % np.ndim(arr))


SHAPES = [[[], []], [[], [4]], [[3], []], [[5], [5]], [[2, 1], [3]], [[2, 3], [2, 3]], [[1], [1]], [[], [2, 2]], [[1], []], [[4], [1]], [[7], [7]]]
LONG = [[[], [300]], [[130], [130]], [[70], [1]], [[9, 1], [30]], [[1030], [1030]], [[260], []]]


@st.composite
def cases(draw):
    lo = draw(st.sampled_from([-5.0, -4.0, -3.0, -2.5, -2.0, -1.0, -0.5, 0.0]))
    return {"seed": draw(st.integers(0, 2**32 - 1)), "num": draw(st.sampled_from([10, 10, 10, 15, 20, 31])), "lo": lo,
            "hi": draw(st.sampled_from([lo, min(1.0, lo + 1), min(1.0, lo + 3)])), "shapes": draw(st.one_of(*[st.sampled_from(SHAPES)] * 40, st.sampled_from(LONG))),
            "use": draw(st.booleans()), "far": draw(st.sampled_from([1, 1, 5, 100])), "repl": draw(st.sampled_from([0, "bin_location", 0.25, 1.0, "bin_location"]))}


def z_reference(s):
    """Mass of the odd bins under the density proportional to exp(-x^2/s^2) (erf(x/s))."""
    tot = 0.0
    j = 0
    while True:
        a, b = (4 * j + 1) * ALPHA / 2, (4 * j + 3) * ALPHA / 2
        tot += math.erfc(a / s) - math.erfc(b / s)
        if b / s > 9:
            return tot
        j += 1


def check_zerr(case, ctx):
    rng = np.random.default_rng(case["seed"])
    var = 10.0 ** rng.uniform(case["lo"], case["hi"], size=case["n"])
    keep = var.copy()
    kw = {} if case["num"] == 5 else {"var_num": case["num"]}
    out = repeatable(Z_err, var, **kw)
    out = Z_err(var, **kw)
    require(np.array_equal(var, keep), "variances changed")
    require(np.shape(out) == var.shape, "shape %s", np.shape(out))
    for v, got in zip(var, out):
        want = z_reference(float(v))
        require(abs(float(got) - want) < 1e-9, "Z_err(%r) = %r, odd bins have %r", float(v), float(got), want)
        require(-1e-9 <= got <= 1 + 1e-9, "outside [0,1]")
    perm = rng.permutation(case["n"])
    require(np.allclose(Z_err(var[perm], **kw), out[perm], atol=1e-10), "not elementwise")
    for k in range(min(3, case["n"])):
        require(abs(float(Z_err(var[k:k + 1], **kw)[0]) - float(out[k])) < 1e-9, "depends on the other elements")
    ctx.mark(bool(np.any((out > 0.001) & (out < 0.499))))


def check_calls(case, ctx):
    """Scalar and array calls agree, also where the outcome or the spread leaves the summation window."""
    rng = np.random.default_rng(case["seed"])
    n = case["n"]
    var = 10.0 ** rng.uniform(*case["range"], size=n)
    hom = rng.uniform(-case["reach"], case["reach"], size=n)
    arr = np.ravel(call(var, hom, case))
    require(arr.shape == (n,), "shape %s", arr.shape)
    num = case["num"]
    hit = False
    for k in range(n):
        v, h = float(var[k]), float(hom[k])
        z = h if case["use"] else h - math.floor(h / ALPHA + 0.5) * ALPHA
        if abs(abs(h / ALPHA - math.floor(h / ALPHA)) - 0.5) < 1e-9:
            continue
        near = min((z - i * ALPHA) ** 2 for i in range(-num, num)) / v
        if 690 < near < 752:
            continue
        one = float(call(v, h, case))
        got = float(arr[k])
        require(abs(one - got) <= 1e-9 + 1e-9 * abs(got), "scalar call gives %r, the array call %r at var=%r hom=%r", one, got, v, h)
        require(abs(float(np.ravel(call(np.array([v]), h, case))[0]) - got) <= 1e-9 + 1e-9 * abs(got), "the value depends on the other elements")
        hit |= near < 690
    ctx.mark(hit)


SUBS = [
    Sub("calls", check_calls, lambda: st.fixed_dictionaries({
        "n": st.integers(2, 6), "seed": st.integers(0, 2**32 - 1), "range": st.sampled_from([(-5.0, -1.0), (-1.0, 1.0), (0.0, 3.0)]),
        "reach": st.sampled_from([1.0, 5.0, 20.0, 60.0]), "num": st.sampled_from([10, 10, 10, 15, 20, 31]), "use": st.booleans(),
        "repl": st.sampled_from([0, "bin_location", 0.25])}), quick=4000, thorough=40000, share=0.4),
    Sub("conditional", check, cases, quick=12000, thorough=120000),
    Sub("unconditional", check_zerr, lambda: st.fixed_dictionaries({
        "n": st.one_of(*[st.integers(1, 8)] * 30, st.sampled_from([40, 130, 300])), "seed": st.integers(0, 2**32 - 1), "lo": st.sampled_from([-2.0, -1.0, -0.5]),
        "hi": st.sampled_from([-0.5, 0.0, 1.0]), "num": st.sampled_from([5, 5, 6, 10])}), quick=4500, thorough=40000, share=0.5),
]
