"""C06: the success verdict is exactly 'no logical operator was applied'."""
from harness import lemon

lemon.install()

import contextlib
import io

import numpy as np
from hypothesis import strategies as st

from flamingpy.decoders import decoder as dec
from harness import fp, gen
from harness.core import Sub, require

PROPERTY = "C06"
BUDGET = {"quick": 45, "thorough": 1200}
RULE = ("residual flips are generated as combinations of trivial cycles (neighbourhoods of the other vertices) and logical "
        "lines, or arise from decoding generated errors; the oracle is GF(2) span membership; non-trivial = at least one "
        "logical line is in the residual, or the residual is a non-empty trivial cycle")
DECODERS = ["MWPM:networkx", "MWPM:rustworkx", "MWPM:lemon", "UF"]
AX = "xyz"


def verdict(code, sanity):
    r = dec.check_correction(code, sanity_check=sanity)
    if not sanity:
        return [bool(x) for x in r], None
    return [bool(x) for x in r[0]], r[1]


def judge(code, ref, want, ctx):
    before = fp.bits(code)
    plain, _ = verdict(code, False)
    checked, truth = verdict(code, True)
    require(fp.bits(code) == before, "checking the correction changed bit values")
    require(plain == [want], "verdict %s, should be %s" % (plain, [want]))
    require(checked == plain, "verdict with the sanity check %s, without %s" % (checked, plain))
    require(len(truth) == 1, "one dictionary per decoded complex")
    axes_ok = True
    for ax in ref.axes:
        vals = [bool(v) for v in truth[0][AX[ax]]]
        require(len(vals) == ref.dims[ax], "%d surfaces checked along %s, should be %d" % (len(vals), AX[ax], ref.dims[ax]))
        require(len(set(vals)) == 1, "parallel surfaces along %s disagree: %s" % (AX[ax], vals))
        axes_ok = axes_ok and vals[0]
    require(axes_ok == want, "surface parities %s do not match the verdict %s" % (truth[0], want))


def check_residual(case, ctx):
    ref = fp.ref(case)
    rng = np.random.default_rng(case["seed"])
    code = fp.used(case, backend=case["backend"])
    flips = set()
    cyc = ref.trivial_cycles()
    k = int(min(len(cyc), case["ncyc"]))
    for i in rng.choice(len(cyc), size=k, replace=False) if k else []:
        flips ^= cyc[int(i)]
    lines = ref.logical_lines()
    used = []
    for j, ax in enumerate(ref.axes):
        if case["lines"] >> j & 1:
            line = set(lines[ax])
            # the same line elsewhere: translate by an even vector where the lattice is periodic
            if case["move"] and ref.bounds[ax] == "periodic":
                sh = [2 * int(rng.integers(ref.dims[a])) if ref.bounds[a] == "periodic" else 0 for a in range(3)]
                line = {tuple((c + s) % (2 * n) if s else c for c, s, n in zip(q, sh, ref.dims)) for q in line}
            flips ^= line
            used.append(AX[ax])
    require_ref = ref.syndrome(flips)
    assert not require_ref, "reference residual has a syndrome"
    want = not used
    assert ref.is_trivial(flips) == want, "reference homology is inconsistent"
    others = [q for q in sorted(ref.nodes) if q not in ref.index]
    extra = [q for q in others if rng.random() < case["extra"]]
    fp.set_bits(code, list(flips) + extra)
    require(not any(s.parity for s in getattr(code, case["ec"] + "_stabilizers")), "a combination of cycles violates a stabilizer")
    judge(code, ref, want, ctx)
    ctx.mark(bool(flips))
    ctx.label(case["b"] + "-" + case["ec"], "logical:" + ("".join(used) or "none"))


def check_big(case, ctx):
    """Large codes: several residuals on one code."""
    ref = fp.ref(case)
    rng = np.random.default_rng(case["seed"])
    code = fp.build(case)
    cyc, lines = ref.trivial_cycles(), ref.logical_lines()
    for k in range(10):
        flips, used = set(), []
        for i in rng.integers(0, len(cyc), int(rng.choice([0, 1, 30, 300]))):
            flips ^= cyc[int(i)]
        for ax in ref.axes:
            if rng.random() < 0.4:
                # the line may lie anywhere: cycles far and near move it
                flips ^= set(lines[ax])
                used.append(ax)
        if k % 2 and used:
            # move it across the lattice
            for i in rng.permutation(len(cyc)):
                if rng.random() < 0.5:
                    flips ^= cyc[int(i)]
        fp.set_bits(code, flips)
        require(not any(s.parity for s in getattr(code, case["ec"] + "_stabilizers")), "a combination of cycles violates a stabilizer")
        judge(code, ref, not used, ctx)
        ctx.mark(bool(used))
    ctx.label(case["b"] + "-" + case["ec"])


def check_correct(case, ctx):
    ref = fp.ref(case)
    rng = np.random.default_rng(case["seed"])
    code = fp.used(case, backend=case["backend"])
    p = {"few": 0.04, "threshold": 0.1, "dense": 0.35, "full": 0.5}[case["errs"]]
    flips = {q for q in sorted(ref.nodes) if rng.random() < p}
    if case["line"]:
        lines = ref.logical_lines()
        ax = ref.axes[int(rng.integers(len(ref.axes)))]
        part = sorted(lines[ax])
        flips ^= set(part[: int(rng.integers(len(part) // 2, len(part) + 1))])
    fp.set_bits(code, flips)
    name, _, match = case["dec"].partition(":")
    if name == "UF" and case["swap"]:
        for n in sorted(code.graph.nodes):
            code.graph.nodes[n]["state"] = "p" if rng.random() < 0.25 else "GKP"
    text = io.StringIO()
    with contextlib.redirect_stdout(text):
        res = dec.correct(code, decoder=name, weight_options=None, sanity_check=bool(case["sanity"]),
                          decoder_opts={"backend": match} if match else None)
    require(res in (True, False), "verdict %r" % (res,))
    left = {q for q, b in fp.bits(code).items() if b}
    # `left` is the residual of actual errors and the applied recovery
    applied = flips ^ left
    require(applied <= set(ref.qubits), "recovery touched qubits outside the syndrome")
    synd = ref.syndrome(left)
    require(not synd, "the residual violates cells %s" % sorted(synd)[:3])
    want = ref.is_trivial(left)
    require(bool(res) == want, "correct() said %s, the residual is %s" % (bool(res), "trivial" if want else "a logical operator"))
    if case["sanity"]:
        report(text.getvalue(), case["ec"], False)
        # an incomplete recovery has to be reported as such
        part = {q for q in sorted(applied) if rng.random() < 0.5}
        some = [q for q in ref.qubits if rng.random() < 0.1]
        for flip in (part, some, []):
            before = {q for q, b in fp.bits(code).items() if b}
            text = io.StringIO()
            with contextlib.redirect_stdout(text):
                dec.recovery(set(flip), code, case["ec"], sanity_check=True)
            after = {q for q, b in fp.bits(code).items() if b}
            require(after == before ^ set(flip), "recovery flipped other qubits")
            report(text.getvalue(), case["ec"], bool(ref.syndrome(after)))
        fp.set_bits(code, left)
    judge(code, ref, want, ctx)
    ctx.mark(bool(ref.syndrome(flips)))
    ctx.label(case["dec"], case["b"], "success" if want else "failure")


def report(text, ec, unsatisfied):
    """The printed sanity check of a recovery."""
    lines = [l.lower() for l in text.splitlines() if ec in l.lower()]
    bad = [l for l in lines if l.startswith("unsatisfied") and "no unsatisfied" not in l]
    good = [l for l in lines if "recovery succeeded" in l]
    require(bool(bad) == unsatisfied and bool(good) == (not unsatisfied),
            "stabilizers are %s, but the sanity check says %r", "unsatisfied" if unsatisfied else "satisfied", text[:300])


def check_uncorrected(case, ctx):
    """Any bits at all: every surface reports its own parity, and the verdict is that of the first ones, with the sanity check or without."""
    ref = fp.ref(case)
    rng = np.random.default_rng(case["seed"])
    code = fp.used(case, backend=case["backend"])
    for _ in range(2):
        flips = {q for q in sorted(code.graph.nodes) if rng.random() < case["p"]}
        fp.set_bits(code, flips)
        first, start = True, int(case["ec"] == "dual")
        (checked,), (truth,) = verdict(code, True)
        for ax in ref.axes:
            want = []
            for c in range(start, 2 * ref.dims[ax], 2):
                want.append(sum(q in flips for q in ref.qubits if q[ax] == c) % 2 == 0)
            got = [bool(v) for v in truth[AX[ax]]]
            require(got == want, "surfaces along %s are reported as %s, they are %s", AX[ax], got, want)
            first = first and want[0]
        (plain,), _ = verdict(code, False)
        require(plain == checked == first, "verdict %s, with the sanity check %s, the first surfaces give %s", plain, checked, first)
        require(fp.bits(code) == {q: int(q in flips) for q in code.graph.nodes}, "checking changed bit values")
    ctx.mark(bool(ref.syndrome(flips & set(ref.qubits))))
    ctx.label(case["b"])


@st.composite
def uncorrected(draw):
    spec = draw(gen.code_spec(lo=2, hi=8, max_volume=60, long=40))
    spec.update(backend=draw(st.sampled_from(["rustworkx", "networkx"])), seed=draw(gen.seeds()), p=draw(st.sampled_from([0.02, 0.1, 0.5])))
    return spec


@st.composite
def residuals(draw):
    spec = draw(gen.code_spec(lo=2, hi=8, max_volume=60, long=40))
    spec.update(backend=draw(st.sampled_from(["rustworkx", "networkx"])), seed=draw(gen.seeds()),
                ncyc=draw(st.sampled_from([0, 1, 2, 5, 20, 100])), lines=draw(st.integers(0, 7)),
                move=draw(st.booleans()), extra=draw(st.sampled_from([0.0, 0.5])))
    return spec


@st.composite
def decodes(draw):
    spec = draw(gen.code_spec(lo=2, hi=6, max_volume=27))
    spec.update(backend=draw(st.sampled_from(["rustworkx", "networkx"])), seed=draw(gen.seeds()),
                dec=draw(st.sampled_from(DECODERS)), errs=draw(st.sampled_from(["few", "threshold", "dense", "full"])),
                line=draw(st.booleans()), swap=draw(st.booleans()), sanity=draw(st.booleans()))
    return spec


def enum_lines(tier):
    top = 3 if tier == "quick" else 5
    for x in range(2, top + 1):
        for y in range(2, top + 1):
            for z in range(2, top + 1):
                for ec in gen.ECS:
                    for b in gen.BOUNDS:
                        for lines in range(8 if b == "periodic" else 4 if b == "toric" else 2):
                            yield {"d": [x, y, z], "ec": ec, "b": b, "backend": "rustworkx", "seed": x + y + z,
                                   "ncyc": 3 * (x % 2), "lines": lines, "move": True, "extra": 0.0}


SUBS = [
    Sub("every_logical_class", check_residual, enum=enum_lines, rule="every code up to 3x3x3 (5x5x5 thorough) x every logical class"),
    Sub("residuals", check_residual, residuals, quick=1200, thorough=12000),
    Sub("correct_verdict", check_correct, decodes, quick=1200, thorough=12000, share=1.5),
    Sub("uncorrected", check_uncorrected, uncorrected, quick=600, thorough=6000, share=0.4),
    Sub("big_codes", check_big, enum=gen.big_cases("C06", lambda r: {}, thorough=300), share=0.5, rule="a few codes of 500 to 1300 cells, drawn from the seed"),
]
