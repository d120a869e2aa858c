"""C32: the recovery depends on the syndrome and the weights only; equivalent errors share it and the verdict follows the logical class."""
from harness import lemon

lemon.install()

import numpy as np
from hypothesis import strategies as st

from flamingpy.decoders import decoder as dec
from flamingpy.decoders.mwpm import mwpm_decoder
from flamingpy.decoders.unionfind import uf_decoder
from harness import fp, gen
from harness.core import Sub, require
from harness.props.c05 import DECODERS, blueprint_opts, label_states, pattern

PROPERTY = "C32"
BUDGET = {"quick": 60, "thorough": 1200}
RULE = ("an error pattern and a second one that differs from it by cluster-state stabilizers, logical operators and flips outside the decoded "
        "complex are decoded on equally labelled and weighted codes, with every decoder and backend; non-trivial = a non-empty syndrome and "
        "at least one differing syndrome qubit")


def shifted(case, ref, flips, rng):
    """The flips plus trivial cycles, logical strings and flips on vertices that no stabilizer contains."""
    out = set(flips)
    cycles = ref.trivial_cycles()
    if case["cycles"] and cycles:
        k = len(cycles) // 2 if case["cycles"] > 5 else case["cycles"]
        for i in rng.choice(len(cycles), size=min(k, len(cycles)), replace=False):
            out ^= cycles[i]
    for ax, line in sorted(ref.logical_lines().items()):
        if case["logical"] >> ax & 1:
            out ^= line
    if case["outside"]:
        for q in sorted(ref.nodes):
            if q not in ref.index and rng.random() < 0.5:
                out ^= {q}
    return out


def decode(case, ref, flips):
    """(recovery, verdict of the separate steps, verdict and flips of correct)."""
    name, _, match = case["dec"].partition(":")
    ec, out = case["ec"], []
    for whole in (False, True):
        rng = np.random.default_rng(case["seed"] + 1)
        code = (fp.used if whole else fp.build)(case, backend=case["backend"])
        fp.set_bits(code, flips)
        label_states(case, code, ref, rng)
        if case["weights"] == "blueprint" and name == "MWPM":
            if case["swap"] == "unset":
                for n in code.graph.nodes:
                    code.graph.nodes[n]["state"] = "GKP"
            opts = blueprint_opts(case, code, rng)
        else:
            opts = {"method": "uniform"} if case["weights"] == "uniform" else None
        if whole:
            before = fp.bits(code)
            verdict = dec.correct(code, decoder=name, weight_options=opts, decoder_opts={"backend": fp.matcher(match)} if name == "MWPM" else None)
            rec = {n for n, b in fp.bits(code).items() if b != before[n]}
        else:
            dec.assign_weights(code, name, **(opts or {}))
            rec = set(mwpm_decoder(code, ec, backend=fp.matcher(match)) if name == "MWPM" else uf_decoder(code, ec))
            dec.recovery(rec, code, ec)
            verdict = all(dec.check_correction(code))
        out.append((rec, bool(verdict)))
    return out


def check(case, ctx):
    ref = fp.ref(case)
    rng = np.random.default_rng(case["seed"])
    first = set(pattern(case, ref, rng))
    second = shifted(case, ref, first, rng)
    if ref.syndrome(first) != ref.syndrome(second):
        raise AssertionError("harness: the syndromes differ")
    a, b = decode(case, ref, first), decode(case, ref, second)
    require(a[0][0] == a[1][0], "decoding step by step and by correct() flip different qubits: %s" % sorted(a[0][0] ^ a[1][0])[:4])
    for (r1, v1), (r2, v2), how in zip(a, b, ("step by step", "correct()")):
        require(r1 == r2, "%s: errors with one syndrome and equal weights get recoveries that differ on %s" % (how, sorted(r1 ^ r2)[:4]))
        for flips, rec, verdict in ((first, r1, v1), (second, r2, v2)):
            require(verdict == ref.is_trivial((flips ^ rec) & set(ref.qubits)), "%s: the verdict is %s" % (how, verdict))
    change = not ref.is_trivial((first ^ second) & set(ref.qubits))
    require((a[1][1] != b[1][1]) or not (change and (a[1][1] and b[1][1])), "both succeed although they differ by a logical operator")
    require(a[1][1] == b[1][1] or change, "the verdicts differ although the errors are equivalent")
    ctx.mark(bool(ref.syndrome(first)) and bool((first ^ second) & set(ref.qubits)))
    ctx.label(case["dec"], case["b"], "logical" if change else "equivalent", "swap:" + case["swap"])


@st.composite
def cases(draw):
    d = draw(st.sampled_from(DECODERS))
    spec = draw(gen.code_spec(lo=2, hi=8, max_volume=90 if d == "UF" else 30))
    spec.update(
        dec=d, backend=draw(st.sampled_from(["rustworkx", "networkx"])), seed=draw(gen.seeds()),
        errs=draw(st.sampled_from(["few", "sparse", "mid", "dense", "ball", "none"])),
        swap=draw(st.sampled_from(["unset", "none", "rare", "half", "cluster"] if d == "UF" else ["unset", "none", "half"])),
        weights=draw(st.sampled_from(["default", "uniform", "blueprint"])), integer=draw(st.booleans()),
        mult=draw(st.sampled_from([1, 10, 1000])), pre=draw(st.booleans()), cycles=draw(st.sampled_from([0, 1, 2, 5, 6])),
        logical=draw(st.integers(0, 7)), outside=draw(st.booleans()))
    return spec


@st.composite
def spanning(draw):
    """Union-find clusters that reach several boundary points, also on opposite sides."""
    spec = draw(gen.code_spec(lo=2, hi=7, max_volume=70, boundaries=["open"]))
    spec.update(
        dec="UF", backend=draw(st.sampled_from(["rustworkx", "networkx"])), seed=draw(gen.seeds()),
        errs=draw(st.sampled_from(["few", "sparse", "mid", "dense"])), swap=draw(st.sampled_from(["rare", "half", "cluster"])),
        weights=draw(st.sampled_from(["default", "uniform"])), integer=False, mult=1, pre=False,
        cycles=draw(st.sampled_from([0, 1, 2, 5, 6])), logical=draw(st.integers(0, 7)), outside=draw(st.booleans()))
    return spec


SUBS = [
    Sub("equal_syndromes", check, cases, quick=3000, thorough=40000),
    Sub("clusters_at_both_sides", check, spanning, quick=2400, thorough=30000),
]
