"""C28: seeded generators make noise and full trials reproducible."""
from harness import lemon

lemon.install()

import copy
import hashlib
import json
import os
import random
import subprocess
import sys
import warnings

import numpy as np
from hypothesis import strategies as st

warnings.simplefilter("ignore")

from flamingpy.codes.surface_code import alternating_polarity
from flamingpy.noise import CVLayer, CVMacroLayer, IidNoise
from flamingpy.simulations import ec_mc_trial
from harness import fp, gen
from harness.bootstrap import HarnessError, REPO, VERIF
from harness.core import Sub, require

PROPERTY = "C28"
RULE = ("every noise model with generated parameters, alone (several applications) or in full trials with generated decoder options, run twice "
        "on equally prepared codes under different global random states; all node attributes, verdicts and generator states are compared; "
        "non-trivial = some randomness was consumed")
BITGENS = {"PCG64": np.random.PCG64, "MT19937": np.random.MT19937, "Philox": np.random.Philox, "SFC64": np.random.SFC64, "PCG64DXSM": np.random.PCG64DXSM}


def layer(case, code):
    kw = {}
    m = case["model"]
    if m == "iid":
        return IidNoise(code, case["p"])
    kw["delta"] = case["delta"]
    if case["swap"] is not None:
        kw["p_swap"] = case["swap"]
    elif case["supply"]:
        n = len(code.graph) * (4 if m == "macro" else 1)
        if not (m == "macro" and case["b"] == "periodic"):
            kw["states"] = {"p": np.arange(0, n, 3)}
    if m == "cv":
        if case["order"] is not None:
            kw["sampling_order"] = case["order"]
        return CVLayer(code, **kw)
    return CVMacroLayer(code, **kw)


def prepare(case):
    code = fp.build(case, backend=case["backend"], **({"polarity": alternating_polarity} if case["pol"] else {}))
    if case["perfect"]:
        code.graph.graph["perfect_points"] = sorted(code.graph.nodes)[:: 4]
    return code, layer(case, code)


def plain(v):
    return v.item() if hasattr(v, "item") and np.ndim(v) == 0 else v


def attrs(graph):
    return {n: {k: plain(v) for k, v in d.items()} for n, d in graph.nodes(data=True)}


def state_of(rng):
    return repr(rng.bit_generator.state)


def weight_opts(case):
    if case["wt"] == "blueprint":
        w = {"method": "blueprint"}
        if case["model"] == "macro":
            w["prob_precomputed"] = True
        else:
            w["delta"] = case["delta"]
        if case["integer"]:
            w.update(integer=True, multiplier=100)
        return w
    return {"method": "uniform"} if case["wt"] == "uniform" else None


def run(case, gseed, churn):
    """One run under a given global random state."""
    code, noise = prepare(case)
    junk = [object() for _ in range(churn)]
    rng = np.random.Generator(BITGENS[case["bitgen"]](case["seed"]))
    start = state_of(rng)
    np.random.seed(gseed)
    random.seed(gseed)
    np.random.random(gseed % 7)
    g0, p0 = repr(np.random.get_state()), repr(random.getstate())
    log = []
    for _ in range(case["K"]):
        if case["trial"]:
            res = ec_mc_trial(code, noise, case["decoder"], weight_opts(case), rng)
            log.append(bool(res))
        else:
            noise.apply_noise(rng)
        log.append(attrs(code.graph))
        if case["model"] == "macro":
            log.append(attrs(noise.egraph))
        if case["model"] != "iid":
            log.append(sorted(int(i) for i in noise.p_inds))
            log.append(sorted(int(i) for i in noise.gkp_inds))
    require(repr(np.random.get_state()) == g0, "the global NumPy random state was consumed")
    require(repr(random.getstate()) == p0, "the global random state was consumed")
    del junk
    return log, state_of(rng), start


def check(case, ctx):
    a = run(case, 1, 0)
    b = run(case, 2 + case["seed"] % 1000, case["seed"] % 97)
    require(a[1] == b[1], "equal generators end in different states")
    for k, (x, y) in enumerate(zip(a[0], b[0])):
        if x != y:
            if isinstance(x, dict):
                diff = [(n, x[n], y.get(n)) for n in x if x[n] != y.get(n)][:3]
                require(False, "record %d differs: %s", k, diff)
            require(False, "record %d differs: %s / %s", k, x, y)
    ctx.mark(a[1] != a[2])
    ctx.label(case["model"], "trial-" + case["decoder"] if case["trial"] else "noise", case["bitgen"])


@st.composite
def cases(draw):
    model = draw(st.sampled_from(["iid", "cv", "cv", "macro", "macro"]))
    c = draw(gen.code_spec(hi=5, max_volume=20 if model == "macro" else 36, periodic_lo=2))
    decoder = draw(st.sampled_from(["MWPM", "UF"]))
    wt = draw(st.sampled_from(["none", "uniform", "blueprint"]))
    if model == "iid" or decoder == "UF":
        wt = "uniform" if wt == "blueprint" else wt
    c.update({"model": model, "seed": draw(gen.seeds()), "pol": draw(st.booleans()), "p": draw(st.sampled_from([0.05, 0.2, 0.5, 0.01, 0, 1])),
              "delta": draw(st.sampled_from([0.05, 0.1, 0.3])), "swap": draw(st.sampled_from([None, None, 0.1, 0.5, 0.25, 0, 1, 0.95, 0.01])), "supply": draw(st.booleans()),
              "order": draw(st.sampled_from([None, "initial", "two-step"])), "perfect": draw(st.integers(0, 3)) == 0, "K": draw(st.integers(1, 3)),
              "trial": draw(st.booleans()), "decoder": decoder, "wt": wt, "integer": draw(st.booleans()), "bitgen": draw(st.sampled_from(sorted(BITGENS))),
              "backend": draw(st.sampled_from(["networkx", "rustworkx"]))})
    return c


# ------------------------------------------------------------------ other processes
def digest(case):
    """Everything a run leaves behind, as text."""
    try:
        log, end, _ = run(case, 1, 0)
    except Exception as e:  # the other process has to fail in the same way
        return "%s: %s" % (type(e).__name__, e)
    text = repr([sorted((n, sorted(d.items(), key=lambda kv: kv[0])) for n, d in x.items()) if isinstance(x, dict) else x for x in log]) + end
    return text


def child():
    """Reads cases from standard input, writes one digest per case."""
    cases = json.load(sys.stdin)
    out = [hashlib.sha256(digest(c).encode()).hexdigest() for c in cases]
    sys.stdout.write("\nDIGESTS " + json.dumps(out) + "\n")


def check_processes(case, ctx):
    """Two interpreters with different hash seeds (hence other set orders) must agree."""
    got = []
    for hs in case["hash_seeds"]:
        env = dict(os.environ, PYTHONHASHSEED=str(hs), PYTHONPATH=VERIF, VERIF_REPO=REPO)
        r = subprocess.run([sys.executable, "-c", "from harness import bootstrap, lemon; bootstrap.ensure(); lemon.install(%r); from harness.props import c28; c28.child()" % lemon.built],
                           input=json.dumps(case["cases"]), capture_output=True, text=True, env=env, cwd=VERIF)
        lines = [l for l in r.stdout.splitlines() if l.startswith("DIGESTS ")]
        if r.returncode or not lines:
            raise HarnessError("child process failed: " + r.stderr[-1500:])
        got.append(json.loads(lines[-1][8:]))
    for k, (a, b) in enumerate(zip(*got)):
        require(a == b, "equal runs differ between two processes with hash seeds %s: case %s", case["hash_seeds"], json.dumps(case["cases"][k]))
    ctx.mark(any(c["trial"] for c in case["cases"]))
    ctx.label(*(c["model"] for c in case["cases"]))


@st.composite
def batches(draw):
    return {"hash_seeds": draw(st.lists(st.integers(0, 4294967295), min_size=2, max_size=2, unique=True)), "cases": draw(st.lists(cases(), min_size=20, max_size=30))}


SUBS = [Sub("reproducible", check, cases, quick=700, thorough=15000),
        Sub("processes", check_processes, batches, quick=16, thorough=320, share=0.7)]
