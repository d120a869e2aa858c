"""C22: Monte Carlo reports exactly the number of failed trials."""
from harness import lemon

lemon.install()

import csv
import os
import shutil
import tempfile
import warnings

import numpy as np
from hypothesis import strategies as st

warnings.simplefilter("ignore")

from flamingpy import simulations as sim
from flamingpy.codes import SurfaceCode
from flamingpy.decoders import decoder as dec
from flamingpy.noise import CVLayer, CVMacroLayer, IidNoise
from harness import fp, gen
from harness.core import Sub, require

PROPERTY = "C22"
RULE = ("schedules of trial outcomes realised by a scripted noise model on real codes (nothing, trivial cycles, correctable errors, logical "
        "strings, logical strings plus errors), every trial count, decoder and weight option, split over any number of simulated ranks; the "
        "reported count is compared with the schedule and the weights left on the code with the requested options; real noise models are "
        "recorded and each verdict re-derived on a fresh code; non-trivial = both outcomes occur, or several ranks")


class Script:
    """A noise model that plays a schedule of residuals with known verdicts."""

    def __init__(self, code, ref, schedule, seed, blueprint):
        self.code, self.ref, self.schedule = code, ref, schedule
        self.pos = 0
        self.rng = np.random.default_rng(seed)
        self.weights, self.streams, self.fails, self.syndromes = [], [], 0, []
        self.blueprint = blueprint
        d = ref.distance
        self.t = (d - 1) // 2
        self.cycles = ref.trivial_cycles()
        self.lines = [l for l in ref.logical_lines().values() if not ref.is_trivial(l)]

    def flips(self, kind):
        """A residual and whether it must fail."""
        out = set()
        if kind in ("cycle", "logical", "logical+", "error"):
            for k in self.rng.integers(len(self.cycles), size=2 if kind != "error" else 0):
                out ^= set(self.cycles[int(k)])
        if kind.startswith("logical"):
            out ^= set(self.lines[int(self.rng.integers(len(self.lines)))])
        if kind in ("error", "logical+"):
            qs = self.ref.qubits
            for k in self.rng.choice(len(qs), size=self.t, replace=False):
                out ^= {qs[int(k)]}
        return out, kind.startswith("logical")

    def apply_noise(self, rng=None):
        self.note()
        require(self.pos < len(self.schedule), "more trials than requested")
        kind = self.schedule[self.pos]
        self.pos += 1
        flips, fail = self.flips(kind)
        self.fails += fail
        require(isinstance(rng, np.random.Generator), "noise applied with generator %r", rng)
        self.streams.append(float(rng.random()))
        fp.set_bits(self.code, flips)
        g = self.code.graph
        for n in g.nodes:
            if self.blueprint:
                g.nodes[n]["state"] = self.blueprint
                g.nodes[n]["hom_val_p"] = 0.3
                g.nodes[n]["p_phase_cond"] = 0.125
            g.nodes[n]["weight"] = -55

    def note(self):
        """What the previous trial left behind."""
        g = self.code.graph
        if self.pos:
            self.weights.append({n: g.nodes[n].get("weight") for n in self.ref.qubits})
            self.syndromes.append(self.ref.syndrome([q for q in self.ref.qubits if g.nodes[q]["bit_val"]]))


def expected_weights(case, decoder, opts):
    code = fp.build(case)
    for n in code.graph.nodes:
        code.graph.nodes[n].update(state=state_label(case["opts"]), hom_val_p=0.3, p_phase_cond=0.125, weight=-55, bit_val=0)
    dec.assign_weights(code, decoder, **(opts or {}))
    return {n: code.graph.nodes[n]["weight"] for n in fp.ref(case).qubits}


OPTS = {"none": None, "empty": {}, "uniform": {"method": "uniform"},
        "blue": {"method": "blueprint", "prob_precomputed": True}, "blue_int": {"method": "blueprint", "prob_precomputed": True, "integer": True, "multiplier": 100},
        "blue_delta": {"method": "blueprint", "delta": 0.11}, "blue_pre_only": {"prob_precomputed": True, "method": "blueprint", "multiplier": 7}, "blue_single": {"method": "blueprint"}, "blue_mult": {"method": "blueprint", "delta": 0.2, "integer": True, "multiplier": 1000}}


def state_label(opts):
    """All neighbours p-squeezed when the options leave the phase-error probability of other qubits undefined."""
    return "p" if opts == "blue_single" else "GKP"


class Comm:
    """Sums contributions of ranks run one after another, the root last."""

    def __init__(self):
        self.total, self.calls = 0.0, 0

    def Reduce(self, sendbuf, recvbuf, op=None, root=0):
        send = sendbuf[0] if isinstance(sendbuf, (list, tuple)) else sendbuf
        self.calls += 1
        self.total = self.total + np.array(send, dtype=float)
        if recvbuf is not None:
            recv = recvbuf[0] if isinstance(recvbuf, (list, tuple)) else recvbuf
            recv[...] = self.total

    def reduce(self, value, op=None, root=0):
        self.calls += 1
        self.total = self.total + value
        return self.total

    Allreduce = Reduce
    allreduce = reduce


class FakeMPI:
    SUM = "sum"


def verify_trials(script, want, what):
    script.note()
    require(script.pos == len(script.weights), "%s: bookkeeping", what)
    for k, (w, s) in enumerate(zip(script.weights, script.syndromes)):
        require(not s, "%s: trial %d was left with a non-trivial syndrome", what, k + 1)
        require(w == want, "%s: trial %d was decoded with other weights than requested", what, k + 1)


def check(case, ctx):
    ref = fp.ref(case)
    opts = OPTS[case["opts"]]
    blueprint = state_label(case["opts"]) if case["opts"].startswith("blue") else None
    if case["opts"] == "blue_single" and min(len(ref.adj[q]) for q in ref.qubits) < 2:
        ctx.rejected = True
        return
    want = expected_weights(case, case["decoder"], opts)
    sched = case["schedule"]
    trials = len(sched)
    sim.int_time = case["seed"]
    code = fp.build(case, backend=case["backend"])
    keep = dict(opts) if opts else opts
    args = {"weight_opts": opts}
    if case["ranks"] == 0:   # serial
        script = Script(code, ref, sched, case["seed"], blueprint)
        errors = sim.ec_monte_carlo(trials, code, script, case["decoder"], args)
        require(script.pos == trials, "%d trials requested, noise applied %d times", trials, script.pos)
        require(isinstance(errors, (int, np.integer)) and errors == script.fails, "%d of %d trials failed, %r reported", script.fails, trials, errors)
        verify_trials(script, want, "serial")
        require(len(set(script.streams)) == trials, "two trials saw the same random numbers")
        ctx.mark(0 < script.fails < trials)
    else:
        had = sim.__dict__.get("MPI", None)
        sim.MPI = FakeMPI
        try:
            comm = Comm()
            left = list(sched)
            total_fail = done = 0
            streams = []
            for rank in list(range(1, case["ranks"])) + [0]:
                script = Script(code, ref, left, case["seed"] + rank, blueprint)
                errors = sim.ec_monte_carlo(trials, code, script, case["decoder"], args, comm, rank, case["ranks"])
                left = left[script.pos:]
                done += script.pos
                total_fail += script.fails
                if script.pos:
                    verify_trials(script, want, "rank %d" % rank)
                streams.append(script.streams)
            require(done == trials, "%d trials over %d ranks, %d run", trials, case["ranks"], done)
            require(comm.calls == case["ranks"], "%d ranks, %d reductions", case["ranks"], comm.calls)
            require(errors == total_fail, "%d of %d trials failed on %d ranks, the root reports %r", total_fail, trials, case["ranks"], errors)
            flat = [x for s in streams for x in s]
            require(len(set(flat)) == len(flat), "two ranks share random numbers")
        finally:
            if had is None:
                del sim.MPI
            else:
                sim.MPI = had
        ctx.mark(case["ranks"] > 1)
    require(opts == keep and args == {"weight_opts": opts}, "the decoder arguments were changed")
    ctx.label("ranks%d" % case["ranks"], case["decoder"], "opts-" + case["opts"])


KINDS = ["nothing", "cycle", "error", "logical", "logical+"]


@st.composite
def cases(draw):
    c = draw(gen.code_spec(lo=2, hi=4, periodic_lo=3, max_volume=36))
    decoder = draw(st.sampled_from(["MWPM", "UF"]))
    opts = draw(st.sampled_from(sorted(OPTS) if decoder == "MWPM" else ["none", "empty", "uniform"]))
    bias = draw(st.sampled_from([KINDS, ["logical"], ["nothing"], ["error", "logical+"], ["logical", "cycle"]]))
    c.update({"seed": draw(gen.seeds()), "decoder": decoder, "opts": opts, "backend": draw(st.sampled_from(["networkx", "rustworkx"])),
              "schedule": draw(st.lists(st.sampled_from(bias), min_size=0, max_size=9)), "ranks": draw(st.sampled_from([0, 0, 1, 2, 3, 4, 7, 12]))})
    return c


# ------------------------------------------------------------------ real noise, verdicts re-derived on fresh codes
class Recorder:
    def __init__(self, noise, code):
        self.noise, self.code, self.snaps = noise, code, []

    def apply_noise(self, rng=None):
        self.noise.apply_noise(rng)
        self.snaps.append({n: dict(d) for n, d in self.code.graph.nodes(data=True)})


def make_noise(case, code):
    if case["model"] == "iid":
        return IidNoise(code, case["p"])
    if case["model"] == "cv":
        return CVLayer(code, delta=case["delta"], p_swap=case["swap"])
    return CVMacroLayer(code, delta=case["delta"], p_swap=case["swap"])


def check_real(case, ctx):
    sim.int_time = case["seed"]
    code = fp.build(case)
    rec = Recorder(make_noise(case, code), code)
    opts = None
    if case["blue"] and case["decoder"] == "MWPM" and case["model"] != "iid":
        opts = {"method": "blueprint", **({"prob_precomputed": True} if case["model"] == "macro" else {"delta": case["delta"]})}
    errors = sim.ec_monte_carlo(case["trials"], code, rec, case["decoder"], {"weight_opts": opts})
    require(len(rec.snaps) == case["trials"], "%d trials requested, noise applied %d times", case["trials"], len(rec.snaps))
    fails = 0
    for snap in rec.snaps:
        fresh = fp.build(case)
        for n, d in snap.items():
            fresh.graph.nodes[n].update({k: v for k, v in d.items() if k != "weight"})
        fails += not dec.correct(fresh, decoder=case["decoder"], weight_options=opts)
    require(errors == fails, "%d of the %d recorded trials fail, %r reported", fails, case["trials"], errors)
    ctx.mark(0 < fails < case["trials"])
    ctx.label(case["model"], case["decoder"])


@st.composite
def real_cases(draw):
    c = draw(gen.code_spec(lo=2, hi=3, periodic_lo=3, max_volume=27))
    c.update({"seed": draw(gen.seeds()), "model": draw(st.sampled_from(["iid", "cv", "macro"])), "p": draw(st.sampled_from([0.03, 0.1, 0.2, 0.5])),
              "delta": draw(st.sampled_from([0.05, 0.15, 0.3])), "swap": draw(st.sampled_from([0, 0.1, 0.3])), "decoder": draw(st.sampled_from(["MWPM", "UF"])),
              "blue": draw(st.booleans()), "trials": draw(st.integers(1, 10))})
    return c


# ------------------------------------------------------------------ run_ec_simulation end to end
def check_run(case, ctx):
    ref = fp.ref(case)
    sim.int_time = case["seed"]
    made = []

    def scripted(code, **kw):
        s = Script(code, ref, case["schedule"], case["seed"], False)
        s.kw = kw
        made.append(s)
        return s

    scripted.__name__ = "Scripted"
    tmp = tempfile.mkdtemp(prefix="verif-c22-")
    try:
        path = os.path.join(tmp, "r.csv")
        d = case["d"] if isinstance(case["d"], int) else tuple(case["d"])
        sim.run_ec_simulation(len(case["schedule"]), SurfaceCode, {"distance": d, "ec": case["ec"], "boundaries": case["b"]}, scripted,
                              {"gamma": 3}, case["decoder"], {"weight_opts": None}, path)
        rows = list(csv.reader(open(path, newline="")))
    finally:
        shutil.rmtree(tmp)
    require(len(made) == 1 and made[0].kw == {"gamma": 3}, "the noise model was built %d times", len(made))
    s = made[0]
    require(s.pos == len(case["schedule"]), "%d trials requested, %d run", len(case["schedule"]), s.pos)
    rec = dict(zip(rows[0], rows[1]))
    require(int(rec["errors"]) == s.fails and int(rec["trials"]) == s.pos, "%d of %d trials failed, the record says %s of %s", s.fails, s.pos, rec["errors"], rec["trials"])
    ctx.mark(0 < s.fails < s.pos)


@st.composite
def run_cases(draw):
    c = draw(gen.code_spec(lo=2, hi=3, periodic_lo=3, max_volume=27))
    c.update({"seed": draw(gen.seeds()), "decoder": draw(st.sampled_from(["MWPM", "UF"])), "schedule": draw(st.lists(st.sampled_from(KINDS), min_size=0, max_size=6))})
    return c


# ------------------------------------------------------------------ counts beyond small counters
class Tiny:
    """Flips nothing, or one logical line, as scheduled (a bit per trial)."""

    def __init__(self, code, ref, bits):
        self.code, self.bits, self.pos, self.fails = code, bits, 0, 0
        self.line = next(l for l in ref.logical_lines().values() if not ref.is_trivial(l))

    def apply_noise(self, rng=None):
        fail = self.bits[self.pos]
        self.pos += 1
        self.fails += int(fail)
        fp.set_bits(self.code, self.line if fail else ())


def check_many(case, ctx):
    ref = fp.ref(case)
    sim.int_time = case["seed"]
    code = fp.build(case)
    bits = np.random.default_rng(case["seed"]).random(case["trials"]) < case["rate"]
    noise = Tiny(code, ref, bits)
    errors = sim.ec_monte_carlo(case["trials"], code, noise, case["decoder"], {"weight_opts": None})
    require(noise.pos == case["trials"], "%d trials requested, noise applied %d times", case["trials"], noise.pos)
    require(errors == noise.fails, "%d of %d trials failed, %r reported", noise.fails, case["trials"], errors)
    ctx.mark(noise.fails not in (0, case["trials"]))
    ctx.label("long")


@st.composite
def many_cases(draw):
    return {"d": 2, "ec": draw(st.sampled_from(gen.ECS)), "b": "open", "seed": draw(gen.seeds()), "trials": draw(st.integers(120, 700)),
            "rate": draw(st.sampled_from([0.02, 0.5, 0.98, 1.0, 0.0])), "decoder": draw(st.sampled_from(["MWPM", "UF"]))}


HUGE = [{"d": 2, "ec": "primal", "b": "open", "seed": 5, "trials": 33500, "rate": r, "decoder": "MWPM"} for r in (0.01, 0.99)]


SUBS = [Sub("many_trials", check_many, many_cases, quick=48, thorough=800, examples=HUGE, share=0.7),
        Sub("schedules", check, cases, quick=500, thorough=12000), Sub("real_noise", check_real, real_cases, quick=160, thorough=4000, share=0.7),
        Sub("end_to_end", check_run, run_cases, quick=100, thorough=2500, share=0.3)]
