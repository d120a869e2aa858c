"""C23: simulation results files accumulate complete, parseable records."""
from harness import lemon

lemon.install()

import ast
import contextlib
import csv
import io
import os
import runpy
import shutil
import sys
import tempfile
import time
import warnings
from datetime import datetime

import numpy as np
from hypothesis import strategies as st

warnings.simplefilter("ignore")

from flamingpy import simulations as sim
from flamingpy.codes import SurfaceCode
from harness import fp, gen
from harness.bootstrap import REPO
from harness.core import Sub, require

PROPERTY = "C23"
RULE = ("histories of runs (new file, existing file with arbitrary earlier lines, failing runs, other ranks) whose argument values contain "
        "commas, quotes, newlines, nested containers, arrays and None, and command lines with every decoder spelling; the file is read back with "
        "the csv module and every field compared with what was run; non-trivial = at least two runs, or a value that needs quoting")
SPECIAL = {"array": lambda: np.arange(6).reshape(2, 3) / 7, "set": lambda: {3}, "func": lambda: check_history, "np": lambda: np.float64(0.1), "npint": lambda: np.int64(7),
           "class": lambda: SurfaceCode, "bigarray": lambda: np.linspace(0, 1, 40)}
_codes = {}


def value(v):
    """Argument values from plain data: {'!': kind} for special values, {'t': [...]} for tuples."""
    if isinstance(v, dict) and set(v) == {"!"}:
        return SPECIAL[v["!"]]()
    if isinstance(v, dict) and set(v) == {"t"}:
        return tuple(value(x) for x in v["t"])
    if isinstance(v, dict):
        return {k: value(x) for k, x in v.items()}
    if isinstance(v, list):
        return [value(x) for x in v]
    return v


def denotes(field, v):
    """The field of the record shows the value."""
    if field in (str(v), repr(v)):
        return True
    try:
        return bool(ast.literal_eval(field) == v)
    except Exception:
        return False


def base_code():
    if "c" not in _codes:
        _codes["c"] = SurfaceCode(2, "primal", "open")
        _codes["line"] = sorted(fp.ref({"d": 2, "ec": "primal", "b": "open"}).logical_lines().items())[0][1]
    return _codes["c"]


class Boom(Exception):
    pass


def make_code(name):
    def build(**kw):
        return base_code()

    build.__name__ = name
    return build


def make_noise(name, schedule, boom):
    class N:
        def __init__(self, code, **kw):
            self.code, self.k = code, 0

        def apply_noise(self, rng=None):
            if boom is not None and self.k == boom:
                raise Boom()
            fp.set_bits(self.code, _codes["line"] if schedule[self.k] else ())
            self.k += 1

    N.__name__ = name
    return N


class Comm:
    def __init__(self, rank, size):
        self.rank, self.size = rank, size

    def Get_size(self):
        return self.size

    def Get_rank(self):
        return self.rank

    def Reduce(self, sendbuf, recvbuf, op=None, root=0):
        if self.rank == 0:
            recvbuf[...] = sendbuf


class FakeMPI:
    SUM = "sum"


def check_record(header, row, run, t0, t1, what):
    require(len(row) == len(header), "%s: %d fields for %d columns: %r", what, len(row), len(header), row)
    want = run["columns"]
    for k, (name, v) in enumerate(want):
        require(header[k] == name, "%s: column %d is %r, should be %r", what, k, header[k], name)
        require(denotes(row[k], v), "%s: column %r holds %r, the run used %r", what, name, row[k], v)
    rest = dict(zip(header[len(want):], row[len(want):]))
    for name in ("errors", "trials", "current_time", "simulation_time", "mpi_size"):
        require(name in rest, "%s: no column %s after the arguments", what, name)
    if run.get("fails") is not None:
        require(rest["errors"] == str(run["fails"]), "%s: errors %r, %d trials failed", what, rest["errors"], run["fails"])
    else:
        require(0 <= int(rest["errors"]) <= run["trials"], "%s: errors %r of %d trials", what, rest["errors"], run["trials"])
    require(rest["trials"] == str(run["trials"]), "%s: trials %r, %d were run", what, rest["trials"], run["trials"])
    require(0 <= float(rest["simulation_time"]) <= t1 - t0 + 0.01, "%s: run time %r, the run took %.3f s", what, rest["simulation_time"], t1 - t0)
    require(rest["mpi_size"] == str(run["size"]), "%s: mpi_size %r, run on %d", what, rest["mpi_size"], run["size"])
    stamp = datetime.strptime(rest["current_time"], "%H:%M:%S")
    now = datetime.now()
    off = ((now.hour - stamp.hour) * 3600 + (now.minute - stamp.minute) * 60 + now.second - stamp.second) % 86400
    require(off <= 600 or off >= 86400 - 5, "%s: time stamp %r is not now", what, rest["current_time"])


def read(path):
    with open(path, newline="", encoding="utf8") as f:
        return list(csv.reader(f))


def check_history(case, ctx):
    base_code()
    tmp = tempfile.mkdtemp(prefix="verif-c23-")
    try:
        path = os.path.join(tmp, case["file"])
        if case["sub"]:
            os.mkdir(os.path.join(tmp, "sub dir"))
            path = os.path.join(tmp, "sub dir", case["file"])
        prior = []
        if case["prior"] is not None:
            buf = io.StringIO(newline="")
            csv.writer(buf, lineterminator="\n").writerows(case["prior"])
            with open(path, "w", newline="", encoding="utf8") as f:
                f.write(buf.getvalue())
            prior = read(path)
        need = [False]
        runs = 0
        for k, step in enumerate(case["runs"]):
            before = open(path, "rb").read() if os.path.exists(path) else None
            old = read(path) if before is not None else None
            code_vals, noise_vals = [value(v) for v in step["code"]], [value(v) for v in step["noise"]]
            dec_vals = [value(v) for v in step["dec"]]
            code_args, noise_args = dict(zip(case["code_keys"], code_vals)), dict(zip(case["noise_keys"], noise_vals))
            dec_args = {"weight_opts": None, **dict(zip(case["dec_keys"], dec_vals))}
            sched = step["schedule"]
            trials = len(sched)
            rank, size = step["rank"]
            mine = [s for i, s in enumerate(sched) if i % size == rank]
            boom = 0 if step["boom"] and mine else None
            code, noise = make_code(step["cname"]), make_noise(step["nname"], mine, boom)
            what = "run %d" % (k + 1)
            had = sim.__dict__.get("MPI")
            if size > 1 or rank:
                sim.MPI = type("M", (FakeMPI,), {"COMM_WORLD": Comm(rank, size)})
            t0 = time.perf_counter()
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    sim.run_ec_simulation(trials, code, code_args, noise, noise_args, step["decoder"], dec_args, path)
                require(boom is None, "%s: the noise model failed and the run reported nothing", what)
            except Boom:
                pass
            finally:
                if had is None:
                    sim.__dict__.pop("MPI", None)
                else:
                    sim.MPI = had
            t1 = time.perf_counter()
            after = open(path, "rb").read() if os.path.exists(path) else None
            if boom is not None or rank:
                require(after == before, "%s: %s changed the results file", what, "a failed run" if boom is not None else "rank %d" % rank)
                continue
            require(after is not None, "%s: no results file", what)
            rows = read(path)
            columns = ([("code", step["cname"])] + list(code_args.items()) + [("noise", step["nname"])] + list(noise_args.items())
                       + [("decoder", step["decoder"])] + list(dec_args.items()))
            # other ranks contribute no successes in this simulation of rank 0
            fails = trials - sum(not s for s in mine)
            run = {"columns": columns, "trials": trials, "fails": fails, "size": size}
            if before is None:
                require(len(rows) == 2, "%s: a new file holds %d rows, should be a header and a record", what, len(rows))
                header = rows[0]
            else:
                require(after.startswith(before), "%s: earlier contents of the file were altered", what)
                require(rows[:len(old)] == old and len(rows) == len(old) + 1, "%s: %d rows became %d", what, len(old), len(rows))
                header = rows[0] if case["prior"] is None else case_header(columns)
            check_record(header, rows[-1], run, t0, t1, what)
            runs += 1
            need[0] = need[0] or any(set(str(v)) & set(',"\n\r') for _, v in columns)
        ctx.mark(runs > 1 or need[0])
        ctx.label("quoting" if need[0] else "plain", "existing" if case["prior"] is not None else "new", "runs%d" % runs)
        left = set(os.listdir(tmp)) | set(os.listdir(os.path.dirname(path)))
        require(left <= {case["file"], "sub dir"}, "stray files: %r", left)
    finally:
        shutil.rmtree(tmp)


def case_header(columns):
    """The header a user's own file is assumed to have (column order of the simulator)."""
    return [n for n, _ in columns] + ["errors", "trials", "current_time", "simulation_time", "mpi_size"]


texts = st.text(alphabet=st.characters(codec="utf-8", exclude_characters="\0"), max_size=12)
nasty = st.sampled_from(["a,b", 'say "hi"', "two\nlines", "cr\rhere", "crlf\r\n", ",", '"', "'", "", " ", "a;b", '"",""', "#", "\t", "x,\"y\",z", "é√π", "nan", "1,2"])
numbers = st.one_of(st.integers(-10**12, 10**12), st.floats(allow_nan=False), st.sampled_from([0.1, 1e-12, 0.123456789012345, 1 / 3]))
leaf = st.one_of(numbers, texts, nasty, st.booleans(), st.none(), st.sampled_from(sorted(SPECIAL)).map(lambda k: {"!": k}))
keys = st.text("abcxyz_, \"", min_size=1, max_size=4)
values = st.recursive(leaf, lambda c: st.one_of(st.lists(c, max_size=3), st.lists(c, max_size=3).map(lambda v: {"t": v}),
                                                st.dictionaries(st.text("abcxyz_, '", min_size=2, max_size=4), c, max_size=2)), max_leaves=5)
KEYS = ["distance", "ec", "boundaries", "delta", "p_swap", "weird, key", 'quo"te', "alpha", "beta"]


@st.composite
def histories(draw):
    ck = draw(st.lists(st.sampled_from(KEYS), unique=True, max_size=3))
    nk = draw(st.lists(st.sampled_from(KEYS), unique=True, max_size=3))
    dk = draw(st.lists(st.sampled_from(["backend", "opt,s", "extra"]), unique=True, max_size=1))
    runs = []
    mpi = draw(st.sampled_from([False, False, False, True]))
    for _ in range(draw(st.integers(1, 5))):
        size = draw(st.integers(1, 4)) if mpi else 1
        runs.append({"code": [draw(values) for _ in ck], "noise": [draw(values) for _ in nk], "dec": [draw(values) for _ in dk],
                     "schedule": draw(st.lists(st.integers(0, 1), max_size=6)), "rank": [draw(st.integers(0, size - 1)), size],
                     "boom": draw(st.sampled_from([False] * 6 + [True])), "cname": draw(st.sampled_from(["SurfaceCode", "MyCode", "a,b"])),
                     "nname": draw(st.sampled_from(["CVLayer", "IidNoise", 'q"q'])), "decoder": draw(st.sampled_from(["MWPM", "UF"]))})
    prior = draw(st.sampled_from([None, None, None, "x"]))
    if prior:
        prior = draw(st.lists(st.lists(st.one_of(texts, nasty), min_size=1, max_size=4), max_size=3))
    return {"file": draw(st.sampled_from(["r.csv", "sims results.csv", "out.txt", "rés.csv"])), "sub": draw(st.booleans()), "code_keys": ck, "noise_keys": nk,
            "dec_keys": dk, "runs": runs, "prior": prior}


# ------------------------------------------------------------------ the command line
SPELL = {"UF": ["unionfind", "uf", "union-find", "union find", "UF", "UnionFind", "Union-Find", "UNION FIND"],
         "MWPM": ["mwpm", "MWPM", "minimum weight perfect matching", "Minimum Weight Perfect Matching", "Mwpm"]}
BAD = ["", "mwp", "union_find", "ufo", "lemon", "MWPM ", "none"]


def run_cli(argv, cwd):
    old_argv, old_cwd = sys.argv, os.getcwd()
    sys.argv = ["simulations.py"] + argv
    os.chdir(cwd)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            runpy.run_path(os.path.join(REPO, "flamingpy", "simulations.py"), run_name="__main__")
    finally:
        sys.argv = old_argv
        os.chdir(old_cwd)


def check_cli(case, ctx):
    tmp = tempfile.mkdtemp(prefix="verif-c23-")
    try:
        os.makedirs(os.path.join(tmp, "flamingpy", ".sims_data"))
        path = os.path.join(tmp, "flamingpy", ".sims_data", "sims_results.csv")
        done = 0
        for k, step in enumerate(case["runs"]):
            what = "command %d" % (k + 1)
            before = open(path, "rb").read() if os.path.exists(path) else None
            b = step["b"]
            code_args = {"distance": tuple(step["d"]) if isinstance(step["d"], list) else step["d"], "ec": step["ec"], "boundaries": b}
            noise_args = {"error_probability": step["p"]} if step["noise"] == "IidNoise" else {"delta": step["delta"], "p_swap": step["swap"]}
            opts = None if not step["opts"] else {"method": "blueprint", **({"prob_precomputed": True} if step["noise"] == "CVMacroLayer" else {"delta": step["delta"], "integer": True, "multiplier": 100})}
            if step["noise"] == "IidNoise" or step["decoder"] in SPELL["UF"]:
                opts = {"method": "uniform"} if step["opts"] else None
            dec_args = {"weight_opts": opts}
            argv = ["-code", "SurfaceCode", "-code_args", repr(code_args), "-noise", step["noise"], "-noise_args", repr(noise_args), "-decoder", step["decoder"],
                    "-decoder_args", repr(dec_args), "-trials", str(step["trials"])]
            t0 = time.perf_counter()
            good = [d for d, names in SPELL.items() if step["decoder"] in names]
            try:
                run_cli(argv, tmp)
                require(good, "%s: decoder %r was accepted", what, step["decoder"])
            except ValueError as e:
                require(not good, "%s: decoder %r refused: %s", what, step["decoder"], e)
                require((open(path, "rb").read() if os.path.exists(path) else None) == before, "%s: a refused command wrote a record", what)
                continue
            t1 = time.perf_counter()
            after = open(path, "rb").read()
            require(before is None or after.startswith(before), "%s: earlier contents of the file were altered", what)
            rows = read(path)
            done += 1
            require(len(rows) == done + 1, "%s: %d runs gave %d rows", what, done, len(rows))
            columns = [("code", "SurfaceCode")] + list(code_args.items()) + [("noise", step["noise"])] + list(noise_args.items()) + [("decoder", good[0])] + list(dec_args.items())
            quiet = step["noise"] == "IidNoise" and step["p"] == 0
            check_record(rows[0], rows[-1], {"columns": columns, "trials": step["trials"], "fails": 0 if quiet else None, "size": 1}, t0, t1, what)
        ctx.mark(done > 0)
        ctx.label(*[s["noise"] for s in case["runs"]])
        require(os.listdir(tmp) == ["flamingpy"] and os.listdir(os.path.dirname(path)) in ([], ["sims_results.csv"]), "stray files in %s", tmp)
    finally:
        shutil.rmtree(tmp)


@st.composite
def commands(draw):
    noise = draw(st.sampled_from(["IidNoise", "CVLayer", "CVMacroLayer"]))
    runs = []
    for _ in range(draw(st.integers(1, 3))):
        c = draw(gen.code_spec(lo=2, hi=3, periodic_lo=3, max_volume=27))
        c.update({"noise": noise, "p": draw(st.sampled_from([0, 0.01, 0.1, 1.0])), "delta": draw(st.sampled_from([0.01, 0.09, 0.2])), "swap": draw(st.sampled_from([0, 0.25])),
                  "opts": draw(st.booleans()), "decoder": draw(st.sampled_from(SPELL["UF"] + SPELL["MWPM"] + SPELL["MWPM"] + BAD[:2] + [draw(st.sampled_from(BAD))])),
                  "trials": draw(st.integers(0, 4))})
        runs.append(c)
    return {"runs": runs}


SUBS = [Sub("histories", check_history, histories, quick=1200, thorough=40000), Sub("command_line", check_cli, commands, quick=160, thorough=3000, share=0.7)]
