"""Runner for generated-input checks.

A check is a list of `Sub` objects.  Each has a generator of plain-data (JSON) cases and a function that
judges one case against an oracle and raises `Violation` when the property is broken.  Cases are drawn by
Hypothesis (seeded from VERIF_SEED, no example database), sharded over forked worker processes, and a
failing case is shrunk to a minimal one, which becomes the replay file.
"""
import hashlib
import importlib
import json
import mmap
import os
import pickle
import random
import resource
import signal
import struct
import sys
import tempfile
import time
import traceback
import zlib
from collections import Counter

from harness.bootstrap import HarnessError, REPO, VERIF

NSHARDS = int(os.environ.get("VERIF_SHARDS", "8"))
HANG_S = 150.0
SHRINK_S = {"quick": 40.0, "thorough": 120.0}


class Violation(AssertionError):
    """The property is broken on this case."""


class StopSearch(BaseException):
    """Ends a Hypothesis run early (time budget, or another worker found a violation)."""


class CaseHang(Exception):
    pass


def scribble(x):
    """Overwrite everything that can be written in a result."""
    import numpy as np

    if isinstance(x, np.ndarray):
        if x.flags.writeable:
            x[...] = 7
    elif hasattr(x, "tocoo") and hasattr(x, "data"):
        x.data[...] = 7
    elif isinstance(x, (list, tuple)):
        for y in x:
            scribble(y)
        if isinstance(x, list):
            x.clear()
    elif isinstance(x, (dict, set)):
        x.clear()


def _same(x, y):
    import numpy as np

    if isinstance(x, (list, tuple)):
        return type(x) is type(y) and len(x) == len(y) and all(_same(a, b) for a, b in zip(x, y))
    if hasattr(x, "tocoo"):
        return hasattr(y, "tocoo") and _same(x.toarray(), y.toarray())
    if isinstance(x, np.ndarray) or isinstance(y, np.ndarray) or isinstance(x, (float, np.floating)):
        a, b = np.asarray(x), np.asarray(y)
        return a.shape == b.shape and bool(np.array_equal(a, b, equal_nan=a.dtype.kind == "f"))
    return x == y


def repeatable(fn, *args, **kw):
    """Call fn, overwrite its result (made from copies of the arguments) and call it again: the same must come out."""
    import copy

    first = fn(*copy.deepcopy(args), **copy.deepcopy(kw))
    kept = copy.deepcopy(first)
    scribble(first)
    again = fn(*copy.deepcopy(args), **copy.deepcopy(kw))
    require(_same(kept, again), "%s gives another result after its first one was overwritten", getattr(fn, "__name__", fn))
    return again


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


class Ctx:
    __slots__ = ("labels", "nontrivial", "rejected")

    def __init__(self):
        self.labels = []
        self.nontrivial = False
        self.rejected = False

    def label(self, *names):
        self.labels.extend(str(n) for n in names)

    def mark(self, cond=True):
        if cond:
            self.nontrivial = True


class Sub:
    """One generated check.

    strategy:  zero-argument callable returning a Hypothesis strategy of JSON-able cases (or None)
    enum:      callable(tier) -> iterable of cases, evaluated completely (or until the time budget ends)
    examples:  fixed cases evaluated first
    """

    def __init__(self, name, check, strategy=None, quick=400, thorough=8000, enum=None, examples=(), share=1.0,
                 rule=""):
        self.name, self.check, self.strategy = name, check, strategy
        self.count = {"quick": quick, "thorough": thorough}
        self.enum, self.examples, self.share, self.rule = enum, list(examples), share, rule


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def _plain(x):
    """JSON view of a generated case (tuples become lists, numpy scalars become numbers)."""
    if isinstance(x, dict):
        return {str(k): _plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_plain(v) for v in x]
    if isinstance(x, (str, bool, int, float)) or x is None:
        return x
    if hasattr(x, "item"):
        return x.item()
    raise HarnessError(f"case is not plain data: {type(x)}")


class Shared:
    """Per-worker shared memory: start time of the running case, and the case itself."""

    SIZE = 1 << 21

    def __init__(self):
        self.m = mmap.mmap(-1, self.SIZE)

    def begin(self, sub, text):
        b = json.dumps([sub, text]).encode()[: self.SIZE - 32]
        self.m[0:8] = struct.pack("d", 0.0)
        self.m[8:16] = struct.pack("q", len(b))
        self.m[16:16 + len(b)] = b
        self.m[0:8] = struct.pack("d", time.monotonic())  # last: a reader never sees half a case as running

    def end(self):
        self.m[0:8] = struct.pack("d", 0.0)

    def since(self):
        """Start time of the running case, 0.0 between cases."""
        return struct.unpack("d", self.m[0:8])[0]

    def current(self):
        """The running case of a worker that is stuck or dead (its record no longer changes)."""
        t, n = struct.unpack("dq", self.m[0:16])
        if t == 0.0 or n <= 0:
            return None
        try:
            sub, text = json.loads(self.m[16:16 + n].decode())
        except ValueError:
            return None
        return t, sub, text


class LineLog:
    """Which lines of the code under test ran (each line is reported once, so the cost is negligible)."""

    def __init__(self):
        self.root = os.path.join(REPO, "flamingpy") + os.sep
        self.seen = {}
        mon = getattr(sys, "monitoring", None)
        if mon is None or mon.get_tool(4) is not None:
            return
        mon.use_tool_id(4, "verif")
        mon.register_callback(4, mon.events.LINE, self.on_line)
        mon.set_events(4, mon.events.LINE)

    def on_line(self, code, line):
        if code.co_filename.startswith(self.root):
            self.seen.setdefault(code.co_filename[len(self.root):], set()).add(line)
        return sys.monitoring.DISABLE


def _from_repo(tb):
    root = os.path.join(REPO, "flamingpy") + os.sep
    return any(f.filename.startswith(root) for f in traceback.extract_tb(tb))


def run_case(sub, case, hang=HANG_S):
    """Evaluate one case; returns (ctx, None) or (ctx, failure text)."""
    import numpy as np

    np.random.seed(20220714)
    random.seed(20220714)
    ctx = Ctx()

    def on_alarm(signum, frame):
        raise CaseHang()

    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, hang)
    try:
        sub.check(case, ctx)
        return ctx, None
    except Violation as e:
        return ctx, "violation: %s" % e
    except CaseHang:
        return ctx, "hang: no result after %d s" % hang
    except HarnessError:
        raise
    except Exception as e:  # an answer the oracle cannot digest, or a crash of the code under test
        where = "code under test raised" if _from_repo(e.__traceback__) else "unusable result"
        tail = "".join(traceback.format_exception(type(e), e, e.__traceback__)[-3:])
        return ctx, "%s: %s: %s\n%s" % (where, type(e).__name__, e, tail)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


class ShardState:
    def __init__(self):
        self.evals = Counter()
        self.labels = {}
        self.hashes = {}
        self.samples = {}
        self.failures = []
        self.notes = []
        self.skipped = Counter()
        self.error = None
        self.enum_done = {}
        self.lines = {}


def _shard(mod, tier, seed, shard, nshards, t_end, shared, stop_flag, known):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    st = ShardState()
    st.lines = LineLog().seen
    subs = list(mod.SUBS)
    total_share = sum(s.share for s in subs)
    for pos, sub in enumerate(subs):
        now = time.monotonic()
        rest = sum(s.share for s in subs[pos:]) or 1.0
        sub_end = now + max(0.5, (t_end - now)) * sub.share / rest
        labels = st.labels.setdefault(sub.name, Counter())
        hashes = st.hashes.setdefault(sub.name, set())
        samples = st.samples.setdefault(sub.name, [])
        fail = {"case": None, "msg": None, "t0": None, "seen": {}}

        def evaluate(case, shrinkable=True):
            if stop_flag[0:1] == b"1" and fail["case"] is None:
                raise StopSearch()
            now = time.monotonic()
            if fail["t0"] is None:
                if now > sub_end:
                    raise StopSearch()
            elif now > fail["t0"] + SHRINK_S[tier]:
                raise StopSearch()
            text = canon(case)
            if text in fail["seen"]:
                raise Violation(fail["seen"][text])
            if (sub.name, text) in known:
                st.skipped[sub.name] += 1
                return
            shared.begin(sub.name, text)
            ctx, msg = run_case(sub, json.loads(text))
            shared.end()
            st.evals[sub.name] += 1
            if ctx.rejected:
                labels["(rejected)"] += 1
            for l in ctx.labels:
                labels[l] += 1
            if ctx.nontrivial:
                hashes.add(hashlib.blake2b(text.encode(), digest_size=10).digest())
                n = len(hashes)
                if len(samples) < 2 or (n in (17, 61) and len(samples) < 4):
                    samples.append(json.loads(text) if len(text) < 1500 else text[:1500] + "...")
            if msg is not None:
                if fail["t0"] is None:
                    fail["t0"] = time.monotonic()
                    stop_flag[0:1] = b"1"
                fail["seen"][text] = msg
                if fail["case"] is None or (len(text), text) < (len(fail["case"]), fail["case"]):
                    fail["case"], fail["msg"] = text, msg
                if msg.startswith("hang:") or not shrinkable:
                    raise StopSearch()
                raise Violation(msg)

        try:
            if shard == 0:
                for case in sub.examples:
                    evaluate(_plain(case), shrinkable=False)
            if sub.enum is not None:
                for i, case in enumerate(sub.enum(tier)):
                    if i % nshards == shard:
                        evaluate(_plain(case), shrinkable=False)
                st.enum_done[sub.name] = True
            if sub.strategy is not None:
                n = max(1, -(-sub.count[tier] // nshards))
                hseed = (seed * 1000003 + zlib.crc32((mod.PROPERTY + sub.name).encode()) + 7919 * shard) % (1 << 62)

                @hypothesis.seed(hseed)
                @settings(max_examples=n, database=None, deadline=None, derandomize=False,
                          phases=(Phase.generate, Phase.shrink), report_multiple_bugs=False, print_blob=False,
                          suppress_health_check=list(HealthCheck))
                @given(sub.strategy())
                def search(case):
                    evaluate(_plain(case))

                search()
        except StopSearch:
            pass
        except HarnessError:
            raise
        except BaseException as e:
            if fail["case"] is None:
                raise
        if fail["case"] is not None:
            st.failures.append({"sub": sub.name, "case": json.loads(fail["case"]), "msg": fail["msg"]})
            break
        if stop_flag[0:1] == b"1":
            break
    return st


def load_known(prop):
    """Known findings of a property: list of {sub, case, what}.  'fixed:' lines suppress nothing."""
    out = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf8"):
            line = line.strip()
            if line.startswith("known: "):
                d = json.loads(line[len("known: "):])
                if d["property"] == prop:
                    out.append(d)
    return out


def write_replay(prop, failure, tier, seed):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    text = canon(failure["case"])
    path = os.path.join(d, "%s-%s-%s.json" % (prop, failure["sub"], hashlib.sha1(text.encode()).hexdigest()[:10]))
    with open(path, "w") as f:
        json.dump({"property": prop, "sub": failure["sub"], "case": failure["case"], "message": failure["msg"],
                   "tier": tier, "seed": seed, "replay_with": "./check.sh --replay " + path}, f, indent=1)
    return path


def load(prop):
    return importlib.import_module("harness.props." + prop.lower())


def main_check(prop, tier, seed):
    t0 = time.monotonic()
    mod = load(prop)
    by_name = {s.name: s for s in mod.SUBS}
    if hasattr(mod, "setup"):
        mod.setup()
    budget = getattr(mod, "BUDGET", {}).get(tier, 45 if tier == "quick" else 900)
    known = load_known(prop)
    known_keys = {(k["sub"], canon(k["case"])) for k in known}
    for k in known:
        ctx, msg = run_case(by_name[k["sub"]], k["case"])
        if msg is not None:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]), flush=True)

    stop_flag = mmap.mmap(-1, 16)
    stop_flag[0:1] = b"0"
    tmp = tempfile.mkdtemp(prefix="verif-run-")
    t_end = time.monotonic() + budget
    procs = {}
    shareds = []
    sys.stdout.flush()
    for i in range(NSHARDS):
        shared = Shared()
        shareds.append(shared)
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                dn = os.open(os.devnull, os.O_WRONLY)
                os.dup2(dn, 1)
                err = os.open(os.path.join(tmp, "err%d" % i), os.O_WRONLY | os.O_CREAT)
                os.dup2(err, 2)
                resource.setrlimit(resource.RLIMIT_AS, (7 << 29, 7 << 29))
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                try:
                    st = _shard(mod, tier, seed, i, NSHARDS, t_end, shared, stop_flag, known_keys)
                except BaseException as e:
                    st = ShardState()
                    st.error = "".join(traceback.format_exception(type(e), e, e.__traceback__))
                with open(os.path.join(tmp, "out%d" % i), "wb") as f:
                    pickle.dump(st.__dict__, f)
            except BaseException:
                code = 3
            os._exit(code)
        procs[pid] = i

    results, failures, errors = [], [], []
    while procs:
        try:
            pid, status = os.waitpid(-1, os.WNOHANG)
        except ChildProcessError:
            break
        if pid == 0:
            time.sleep(0.05)
            now = time.monotonic()
            for p, i in list(procs.items()):
                start = shareds[i].since()
                if start == 0.0 or not HANG_S + 60 < now - start < 1e7:
                    continue
                cur = shareds[i].current()
                if cur and cur[0] == start:
                    os.kill(p, signal.SIGKILL)
                    failures.append({"sub": cur[1], "case": json.loads(cur[2]),
                                     "msg": "hang: no result after %d s (uninterruptible)" % (HANG_S + 60)})
                    stop_flag[0:1] = b"1"
                    del procs[p]
                    os.waitpid(p, 0)
            continue
        if pid not in procs:
            continue
        i = procs.pop(pid)
        path = os.path.join(tmp, "out%d" % i)
        if os.WIFSIGNALED(status):
            cur = shareds[i].current()
            sig = os.WTERMSIG(status)
            if cur and sig in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL):
                failures.append({"sub": cur[1], "case": json.loads(cur[2]), "msg": "crash: signal %d" % sig})
                stop_flag[0:1] = b"1"
            else:
                errors.append("worker %d ended by signal %d" % (i, sig))
        elif not os.path.exists(path):
            errors.append("worker %d wrote no result" % i)
        else:
            with open(path, "rb") as f:
                d = pickle.load(f)
            if d["error"]:
                errors.append(d["error"])
            results.append(d)
            failures += d["failures"]

    import shutil
    shutil.rmtree(tmp, ignore_errors=True)

    # ---- evidence
    evals, labels, hashes, samples, skipped = Counter(), {}, {}, {}, Counter()
    for d in results:
        evals.update(d["evals"])
        skipped.update(d["skipped"])
        for k, v in d["labels"].items():
            labels.setdefault(k, Counter()).update(v)
        for k, v in d["hashes"].items():
            hashes.setdefault(k, set()).update(v)
        for k, v in d["samples"].items():
            samples.setdefault(k, [])
            samples[k] += v
    lines = {}
    for d in results:
        for k, v in d["lines"].items():
            lines.setdefault(k, set()).update(v)
    if os.environ.get("VERIF_LINES"):
        os.makedirs(os.environ["VERIF_LINES"], exist_ok=True)
        with open(os.path.join(os.environ["VERIF_LINES"], prop + ".json"), "w") as f:
            json.dump({k: sorted(v) for k, v in lines.items()}, f)
    per_sub = {}
    for s in mod.SUBS:
        per_sub[s.name] = {
            "evaluations": evals.get(s.name, 0),
            "distinct_nontrivial": len(hashes.get(s.name, ())),
            "rule": s.rule,
            "labels": dict(sorted(labels.get(s.name, {}).items(), key=lambda kv: -kv[1])[:40]),
        }
        if s.enum is not None:
            per_sub[s.name]["enumeration_complete"] = (
                len(results) == NSHARDS and all(d["enum_done"].get(s.name) for d in results))
        if skipped.get(s.name):
            per_sub[s.name]["excluded_known_findings"] = skipped[s.name]
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": sum(evals.values()),
            "distinct_nontrivial": sum(len(v) for v in hashes.values()),
            "rule": mod.RULE,
            "samples": [{"check": k, "case": c} for k, v in samples.items() for c in v[:3]][:30],
            "checks": per_sub,
            "code_lines_executed": {k: len(v) for k, v in sorted(lines.items())},
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": len(failures),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)

    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s" % (
        prop, tier, seed, evidence["coverage"]["evaluations"], evidence["coverage"]["distinct_nontrivial"],
        evidence["wall_s"]))
    for k, v in per_sub.items():
        print("  %-28s %7d cases %7d non-trivial  %s" % (
            k, v["evaluations"], v["distinct_nontrivial"],
            " ".join("%s=%d" % kv for kv in list(v["labels"].items())[:10])))
    if failures:
        best = min(failures, key=lambda f: (f["msg"].startswith("hang:"), len(canon(f["case"])), canon(f["case"])))
        path = write_replay(prop, best, tier, seed)
        print("check %s failed on %s" % (best["sub"], canon(best["case"])[:2000]))
        print(best["msg"])
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        return 1
    if errors:
        for e in errors[:3]:
            print("ERROR in the check: " + e, file=sys.stderr)
        return 2
    if evidence["coverage"]["evaluations"] == 0:
        print("ERROR: nothing was evaluated", file=sys.stderr)
        return 2
    return 0


def main_replay(path):
    with open(path) as f:
        d = json.load(f)
    mod = load(d["property"])
    if hasattr(mod, "setup"):
        mod.setup()
    sub = {s.name: s for s in mod.SUBS}[d["sub"]]
    sys.stdout.flush()
    ctx, msg = run_case(sub, d["case"])
    if msg is None:
        print("replay: the property holds on this case now")
        return 0
    print(msg)
    print("VIOLATION property=%s replay=%s" % (d["property"], os.path.abspath(path)))
    return 1
