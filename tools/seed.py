"""Development tool: plants bugs in scratch copies of /repo and measures which checks see them.

seed.py make SPECFILE [ID...]     write seeded/<id>/ from the specs after confirming demo, build and tests
seed.py check [ID...] [--props C01,C02]   run the property's check against each planted bug
"""
import concurrent.futures as cf
import json
import os
import queue
import shutil
import signal
import subprocess
import sys
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
BASE = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", []) or [])
DEMO = '#!/bin/bash\n. /opt/vp/env.sh\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\nexec $PY "$(dirname "$0")/demo.py"\n'
N = int(os.environ.get("SEED_JOBS", "3"))
pool = queue.Queue()


def sh(cmd, cwd, timeout=900, env=None):
    p = subprocess.Popen(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env={**os.environ, **(env or {})}, start_new_session=True)
    try:
        return (lambda o: (p.returncode, o))(p.communicate(timeout=timeout)[0])
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return 124, "timeout"


def fresh(w):
    if not os.path.isdir(w):
        subprocess.check_call(["cp", "-a", "/repo", w])
    sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", w)


def build(w):
    b = w + "-build"
    rc, out = sh(". /opt/vp/env.sh; cmake -S %s -B %s -Wno-dev -DCMAKE_BUILD_TYPE=Release -DFETCHCONTENT_FULLY_DISCONNECTED=ON "
                 "-DFETCHCONTENT_SOURCE_DIR_LEMON=/opt/vp/cmake/lemon -DFETCHCONTENT_SOURCE_DIR_PYBIND11=/opt/vp/cmake/pybind11 "
                 "-DPYTHON_EXECUTABLE=$PY -DPython_EXECUTABLE=$PY -DPython3_EXECUTABLE=$PY && PYTHONDONTWRITEBYTECODE=1 $PY setup.py build_cmake --inplace --build-temp %s" % (w, b, b), w)
    return rc, out


def tests(w):
    x = w + "-junit.xml"
    rc, out = sh(". /opt/vp/env.sh; unset PYTHONPATH; export PYTHONDONTWRITEBYTECODE=1; PYTHONPATH=%s:/opt/vp/plugins $PY -m pytest tests -p vp_fixed_seed -q -p no:cacheprovider "
                 "--timeout=300 --continue-on-collection-errors -n 3 --dist=loadfile -o junit_family=xunit2 --junitxml=%s" % (w, x), w, 400)
    tail = out.strip().splitlines()[-1] if out.strip() else ""
    return ("failed" not in tail and "error" not in tail and "1842 passed" in tail), tail


def make(spec):
    w = pool.get()
    try:
        fresh(w)
        d = os.path.join(S, spec["id"])
        for f, old, new in spec["edits"]:
            p = os.path.join(w, f)
            s = open(p).read()
            if s.count(old) != 1:
                return spec["id"], "EDIT matches %d times: %s" % (s.count(old), old[:60])
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "diff"], cwd=w, text=True)
        cpp = ".cpp" in diff or ".hpp" in diff
        tmp = w + "-demo"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        open(os.path.join(tmp, "demo.sh"), "w").write(DEMO)
        open(os.path.join(tmp, "demo.py"), "w").write(spec["demo"])
        if cpp:
            rc, out = build(w)
            if rc:
                return spec["id"], "BUILD " + out[-500:]
        rc1, out1 = sh("bash %s/demo.sh" % tmp, w, 300)
        if rc1 == 0:
            return spec["id"], "DEMO passes with the bug"
        if rc1 == 124:
            out1 = "timeout"
        ok, tail = tests(w)
        sh("git checkout -q -- .", w)
        if cpp:
            build(w)
        rc0, out0 = sh("bash %s/demo.sh" % tmp, w, 300)
        if rc0:
            return spec["id"], "DEMO fails without the bug: " + out0[-700:]
        if not ok:
            return spec["id"], "TESTS see it: " + tail
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(tmp, d)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        return spec["id"], "ok | with the bug: " + (out1.strip().splitlines() or [""])[-1][:150]
    finally:
        pool.put(w)


def check(sid, props):
    w = pool.get()
    try:
        fresh(w)
        d = os.path.join(S, sid)
        meta = json.load(open(os.path.join(d, "meta.json")))
        rc, out = sh("git apply %s/patch.diff" % d, w)
        if rc:
            return sid, "PATCH does not apply: " + out[:200]
        res = []
        for p in props or [meta["property"]]:
            t = time.time()
            rc, out = sh("./check.sh %s %s" % (p, os.environ.get("TIER", "quick")), V, 1500, {"VERIF_REPO": w, "VERIF_SEED": os.environ.get("VERIF_SEED", "1")})
            hit = rc == 1 and "VIOLATION property=%s" % p in out
            lines = [l for l in out.splitlines() if l.startswith(("violation", "code under", "unusable", "hang"))]
            res.append("%s %s %.0fs %s" % (p, "CAUGHT" if hit else "missed" if rc == 0 else "rc%d %s" % (rc, out[-300:]), time.time() - t, (lines or [""])[0][:130]))
        sh("git checkout -q -- .", w)
        return sid, " ; ".join(res)
    finally:
        pool.put(w)


def main():
    n = N if sys.argv[1] == "make" else int(os.environ.get("SEED_JOBS", "2"))
    for i in range(n):
        pool.put("/tmp/seedw%d" % i)
    args = [a for a in sys.argv[2:] if not a.startswith("--")]
    if sys.argv[1] == "make":
        ns = {}
        exec(open(args[0]).read(), ns)
        jobs = [(make, (s,)) for s in ns["SPECS"] if not args[1:] or s["id"] in args[1:]]
    else:
        props = [a.split("=")[1].split(",") for a in sys.argv[2:] if a.startswith("--props")]
        jobs = [(check, (i, props[0] if props else None)) for i in (args or sorted(os.listdir(S)))]
    with cf.ThreadPoolExecutor(n) as ex:
        for f in cf.as_completed([ex.submit(j, *a) for j, a in jobs]):
            print(*f.result(), flush=True)


main()
