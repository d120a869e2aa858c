"""Development tool: small syntactic mutants of flamingpy, to find behaviour that no check looks at.

mutate.py list FILE...            number of mutants per file
mutate.py run OUT.jsonl [--jobs N] [--every K] [--offset J] FILE...
Each mutant runs the checks of its file until one reports a violation; mutants that none reports are then given to the stable tests.
"""
import ast
import concurrent.futures as cf
import json
import os
import queue
import shutil
import signal
import subprocess
import sys
import threading

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {
    "codes/surface_code.py": "C02 C03 C01 C27 C06 C30", "codes/graphs/egraph.py": "C12 C13 C30 C20", "codes/graphs/stabilizer_graph.py": "C04 C03 C29 C08 C26 C33",
    "codes/stabilizer.py": "C02 C24", "decoders/decoder.py": "C06 C11 C05 C26 C32 C30", "decoders/mwpm/algos.py": "C05 C08 C32 C30", "decoders/mwpm/matching.py": "C09 C08 C05 C33",
    "decoders/mwpm/lemon.py": "C09 C08", "decoders/unionfind/algos.py": "C29 C05 C10 C07 C32", "decoders/unionfind/uf_classes.py": "C29 C05 C10",
    "noise/cv.py": "C31 C19 C20 C28 C30", "noise/iid.py": "C21 C30 C28", "cv/gkp.py": "C17 C18", "cv/ops.py": "C16 C30 C31", "utils/linalg.py": "C15 C14 C30",
    "utils/graph_states.py": "C25", "utils/viz.py": "C24 C30", "simulations.py": "C22 C23 C28",
}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
SYM = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.In: "in", ast.NotIn: "not in", ast.Is: "is", ast.IsNot: "is not"}


def mutants(path):
    src = open(path).read()
    lines = src.splitlines(keepends=True)
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()))
    raw = src.encode()

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = span(n)
        return raw[a:b].decode()

    out = []

    def put(n, new, what):
        a, b = span(n)
        if raw[a:b].decode() != new:
            out.append((n.lineno, what, a, b, new))

    tree = ast.parse(src)
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.FunctionDef, ast.ClassDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            doc.add(id(n.body[0]))
        if isinstance(n, ast.JoinedStr):
            for m in ast.walk(n):
                doc.add(id(m))
    for n in ast.walk(tree):
        if id(n) in doc:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            put(n, "%s %s %s" % (text(n.left), CMP[type(n.ops[0])], text(n.comparators[0])), "cmp")
        elif isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            put(n, op.join("(%s)" % text(v) for v in n.values), "bool")
            for k in range(len(n.values)):
                put(n, (" and " if isinstance(n.op, ast.And) else " or ").join("(%s)" % text(v) for i, v in enumerate(n.values) if i != k), "drop-term")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            put(n, "(%s)" % text(n.operand), "not")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            put(n, "(%s)" % text(n.operand), "neg")
        elif isinstance(n, ast.BinOp):
            alt = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.Div: "*", ast.FloorDiv: "/", ast.Mod: "//", ast.Pow: "*", ast.BitAnd: "|", ast.BitOr: "&", ast.BitXor: "|", ast.MatMult: "*"}.get(type(n.op))
            if alt and not isinstance(n.left, ast.Constant) or alt and not isinstance(getattr(n.left, "value", None), str):
                put(n, "(%s) %s (%s)" % (text(n.left), alt, text(n.right)), "arith")
        elif isinstance(n, ast.AugAssign):
            alt = {ast.Add: "-=", ast.Sub: "+=", ast.BitXor: "|=", ast.Mult: "+="}.get(type(n.op))
            if alt:
                put(n, "%s %s %s" % (text(n.target), alt, text(n.value)), "aug")
            put(n, "pass", "delete")
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                put(n, str(not n.value), "const")
            elif isinstance(n.value, int):
                put(n, str(n.value + 1), "const")
                if n.value:
                    put(n, str(n.value - 1), "const")
            elif isinstance(n.value, float):
                put(n, repr(n.value * 1.25 + 0.01), "const")
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            put(n, "pass", "delete")
        elif isinstance(n, (ast.Continue, ast.Break)):
            put(n, "pass", "delete")
        elif isinstance(n, ast.If):
            put(n.test, "(True or (%s))" % text(n.test), "if-true")
            put(n.test, "(False and (%s))" % text(n.test), "if-false")
        elif isinstance(n, ast.IfExp):
            put(n, "(%s)" % text(n.body), "ifexp")
            put(n, "(%s)" % text(n.orelse), "ifexp")
        elif isinstance(n, ast.Assign):
            if len(n.targets) == 1 and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
                put(n, "pass", "delete")
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("min", "max", "sorted", "set", "list", "round", "abs", "float"):
            name = n.func.id
            if name in ("min", "max"):
                put(n.func, "max" if name == "min" else "min", "minmax")
            elif len(n.args) == 1 and not n.keywords:
                put(n, "(%s)" % text(n.args[0]), "drop-call")
    seen, res = set(), []
    for m in sorted(out):
        new = raw[:m[2]] + m[4].encode() + raw[m[3]:]
        if new in seen:
            continue
        seen.add(new)
        try:
            ast.parse(new.decode())
        except SyntaxError:
            continue
        res.append((m, new))
    return raw, res


def sh(cmd, cwd, timeout, env):
    p = subprocess.Popen(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env={**os.environ, **env}, start_new_session=True)
    try:
        return p.returncode if p.wait(timeout) is None else p.returncode, p.stdout.read() if False else ""
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        return 124, ""


def run(cmd, cwd, timeout, env):
    with open(os.path.join("/tmp", "mut-%s.log" % threading.get_ident()), "w+") as f:
        p = subprocess.Popen(cmd, shell=True, cwd=cwd, stdout=f, stderr=subprocess.STDOUT, text=True, env={**os.environ, **env}, start_new_session=True)
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            rc = 124
        f.seek(0)
        return rc, f.read()


def one(f, m, new, pool, shards):
    w = pool.get()
    try:
        p = os.path.join(w, "flamingpy", f)
        orig = open(p, "rb").read()
        open(p, "wb").write(new)
        rec = {"file": f, "line": m[0], "op": m[1], "old": orig[m[2]:m[3]].decode()[:120], "new": m[4][:120], "off": [m[2], m[3]]}
        try:
            env = {"VERIF_REPO": w, "VERIF_SHARDS": str(shards), "VERIF_NO_EVIDENCE": "1", "VERIF_SEED": "1"}
            for c in MAP[f].split():
                rc, out = run("./check.sh %s quick" % c, V, 400, env)
                if rc == 1 and "VIOLATION" in out:
                    rec["by"] = c
                    return rec
                if rc != 0:
                    rec["by"] = "%s exit %d" % (c, rc)
                    rec["out"] = out[-400:]
                    return rec
            rc, out = run(". /opt/vp/env.sh; unset PYTHONPATH; export PYTHONDONTWRITEBYTECODE=1; PYTHONPATH=%s:/opt/vp/plugins $PY -m pytest tests -x -p vp_fixed_seed -q -p no:cacheprovider "
                          "--timeout=300 -n %d --dist=loadfile" % (w, shards), w, 400, {})
            tail = out.strip().splitlines()[-1] if out.strip() else ""
            rec["by"] = None
            rec["tests"] = "pass" if "1842 passed" in tail and "failed" not in tail else tail[-100:]
            return rec
        finally:
            open(p, "wb").write(orig)
    finally:
        pool.put(w)


def main():
    args = sys.argv[2:]
    if sys.argv[1] == "list":
        for f in args or MAP:
            print(f, len(mutants(os.path.join("/repo/flamingpy", f))[1]))
        return
    opts = {"jobs": 2, "every": 1, "offset": 0, "shards": 4}
    out, rest = args[0], []
    it = iter(args[1:])
    for a in it:
        if a.startswith("--"):
            opts[a[2:]] = int(next(it))
        else:
            rest.append(a)
    done = set()
    if os.path.exists(out):
        for l in open(out):
            r = json.loads(l)
            done.add((r["file"], tuple(r["off"]), r["new"]))
    pool = queue.Queue()
    for k in range(opts["jobs"]):
        w = "/tmp/mutw%d" % k
        shutil.rmtree(w, ignore_errors=True)
        subprocess.check_call(["cp", "-a", "/repo", w])
        pool.put(w)
    todo = []
    for f in rest or MAP:
        ms = mutants(os.path.join("/repo/flamingpy", f))[1]
        for i, (m, new) in enumerate(ms):
            if i % opts["every"] == opts["offset"] and (f, (m[2], m[3]), m[4][:120]) not in done:
                todo.append((f, m, new))
    print(len(todo), "mutants", flush=True)
    lock = threading.Lock()
    with cf.ThreadPoolExecutor(opts["jobs"]) as ex, open(out, "a") as fo:
        def job(t):
            r = one(*t, pool, opts["shards"])
            with lock:
                fo.write(json.dumps(r) + "\n")
                fo.flush()
        list(ex.map(job, todo))


main()
