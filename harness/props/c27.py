"""C27: alternating polarity gives balanced signs around every vertex."""
from harness import lemon

lemon.install()

import numpy as np
from hypothesis import strategies as st

from flamingpy.codes.surface_code import RHG_graph, SurfaceCode, alternating_polarity
from harness import fp, gen
from harness.core import Sub, require

PROPERTY = "C27"
RULE = ("RHG lattices of all small dimensions and the 27 boundary triples (enumerated), random larger ones and codes; every vertex and edge "
        "is checked; edges in both orders and several container types are fed to the function directly; non-trivial = the lattice has "
        "complete vertices")


def axis(a, b):
    diff = [i for i in range(3) if a[i] != b[i]]
    require(len(diff) == 1, "edge %s-%s is not along an axis", a, b)
    return diff[0]


def judge(g, ctx):
    complete = seam = 0
    for v in g.nodes:
        by = {}
        for u in g[v]:
            w = g[v][u]["weight"]
            require(w in (1, -1), "edge %s-%s has weight %r", v, u, w)
            by.setdefault(axis(v, u), []).append(w)
            seam += bool(g[v][u].get("periodic"))
        require(len(by) <= 2 and all(len(x) <= 2 for x in by.values()), "vertex %s has edges along axes %s", v, by)
        for ax, ws in by.items():
            require(len(set(ws)) == 1, "vertex %s: edges along axis %d have signs %s", v, ax, ws)
        if len(by) == 2:
            s = [ws[0] for ws in by.values()]
            require(s[0] == -s[1], "vertex %s: both axes have sign %s", v, s[0])
        if len(g[v]) == 4:
            complete += 1
            require(sum(g[v][u]["weight"] for u in g[v]) == 0, "vertex %s is not balanced", v)
    for a, b in g.edges:
        w = g[a][b]["weight"]
        for e in ((a, b), (b, a), [b, a], (list(a), list(b)), (np.array(b), np.array(a))):
            require(alternating_polarity(e) == w, "polarity of %s is %s, edge weight %s", e, alternating_polarity(e), w)
    ctx.mark(complete > 0)
    if seam:
        ctx.label("periodic")


def check(case, ctx):
    dims = case["dims"]
    if case.get("form") == "list":
        arg = list(dims)
    elif case.get("form") == "array":
        arg = np.array(dims)
    else:
        arg = dims[0] if len(set(dims)) == 1 else tuple(dims)
    judge(RHG_graph(arg, list(case["bounds"]), polarity=alternating_polarity), ctx)


def check_code(case, ctx):
    code = fp.build(case, polarity=alternating_polarity, backend=case["backend"])
    judge(code.graph, ctx)
    require(set(code.graph.nodes) == set(fp.ref(case).nodes), "qubits of the code")


B3 = ["primal", "dual", "periodic"]


def enum(tier):
    top = 3 if tier == "quick" else 5
    for x in range(2, top + 1):
        for y in range(2, top + 1):
            for z in range(2, top + 1):
                for b0 in B3:
                    for b1 in B3:
                        for b2 in B3:
                            yield {"dims": [x, y, z], "bounds": [b0, b1, b2]}


@st.composite
def cases(draw):
    return {"dims": draw(st.lists(st.integers(2, 7), min_size=3, max_size=3).filter(lambda d: d[0] * d[1] * d[2] <= 130)),
            "bounds": draw(st.lists(st.sampled_from(B3), min_size=3, max_size=3)), "form": draw(st.sampled_from(["auto", "list", "array"]))}


@st.composite
def code_cases(draw):
    c = draw(gen.code_spec(hi=7, max_volume=60, long=140))
    c["backend"] = draw(st.sampled_from(["networkx", "rustworkx"]))
    return c


SUBS = [Sub("small_lattices", check, enum=enum), Sub("lattices", check, cases, quick=600, thorough=8000),
        Sub("codes", check_code, code_cases, quick=400, thorough=5000, share=0.6)]
