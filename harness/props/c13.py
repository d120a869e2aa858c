"""C13: macronization expands and contracts back to the same graph state."""
import numpy as np
from hypothesis import strategies as st

from flamingpy.codes.graphs import EGraph
from flamingpy.codes.graphs.egraph import macronize
from flamingpy.codes.surface_code import RHG_graph, alternating_polarity
from harness import fp, gen
from harness.core import Sub, require

PROPERTY = "C13"
RULE = ("RHG lattices and codes of every size, boundary triple and polarity, displacements over (0, 0.5), padding on and off, random "
        "perfect-qubit sets and extra node/edge attributes; the macronode graph is contracted by rounding and compared with the "
        "original; non-trivial = periodic edges, padding added or perfect qubits present")


def build(case, rng):
    if case["code"] == "cubic":  # a canonical lattice of another kind: up to six neighbours per vertex
        g = EGraph()
        dims = case["dims"]
        pts = [(x, y, z) for x in range(dims[0]) for y in range(dims[1]) for z in range(dims[2])]
        for p in pts:
            for a in range(3):
                q = tuple(v + (k == a) for k, v in enumerate(p))
                if q[a] < dims[a] and rng.random() < case["keep"]:
                    g.add_edge(p, q, weight=int(rng.choice([-1, 1])))
        if len(g) == 0:
            g.add_edge((0, 0, 0), (0, 0, 1))
        for p in g:
            g.nodes[p]["type"] = "dual" if sum(p) % 2 else "primal"
    elif case["code"]:
        g = fp.build(case["spec"], **({"polarity": alternating_polarity} if case["pol"] else {})).graph
    else:
        g = RHG_graph(tuple(case["dims"]), list(case["bounds"]), polarity=alternating_polarity if case["pol"] else None)
    if case["attrs"]:
        for i, n in enumerate(sorted(g.nodes)):
            g.nodes[n]["tag"] = i
            if rng.random() < 0.3:
                g.nodes[n]["state"] = "p"
        for i, e in enumerate(g.edges):
            g.edges[e]["mark"] = i
            if rng.random() < 0.3:
                g.edges[e]["weight"] = int(rng.integers(-3, 4))
        g.graph["note"] = "kept"
    if case["perfect"] != "unset":
        pts = sorted(g.nodes)
        k = {"none": 0, "one": 1, "some": max(1, len(pts) // 4), "all": len(pts)}[case["perfect"]]
        g.graph["perfect_points"] = [pts[int(i)] for i in rng.choice(len(pts), size=k, replace=False)]
    return g


def check(case, ctx):
    rng = np.random.default_rng(case["seed"])
    g = build(case, rng)
    judge(g, case, ctx)
    if case["again"]:   # the same graph, changed, with the same options; or with other ones
        for n in g.nodes:
            if rng.random() < 0.5:
                g.nodes[n]["state"] = "p" if rng.random() < 0.5 else "GKP"
        for e in g.edges:
            if rng.random() < 0.3:
                g.edges[e]["weight"] = int(rng.integers(-3, 4))
        if rng.random() < 0.5:
            pts = sorted(g.nodes)
            g.graph["perfect_points"] = [pts[int(i)] for i in rng.choice(len(pts), size=int(rng.integers(0, 4)) % len(pts), replace=False)]
        es = sorted(e for e in g.edges if min(g.degree(e[0]), g.degree(e[1])) > 1)
        if case["again"] == "cut" and es:
            g.remove_edge(*es[int(rng.integers(len(es)))])
        judge(g, dict(case, disp=0.3) if case["again"] == "other" else case, ctx)


def judge(g, case, ctx):
    disp, pad = case["disp"], case["pad"]
    nodes = {n: dict(d) for n, d in g.nodes(data=True)}
    edges = {frozenset(e[:2]): dict(e[2]) for e in g.edges(data=True)}
    meta = {k: list(v) if isinstance(v, list) else v for k, v in g.graph.items()}
    kw = {}
    if pad or not case["terse"]:
        kw["pad_boundary"] = pad
    if disp != 0.1 or not case["terse"]:
        kw["disp"] = disp
    if case["func"]:
        raw = macronize(g, **kw)
        m = EGraph(raw, macronodes=True)
    else:
        m = g.macronize(**kw)
    require({n: dict(d) for n, d in g.nodes(data=True)} == nodes and {frozenset(e[:2]): dict(e[2]) for e in g.edges(data=True)} == edges
            and {k: list(v) if isinstance(v, list) else v for k, v in g.graph.items()} == meta, "the original graph changed")
    micro = m.macro_to_micro
    require(set(micro) == set(nodes), "macronodes are not the original vertices")
    flat = [p for v in micro.values() for p in v]
    require(len(flat) == len(set(flat)), "a micronode is listed twice")
    require(set(flat) == set(m.nodes), "macronodes do not partition the micronodes")
    home = {}
    for c, ps in micro.items():
        for p in ps:
            require(len(p) == 3 and tuple(round(x) for x in p) == tuple(c), "micronode %s of %s rounds elsewhere", p, c)
            home[p] = c
    # contraction
    contracted = {}
    used = {}
    for a, b, d in m.edges(data=True):
        e = frozenset((home[a], home[b]))
        require(len(e) == 2, "an edge inside macronode %s", home[a])
        require(e not in contracted, "two edges between macronodes %s", sorted(e))
        contracted[e] = dict(d)
        for p in (a, b):
            require(p not in used, "micronode %s belongs to two edges", p)
            used[p] = e
        # positions
        for p, q in ((a, b), (b, a)):
            c, o = home[p], home[q]
            vec = [y - x for x, y in zip(c, o)]
            norm = sum(v * v for v in vec) ** 0.5
            sign = -1 if edges.get(e, {}).get("periodic") else 1
            for x, y, v in zip(c, p, vec):
                want = sign * disp * v / norm
                require(abs((y - x) - want) <= 0.051 * disp + 1e-12, "micronode %s of %s towards %s is displaced by %r, requested %r", p, c, o, y - x, want)
    require(set(contracted) == set(edges), "contracting gives different edges: %d and %d", len(contracted), len(edges))
    for e, d in contracted.items():
        require(d == edges[e], "edge %s has attributes %s, originally %s", sorted(e), d, edges[e])
    padded = 0
    top = max(dict(g.degree()).values())
    for c, ps in micro.items():
        deg = len(g[c])
        linked = [p for p in ps if p in used]
        require(len(linked) == deg, "macronode %s has %d linked micronodes for %d neighbours", c, len(linked), deg)
        require(len(ps) == (max(4, deg) if pad else deg), "macronode %s has %d micronodes", c, len(ps))
        padded += len(ps) - deg
        for p in ps:
            require(dict(m.nodes[p]) == nodes[c], "micronode %s has attributes %s, its vertex %s", p, dict(m.nodes[p]), nodes[c])
    # graph attributes
    for k, v in meta.items():
        if k not in ("perfect_points", "macro_dict"):
            require(m.graph.get(k) == v, "graph attribute %s lost", k)
    old = meta.get("perfect_points")
    new = m.graph.get("perfect_points")
    if not old:
        require(not new, "perfect qubits appeared: %s", new)
    else:
        require(len(new) == len(set(new)) and set(new) == {p for c in old for p in micro[c]}, "perfect qubits are not the micronodes of the perfect vertices")
    # indices
    ti = m.index_generator()
    require(set(ti) == set(m.nodes) and sorted(ti.values()) == list(range(len(m))), "indices")
    pos = 0
    for c in sorted(micro):
        want = set(range(pos, pos + len(micro[c])))
        require({ti[p] for p in micro[c]} == want, "indices of macronode %s are not contiguous in sorted order", c)
        pos += len(want)
    ctx.mark(padded > 0 or bool(old) or any(d.get("periodic") for d in edges.values()))
    ctx.label("pad" if pad else "nopad", "perfect-" + case["perfect"], "cubic" if case["code"] == "cubic" else "code" if case["code"] else "lattice",
              "degree%d" % top)


def check_disp(case, ctx):
    """Displacements outside the documented range are rejected."""
    g = RHG_graph(2)
    for f in (lambda: g.macronize(disp=case["disp"]), lambda: macronize(g, True, case["disp"])):
        try:
            f()
        except Exception:
            continue
        require(False, "displacement %r accepted", case["disp"])
    ctx.mark()


@st.composite
def cases(draw):
    code = draw(st.sampled_from([True, False, True, False, "cubic"]))
    c = {"code": code, "pol": draw(st.booleans()), "attrs": draw(st.booleans()), "func": draw(st.integers(0, 2)) == 0, "terse": draw(st.booleans()),
         "perfect": draw(st.sampled_from(["unset", "none", "one", "some", "all"])), "pad": draw(st.booleans()), "seed": draw(gen.seeds()),
         "again": draw(st.sampled_from(["", "", "same", "other", "cut"]))}
    if code == "cubic":
        c["dims"] = draw(st.lists(st.integers(1, 4), min_size=3, max_size=3))
        c["keep"] = draw(st.sampled_from([1.0, 0.8, 0.4]))
        if 1 not in c["dims"]:      # up to six neighbours: padding has no meaning
            c["pad"] = False
    elif code:
        c["spec"] = draw(gen.code_spec(hi=5, max_volume=36, long=30))
    else:
        c["dims"] = draw(st.lists(st.integers(2, 4), min_size=3, max_size=3))
        c["bounds"] = draw(st.lists(st.sampled_from(["primal", "dual", "periodic"]), min_size=3, max_size=3))
    c["disp"] = draw(st.one_of(st.just(0.1), st.sampled_from([0.05, 0.2, 0.25, 0.4, 0.49, 0.01, 0.3, 0.001, 0.045, 0.055, 0.499, 1e-4]),
                               st.floats(0.001, 0.499)))
    return c


SUBS = [Sub("macronize", check, cases, quick=4500, thorough=40000),
        Sub("bad_displacement", check_disp, lambda: st.fixed_dictionaries({"disp": st.one_of(st.floats(0.5, 10), st.floats(-3, -1e-6))}), quick=180, thorough=500, share=0.1)]
