"""C01: RHG lattice generation equals an independently built lattice."""
import itertools as it

import numpy as np
from hypothesis import strategies as st

from flamingpy.codes import SurfaceCode
from flamingpy.codes.surface_code import RHG_graph
from harness import fp, gen
from harness.core import Sub, require, scribble
from harness.ref import CODE_BOUNDS, NAMED_BOUNDS, lattice

PROPERTY = "C01"
RULE = ("lattice sizes, boundary triples (names and lists), argument forms and polarity functions are generated (small "
        "sizes enumerated); non-trivial = not a cube, or boundaries given as a list, or a polarity function supplied")
KINDS = ["primal", "dual", "periodic"]


def polarity_fn(seed):
    """A symmetric, deterministic, arbitrary edge-weight function."""
    def pol(edge):
        a, b = tuple(map(int, edge[0])), tuple(map(int, edge[1]))
        lo, hi = min(a, b), max(a, b)
        h = seed
        for c in lo + hi:
            h = (h * 1000003 + 17 * int(c) + 5) % 2147483647
        return [-3, -1, 0, 1, 2, 0.25, -1.5, 0.0][(h >> 3) % 8]
    return pol


def check_graph(G, dims, bounds, weight):
    nodes, edges = lattice(dims, bounds)
    got = set(G.nodes)
    require(got == set(nodes), "vertices differ: missing %s extra %s" % (
        sorted(set(nodes) - got)[:5], sorted(got - set(nodes))[:5]))
    got_edges = {frozenset(e) for e in G.edges}
    require(got_edges == set(edges), "edges differ: missing %s extra %s" % (
        [sorted(e) for e in set(edges) - got_edges][:5], [sorted(e) for e in got_edges - set(edges)][:5]))
    require(G.number_of_edges() == len(edges), "edge count")
    for n, typ in nodes.items():
        require(G.nodes[n].get("type") == typ, "vertex %s labelled %s, should be %s" % (n, G.nodes[n].get("type"), typ))
    for e, wrap in edges.items():
        a, b = tuple(e)
        data = G.edges[a, b]
        require(bool(data.get("periodic")) == wrap, "edge %s periodic flag %s" % (sorted(e), data.get("periodic")))
        ok = {weight((a, b)), weight((b, a))}
        require(data.get("weight") in ok, "edge %s weight %s, should be in %s" % (sorted(e), data.get("weight"), ok))


def weight_of(case):
    pol = case.get("pol")
    if pol is None:
        return None, (lambda e: 1)
    f = polarity_fn(pol)
    return f, f


def check_rhg(case, ctx):
    form = case["form"]
    dims = case["dims"]
    arg = {"int": lambda: dims[0], "tuple": lambda: tuple(dims), "list": lambda: list(dims),
           "array": lambda: np.array(dims)}[form]()
    b = case["bounds"]
    if isinstance(b, str):
        bounds = NAMED_BOUNDS[b]
        barg = b
    else:
        bounds = tuple(b)
        barg = {"list": list, "tuple": tuple, "array": np.array}[case["bform"]](b)
    pol, weight = weight_of(case)
    kw = {} if pol is None else {"polarity": pol}
    G = RHG_graph(arg, boundaries=barg, **kw)
    check_graph(G, tuple(dims), bounds, weight)
    if sum(dims) % 3 == 1:  # lattices of one size do not share anything
        spoil(G)
        check_graph(RHG_graph(arg, boundaries=barg, **kw), tuple(dims), bounds, weight)
    ctx.mark(len(set(dims)) > 1 or not isinstance(b, str) or pol is not None)
    ctx.label("list-bounds" if not isinstance(b, str) else "named", "cube" if len(set(dims)) == 1 else "cuboid",
              "polarity" if pol is not None else "unit", "mixed" if len(set(bounds)) > 1 else "uniform")


def spoil(G):
    for e in list(G.edges):
        G.edges[e]["weight"] = 99
    for n in list(G.nodes):
        G.nodes[n]["type"] = "spoilt"
    scribble(G.graph.get("primal_cubes"))
    G.remove_nodes_from(sorted(G.nodes)[::2])
    G.graph.clear()


def check_code(case, ctx):
    pol, weight = weight_of(case)
    code = fp.build(case, backend=case["backend"], **({} if pol is None else {"polarity": pol}))
    dims = gen.dims_of(case)
    require(tuple(code.dims) == dims, "dims %s" % (code.dims,))
    check_graph(code.graph, dims, CODE_BOUNDS[(case["ec"], case["b"])], weight)
    n = len(code.graph)
    pts = sorted(code.graph.nodes)
    require([code.graph.to_points[i] for i in range(n)] == pts, "index order is not sorted coordinate order")
    require(all(code.graph.to_indices[p] == i for i, p in enumerate(pts)), "to_indices is not the inverse")
    if n < 400 and n % 3 == 1:
        spoil(code.graph)
        check_graph(fp.build(case, backend=case["backend"], **({} if pol is None else {"polarity": pol})).graph, dims, CODE_BOUNDS[(case["ec"], case["b"])], weight)
    ctx.mark(len(set(dims)) > 1 or pol is not None)
    ctx.label(case["ec"] + "-" + case["b"])


@st.composite
def rhg_cases(draw):
    named = draw(st.integers(0, 3)) == 0
    bounds = draw(st.sampled_from(sorted(NAMED_BOUNDS))) if named else draw(
        st.lists(st.sampled_from(KINDS), min_size=3, max_size=3))
    form = draw(st.sampled_from(["int", "tuple", "list", "array"]))
    if form == "int":
        dims = [draw(st.integers(2, 6))] * 3
    else:
        a = draw(st.integers(2, 12))
        b = draw(st.integers(2, max(2, min(12, 200 // a // 2))))
        c = draw(st.integers(2, max(2, min(12, 260 // (a * b)))))
        if draw(st.integers(0, 13)) == 13:
            a, b, c = draw(st.integers(13, 140)), 2, draw(st.integers(1, 2)) + 1
        dims = list(draw(st.permutations([a, b, c])))
    return {"dims": dims, "form": form, "bounds": bounds, "bform": draw(st.sampled_from(["list", "tuple", "array"])),
            "pol": draw(st.one_of(st.none(), st.integers(0, 10**6)))}


@st.composite
def code_cases(draw):
    spec = draw(gen.code_spec(lo=2, hi=9, max_volume=180, long=140))
    spec["pol"] = draw(st.one_of(st.none(), st.integers(0, 10**6)))
    spec["backend"] = draw(st.sampled_from(["rustworkx", "networkx"])) if np.prod(gen.dims_of(spec)) < 80 else "rustworkx"
    return spec


def enum_small(tier):
    top = 4 if tier == "quick" else 5
    for dims in it.product(range(2, top + 1), repeat=3):
        for bounds in it.product(KINDS, repeat=3):
            yield {"dims": list(dims), "form": "tuple", "bounds": list(bounds), "bform": "list", "pol": None}
    for d in range(2, top + 2):
        for name in sorted(NAMED_BOUNDS):
            yield {"dims": [d] * 3, "form": "int", "bounds": name, "bform": "list", "pol": None}


SUBS = [
    Sub("lattice_small", check_rhg, enum=enum_small, rule="every size up to 4^3 (5^3 thorough) x all 27 boundary triples"),
    Sub("lattice", check_rhg, rhg_cases, quick=2400, thorough=20000),
    Sub("code_graph", check_code, code_cases, quick=1200, thorough=10000),
]
