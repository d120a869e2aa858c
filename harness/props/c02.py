"""C02: stabilizers are complete, correctly supported and commute with the cluster state."""
import numpy as np
from hypothesis import strategies as st

from harness import fp, gen
from harness.core import Sub, require

PROPERTY = "C02"
RULE = ("codes of generated (mostly asymmetric) distance, error complex and boundary with generated bit patterns; "
        "non-trivial = dims not all equal, or at least one stabilizer odd")


def check_stabs(case, ctx):
    code = fp.used(case)
    ref = fp.ref(case)
    ec = case["ec"]
    stabs = getattr(code, ec + "_stabilizers")
    # completeness and support
    got = {}
    for s in stabs:
        coords = s.coords()
        require(len(coords) == len(set(coords)), "stabilizer lists a qubit twice: %s", coords)
        key = frozenset(coords)
        require(key not in got, "two stabilizers on the same qubits %s", sorted(key))
        got[key] = s
    want = {sup: c for c, sup in ref.stabs.items()}
    require(len(stabs) == len(want), "%d stabilizers, expected %d" % (len(stabs), len(want)))
    for sup in got:
        require(sup in want, "stabilizer on %s is not a cell of the %s complex" % (sorted(sup), ec))
    for sup in want:
        require(sup in got, "no stabilizer for cell %s" % (want[sup],))
    for sup, s in got.items():
        mid = tuple(float(x) for x in s.midpoint())
        require(mid == tuple(float(x) for x in want[sup]), "midpoint %s of cell %s" % (mid, want[sup]))
        lims = (s.xlims(), s.ylims(), s.zlims())
        require(all(abs((hi - lo) - 2) < 1e-9 for lo, hi in lims), "extent %s of cell %s" % (lims, want[sup]))
    # commutation with the cluster state actually generated
    G = code.graph
    for sup in got:
        hit = {}
        for q in sup:
            require(q in G, "stabilizer qubit %s not in the graph" % (q,))
            for v in G[q]:
                hit[v] = hit.get(v, 0) + 1
        for v, k in hit.items():
            require(v in sup or k % 2 == 0, "vertex %s sees %d qubits of stabilizer %s" % (v, k, sorted(sup)))
    # syndrome and boundary
    qubits = set(ref.qubits)
    coords = getattr(code, ec + "_syndrome_coords")
    require(set(coords) == qubits and len(coords) == len(qubits), "syndrome coordinates are not the stabilizers' qubits")
    inds = getattr(code, ec + "_syndrome_inds")
    require({G.to_points[i] for i in inds} == qubits, "syndrome indices are not the stabilizers' qubits")
    require(set(code.all_syndrome_coords) == qubits, "all_syndrome_coords")
    require({G.to_points[i] for i in code.all_syndrome_inds} == qubits, "all_syndrome_inds")
    bound = getattr(code, ec + "_bound_points")
    wantb = ref.boundary_qubits()
    require(sorted(bound) == sorted(wantb), "boundary points: missing %s extra %s" % (
        sorted(set(wantb) - set(bound))[:4], sorted(set(bound) - set(wantb))[:4]))
    # parity follows the current bit values
    rng = np.random.default_rng(case["seed"])
    odd_total = 0
    for round_ in range(3):
        flips = [q for q in sorted(G.nodes) if rng.random() < case["p"]]
        fp.set_bits(code, flips)
        fl = set(flips)
        if round_:
            # other types of bits, and qubits with a fresh attribute dictionary
            kind = [bool, np.uint8, np.int64, np.bool_][int(rng.integers(4))]
            for q in sorted(G.nodes):
                G.nodes[q]["bit_val"] = kind(q in fl)
        if round_ == 2:
            nodes = sorted(ref.qubits)
            for k in rng.choice(len(nodes), size=min(3, len(nodes)), replace=False):
                q = nodes[int(k)]
                attrs, nbrs = dict(G.nodes[q]), {v: dict(d) for v, d in G[q].items()}
                G.remove_node(q)
                attrs["bit_val"] = int(rng.integers(2))
                (fl.add if attrs["bit_val"] else fl.discard)(q)
                G.add_node(q, **attrs)
                for v, d in nbrs.items():
                    G.add_edge(q, v, **d)
        for sup, s in got.items():
            par = s.parity
            require(par in (0, 1) and par == len(fl & sup) % 2, "parity %s of stabilizer %s with flips %s" % (
                par, sorted(sup), sorted(fl & sup)))
            odd_total += par
    ctx.label(ec + "-" + case["b"], "cube" if len(set(ref.dims)) == 1 else "cuboid")
    ctx.mark(len(set(ref.dims)) > 1 or odd_total > 0)


@st.composite
def cases(draw):
    spec = draw(gen.code_spec(lo=2, hi=9, max_volume=110, long=70))
    spec["seed"] = draw(gen.seeds())
    spec["p"] = draw(st.sampled_from([0.0, 0.02, 0.2, 0.5, 1.0]))
    return spec


def enum_small(tier):
    top = 4 if tier == "quick" else 6
    for x in range(2, top + 1):
        for y in range(2, top + 1):
            for z in range(2, top + 1):
                for ec in gen.ECS:
                    for b in gen.BOUNDS:
                        yield {"d": [x, y, z], "ec": ec, "b": b, "seed": 7 * x + y + z, "p": 0.3}


SUBS = [
    Sub("stabilizers_small", check_stabs, enum=enum_small, rule="every code up to 4x4x4 (6x6x6 thorough)"),
    Sub("stabilizers", check_stabs, cases, quick=1500, thorough=8000),
    Sub("big_codes", check_stabs, enum=gen.big_cases("C02", lambda r: {"p": float(r.choice([0.02, 0.2, 0.5]))}, thorough=200), share=0.5, rule="a few codes of 500 to 1300 cells, drawn from the seed"),
]
