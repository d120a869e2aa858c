"""Shared Hypothesis strategies (all produce plain data)."""
import os

import numpy as np
from hypothesis import strategies as st

ECS = ["primal", "dual"]
BOUNDS = ["open", "toric", "periodic"]


def axis_len(lo, hi):
    return st.integers(lo, hi)


@st.composite
def code_spec(draw, lo=2, hi=5, periodic_lo=2, max_volume=100, boundaries=None, ecs=None, long=0):
    """{'d': int or [dx,dy,dz], 'ec':..., 'b':...} with bounded volume.

    With `long`, some lattices have one axis of up to that length and the other two as short as allowed.
    """
    ec = draw(st.sampled_from(ecs or ECS))
    b = draw(st.sampled_from(boundaries or BOUNDS))
    per = {"open": [False] * 3, "toric": [True, True, False], "periodic": [True] * 3}[b]
    if long and draw(st.integers(0, 13)) == 13:
        dims = [max(lo, periodic_lo) if per[a] else lo for a in range(3)]
        dims[draw(st.integers(0, 2))] = draw(st.integers(min(long, 13), long))
        return {"d": dims, "ec": ec, "b": b}
    if draw(st.integers(0, 3)) == 0:
        l = periodic_lo if any(per) else lo
        top = max(l, min(hi, int(round(max_volume ** (1 / 3)))))
        return {"d": draw(st.integers(max(l, lo), max(max(l, lo), top))), "ec": ec, "b": b}
    order = draw(st.permutations([0, 1, 2]))
    dims = [0, 0, 0]
    rest = max_volume
    left = [max(lo, periodic_lo) if per[a] else lo for a in range(3)]
    for k, a in enumerate(order):
        other = 1
        for a2 in order[k + 1:]:
            other *= left[a2]
        top = max(left[a], min(hi, rest // other))
        dims[a] = draw(st.integers(left[a], top))
        rest = max(1, rest // dims[a])
    return {"d": dims, "ec": ec, "b": b}


def big_cases(tag, more, quick=8, thorough=200, periodic_lo=3):
    """Enumeration of seeded cases on codes of 500 to 1300 cells: cube-like, slabs and rods.  Building one takes seconds.

    `more(rng)` gives the other entries of a case.
    """
    def enum(tier):
        rng = np.random.default_rng([abs(int(os.environ.get("VERIF_SEED") or 1)), *tag.encode()])
        for _ in range(quick if tier == "quick" else thorough):
            short = int(rng.integers(periodic_lo, 10))
            side = int(rng.integers(8, 21))
            long = max(periodic_lo, min(40, int(rng.integers(500, 1300)) // (short * side)))
            case = {"d": [int(x) for x in rng.permutation([short, side, long])], "ec": ECS[int(rng.integers(2))],
                    "b": BOUNDS[int(rng.integers(3))], "seed": int(rng.integers(2 ** 32))}
            case.update(more(rng))
            yield case
    return enum


def dims_of(spec):
    return (spec["d"],) * 3 if isinstance(spec["d"], int) else tuple(spec["d"])


def seeds():
    return st.integers(0, 2**32 - 1)
