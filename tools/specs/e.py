SC = "flamingpy/codes/surface_code.py"
SG = "flamingpy/codes/graphs/stabilizer_graph.py"
EG = "flamingpy/codes/graphs/egraph.py"
ST = "flamingpy/codes/stabilizer.py"
DE = "flamingpy/decoders/decoder.py"
MA = "flamingpy/decoders/mwpm/matching.py"
AL = "flamingpy/decoders/mwpm/algos.py"
UA = "flamingpy/decoders/unionfind/algos.py"
UC = "flamingpy/decoders/unionfind/uf_classes.py"
CV = "flamingpy/noise/cv.py"
II = "flamingpy/noise/iid.py"
SI = "flamingpy/simulations.py"
GS = "flamingpy/utils/graph_states.py"
LA = "flamingpy/utils/linalg.py"
OP = "flamingpy/cv/ops.py"
GK = "flamingpy/cv/gkp.py"
VZ = "flamingpy/utils/viz.py"

SPECS = [
 dict(id="C29-stale-child", property="C29", edits=[(UC, "            node = node.parent\n            node.children.remove(temp_node)\n", "            node = node.parent\n")],
  needs="a root query on a node three or more levels deep", breaks="after path compression a node is a child of two nodes, so the links no longer form a tree",
  demo='''
from flamingpy.decoders.unionfind.algos import union
from flamingpy.decoders.unionfind.uf_classes import Node, Root
n = [Node(i) for i in range(4)]
r = [Root(x) for x in n]
union(r[0], r[1]); union(r[2], r[3]); union(r[0], r[2])
n[3].find_root()
owners = [x.id for x in n if n[3] in x.children]
assert owners == [0], owners
'''),
 dict(id="C29-size-children", property="C29", edits=[(UA, "        big_root.size += small_root.size\n", "        big_root.size += len(small_root.children) + 1\n")],
  needs="a union whose smaller tree is three or more levels deep", breaks="the size of the merged cluster is too small, so later unions pick the wrong root",
  demo='''
from flamingpy.decoders.unionfind.algos import union
from flamingpy.decoders.unionfind.uf_classes import Node, Root
n = [Node(i) for i in range(9)]
r = [Root(x) for x in n]
union(r[0], r[1]); union(r[2], r[3]); union(r[0], r[2])
union(r[4], r[5]); union(r[4], r[6]); union(r[4], r[7]); union(r[4], r[8])
union(r[0], r[4])
assert n[0].find_root().size == 9, n[0].find_root().size
'''),
 dict(id="C29-async", property="C29", edits=[(UA, "        for edge in fusion_list:\n            # If the new edge connects different clusters, fuse them\n", "        for edge in sorted(fusion_list, key=str)[: max(1, len(fusion_list) - 1)]:\n            # If the new edge connects different clusters, fuse them\n")],
  needs="two or more edges that become grown in the same round", breaks="the last of the edges grown in a round is never fused, so clusters that touch stay separate",
  demo='''
import itertools
from flamingpy.codes import SurfaceCode
from flamingpy.decoders.unionfind.algos import *
from flamingpy.decoders.unionfind.uf_classes import *
from flamingpy.decoders.decoder import assign_weights
c = SurfaceCode(4, boundaries="open")
qs = c.primal_syndrome_coords
bad = 0
for q in sorted(set(qs))[::3]:
    for n in c.graph.nodes: c.graph.nodes[n]["bit_val"] = int(n == q)
    assign_weights(c, "UF")
    g = c.primal_stab_graph
    nd, trees, odd = initialize_cluster_trees(g)
    s = Support(g)
    b = {t.node: Boundary(t, s, g) for t in trees}
    union_find(odd, b, g, s, nd)
    for e, v in s.status.items():
        if v == "grown":
            x, y = e
            bad += nd[x].find_root() != nd[y].find_root()
assert bad == 0, bad
'''),
 dict(id="C29-prune-early", property="C29", edits=[(UC, "                    if support.status[frozenset((edge[0], edge[1]))] != \"grown\":\n                        nodes_to_keep.add(node)\n        self.nodes = nodes_to_keep", "                    if support.status[frozenset((edge[0], edge[1]))] == \"empty\":\n                        nodes_to_keep.add(node)\n        self.nodes = nodes_to_keep")],
  needs="a merged odd cluster with a vertex all of whose open edges are half-grown", breaks="such a vertex leaves the boundary of its cluster, so its edges are not grown further",
  demo='''
from flamingpy.codes import SurfaceCode
from flamingpy.decoders.decoder import assign_weights
from flamingpy.decoders.unionfind.uf_classes import Support, Boundary
from flamingpy.decoders.unionfind.algos import initialize_cluster_trees
c = SurfaceCode(3)
for n in c.graph.nodes: c.graph.nodes[n]["bit_val"] = 0
assign_weights(c, "UF")
g = c.primal_stab_graph
nd, trees, odd = initialize_cluster_trees(g)
s = Support(g)
t = trees[0]
b = Boundary(t, s, g)
for e in list(s.status): s.status[e] = "half-grown"
before = set(b.nodes)
b.prune(s, g)
assert b.nodes == before
'''),
 dict(id="C30-negative-disp", property="C30", edits=[(EG, "    if disp >= 0.5 or disp < 0:\n", "    if disp**2 >= 0.25:\n")],
  needs="a negative displacement", breaks="a negative displacement is accepted and moves the micronodes away from their edges",
  demo='''
from flamingpy.codes import SurfaceCode
try:
    SurfaceCode(2).graph.macronize(disp=-0.1)
except Exception:
    pass
else:
    raise SystemExit("negative displacement accepted")
'''),
 dict(id="C30-substring", property="C30", edits=[(SC, "        if not (boundaries in (\"open\", \"toric\", \"periodic\") and ec in (\"primal\", \"dual\")):\n", "        if not (boundaries in (\"open\", \"toric\", \"periodic\") and ec in (\"primal\" \"dual\")):\n")],
  needs="an error complex that is a part of a valid name, such as 'al' or ''", breaks="the name is accepted by the check of the arguments and a code of an unknown complex is half built",
  demo='''
from flamingpy.codes import SurfaceCode
for ec in ("", "al", "primaldual", "pri"):
    try:
        SurfaceCode(2, ec=ec)
    except ValueError:
        pass
    else:
        raise SystemExit("accepted " + ec)
'''),
 dict(id="C30-axis-index", property="C30", edits=[(EG, "        plane_dict = {\"x\": 0, \"y\": 1, \"z\": 2}\n        plane_ind = plane_dict[plane]\n", "        plane_ind = \"xyz\".index(plane)\n")],
  needs="an axis given as '', 'xy' or 'yz'", breaks="a slice along the first of the axes is returned instead of an error",
  demo='''
from flamingpy.codes import SurfaceCode
g = SurfaceCode(2).graph
for a in ("", "xy", "yz", "xyz", "X", "w"):
    try:
        g.slice_coords(a, 1)
    except Exception:
        pass
    else:
        raise SystemExit("accepted " + repr(a))
'''),
 dict(id="C30-dims-many", property="C30", edits=[(SC, "np.size(dims) != 3:\n", "np.size(dims) < 3:\n")],
  needs="a sequence of four or more dimensions", breaks="extra dimensions are ignored or fail later",
  demo='''
from flamingpy.codes.surface_code import RHG_graph
for d in ((2, 2, 2, 2), [3, 2, 2, 5], (2, 2)):
    try:
        RHG_graph(d, "primal")
    except ValueError:
        pass
    else:
        raise SystemExit("accepted")
'''),
 dict(id="C30-iid-round", property="C30", edits=[(II, "        if error_probability < 0.0 or error_probability > 1.0:\n", "        if int(error_probability) not in (0, 1):\n")],
  needs="a probability a fraction below 0 or between 1 and 2", breaks="probabilities such as -0.3 and 1.7 are accepted",
  demo='''
from flamingpy.codes import SurfaceCode
from flamingpy.noise import IidNoise
c = SurfaceCode(2)
for p in (-0.3, 1.7, 2, -1, 1.0000001):
    try:
        IidNoise(c, p)
    except ValueError:
        pass
    else:
        raise SystemExit("accepted %s" % p)
'''),
 dict(id="C30-both-swaps", property="C30", edits=[(CV, "        if self.p_swap is not None and supplied_states is not None:\n", "        if self.p_swap and supplied_states:\n")],
  needs="a swap-out probability of exactly 0 together with p-squeezed indices", breaks="the contradictory request is accepted and the probability is ignored",
  demo='''
import numpy as np
from flamingpy.codes import SurfaceCode
from flamingpy.noise import CVLayer
c = SurfaceCode(2)
for p in (0, 0.0, 0.5):
    try:
        CVLayer(c, delta=0.1, p_swap=p, states={"p": np.array([0, 1])})
    except Exception:
        pass
    else:
        raise SystemExit("accepted")
'''),
 dict(id="C31-covs-half", property="C31", edits=[(CV, "            elif quad == \"p\":\n                covs = updated_covs[N:][inds]\n", "            elif quad == \"p\":\n                covs = updated_covs[:N][inds]\n")],
  needs="a p measurement in the two-step order with supplied variances that differ between q and p", breaks="the p outcomes have the noise of the q quadratures",
  demo='''
import numpy as np
from flamingpy.codes import SurfaceCode
from flamingpy.noise import CVLayer
c = SurfaceCode(2)
l = CVLayer(c, delta=0.1, sampling_order="two-step")
l.populate_states(np.random.default_rng(0))
N = len(c.graph)
l.measure_hom("p", updated_means=np.arange(2.0 * N), updated_covs=np.r_[np.ones(N), np.zeros(N)], rng=np.random.default_rng(1))
assert l.hom_outcomes() == list(np.arange(N, 2.0 * N))
'''),
 dict(id="C31-sorted", property="C31", edits=[(CV, "        for i in range(N_inds):\n            self.egraph.nodes[self._to_points[inds[i]]][\"hom_val_\" + quad] = outcomes[i]\n", "        for i, ind in enumerate(sorted(inds)):\n            self.egraph.nodes[self._to_points[ind]][\"hom_val_\" + quad] = outcomes[i]\n")],
  needs="a measurement of modes that are not given in increasing order", breaks="the outcomes are given to the wrong modes",
  demo='''
import numpy as np
from flamingpy.codes import SurfaceCode
from flamingpy.noise import CVLayer
c = SurfaceCode(2)
l = CVLayer(c, delta=0.1, sampling_order="two-step")
l.populate_states(np.random.default_rng(0))
N = len(c.graph)
l.measure_hom("p", inds=[4, 2, 7], updated_means=np.arange(2.0 * N), updated_covs=np.zeros(2 * N), rng=np.random.default_rng(1))
assert l.hom_outcomes([2, 4, 7]) == [N + 2.0, N + 4.0, N + 7.0], l.hom_outcomes([2, 4, 7])
'''),
 dict(id="C31-empty", property="C31", edits=[(CV, "        if inds is None:\n            inds = range(self._N)\n        outcomes", "        if inds is None or len(inds) == 0:\n            inds = range(self._N)\n        outcomes")],
  needs="reading the outcomes of an empty list of modes", breaks="all outcomes are returned",
  demo='''
import numpy as np
from flamingpy.codes import SurfaceCode
from flamingpy.noise import CVLayer
l = CVLayer(SurfaceCode(2), delta=0.1)
assert list(l.hom_outcomes([])) == []
'''),
 dict(id="C31-one-shot", property="C31", edits=[(CV, "                means = SCZ_apply(self._adj, means)\n", "                means = SCZ_apply(abs(self._adj), means)\n")],
  needs="two-step sampling on a graph with negative weights", breaks="the means are propagated with the wrong sign",
  demo='''
import numpy as np
from flamingpy.codes import EGraph
from flamingpy.noise import CVLayer
g = EGraph(); g.add_edge((0, 0, 0), (1, 0, 0), weight=-1)
l = CVLayer(g, delta=1e-9, states={"p": np.array([0, 1])}, sampling_order="two-step")
for s in range(20):
    r = np.random.default_rng(s)
    l.populate_states(r); l.measure_hom("p", rng=r)
    assert all(v < 0.1 for v in l.hom_outcomes())
'''),
 dict(id="C31-float32", property="C31", edits=[(CV, "            covs = np.full(N_inds, (self.delta / 2) ** 0.5, dtype=np.float32)\n", "            covs = np.full(N_inds, (self.delta / 2) ** 0.5, dtype=np.float32)\n            covs[[self.egraph.degree[self._to_points[i]] == 0 for i in inds]] = 0\n")],
  needs="an isolated mode measured in the two-step order", breaks="isolated modes have no noise",
  demo='''
import numpy as np
from flamingpy.codes import EGraph
from flamingpy.noise import CVLayer
g = EGraph(); g.add_nodes_from([(0, 0, 0), (1, 0, 0)])
l = CVLayer(g, delta=0.5, sampling_order="two-step")
r = np.random.default_rng(0)
l.populate_states(r); l.measure_hom("p", rng=r)
assert all(v != 0 for v in l.hom_outcomes())
'''),
 dict(id="C02-five", property="C02", edits=[(ST, "        par = int(np.sum(bit_vals) % 2)\n", "        par = int(np.sum(bit_vals) in (1, 3))\n")],
  needs="a stabilizer with five qubits of bit value 1", breaks="its parity is reported as even",
  demo='''
from flamingpy.codes import SurfaceCode
c = SurfaceCode(3)
s = [s for s in c.primal_stabilizers if len(s.coords()) == 6][0]
for n in c.graph.nodes: c.graph.nodes[n]["bit_val"] = 0
for n in s.coords()[:5]: c.graph.nodes[n]["bit_val"] = 1
assert s.parity == 1
'''),
 dict(id="C25-star-round", property="C25", edits=[(GS, "            degs = 2 * np.pi * i / (n - 1)\n", "            degs = round(2 * np.pi * i / (n - 1), 4)\n")],
  needs="a star of more than about 62833 qubits", breaks="arms of large stars coincide",
  demo='''
from flamingpy.utils.graph_states import star_graph
for n in (10, 1000, 90000):
    assert len(star_graph(n)) == n, n
'''),
 dict(id="C05-half-recovery", property="C05", edits=[(AL, "        if match not in it.product(matching_graph.virtual_points, matching_graph.virtual_points):\n", "        if not {str(v) for v in match} <= {str(v) for v in matching_graph.virtual_points}:\n")],
  needs="nothing: equivalent form", breaks="nothing",
  demo='''
raise SystemExit(0)
'''),
 dict(id="C28-hash-order", property="C28", edits=[(CV, "            val_funcs = {\"p\": q_val_for_p, \"GKP\": q_val_for_GKP}\n\n            for state, indices in self.states.items():\n", "            val_funcs = {\"p\": q_val_for_p, \"GKP\": q_val_for_GKP}\n\n            for state in set(self.states):\n                indices = self.states[state]\n")],
  needs="two processes with different hash seeds and a layer with both kinds of state in the two-step order", breaks="equal generators give different samples in different processes",
  demo='''
import os, subprocess, sys
code = """
import numpy as np
from flamingpy.codes import SurfaceCode
from flamingpy.noise import CVLayer
c = SurfaceCode(2)
l = CVLayer(c, delta=0.1, states={"p": np.array([0, 3])}, sampling_order="two-step")
l.apply_noise(np.random.default_rng(3))
print([round(float(x), 4) for x in l.hom_outcomes(c.all_syndrome_inds)])
"""
outs = {subprocess.run([sys.executable, "-c", code], env=dict(os.environ, PYTHONHASHSEED=str(s)), capture_output=True, text=True).stdout for s in range(6)}
assert len(outs) == 1 and "[" in outs.pop()
'''),
]
SPECS = [s for s in SPECS if s["id"] not in ("C05-half-recovery", "C30-substring", "C30-negative-disp", "C30-dims-many")]
