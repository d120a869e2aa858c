SG = "flamingpy/codes/graphs/stabilizer_graph.py"
SC = "flamingpy/codes/surface_code.py"
EG = "flamingpy/codes/graphs/egraph.py"
DEC = "flamingpy/decoders/decoder.py"
UA = "flamingpy/decoders/unionfind/algos.py"
UC = "flamingpy/decoders/unionfind/uf_classes.py"
CV = "flamingpy/noise/cv.py"
IID = "flamingpy/noise/iid.py"
MW = "flamingpy/decoders/mwpm/algos.py"
LA = "flamingpy/utils/linalg.py"
OPS = "flamingpy/cv/ops.py"
GKP = "flamingpy/cv/gkp.py"

SPECS = [
 dict(id="C08-custom-default", property="C08", edits=[
  (MW, "        matching_backend = default_backends[matching_backend]\n\n    return matching_backend(ec, code)", "        matching_backend = default_backends[matching_backend]\n    elif not isinstance(matching_backend, str):\n        # Types with an empty init are filled afterwards.\n        graph = matching_backend(ec)\n        return graph._with_edges_between_real_odd_nodes(code, ec)\n\n    return matching_backend(ec, code)")],
  needs="a matching backend given as a type rather than a name, on a code with open boundaries", breaks="defects are never matched to the boundary, so the correction is not minimal (or does not reproduce the syndrome)", demo='''
from flamingpy.codes import SurfaceCode
from flamingpy.decoders import correct
from flamingpy.decoders.mwpm.matching import NxMatchingGraph
c = SurfaceCode(4)
for v in c.graph: c.graph.nodes[v]["bit_val"] = 0
c.graph.nodes[c.primal_bound_points[0]]["bit_val"] = 1
correct(c, decoder="MWPM", decoder_opts={"backend": NxMatchingGraph})
assert not any(s.parity for s in c.primal_stabilizers)
'''),
 dict(id="C05-trim-limit", property="C05", edits=[
  (UA, "    while True:\n        edges = list(spanning_forest.out_edges(leaf))", "    # A branch is never longer than the lattice.\n    for _ in range(100):\n        edges = list(spanning_forest.out_edges(leaf))")],
  needs="a branch of more than a hundred edges in a union-find cluster", breaks="the rest of the branch is not peeled and stabilizers stay odd", demo='''
from flamingpy.codes import SurfaceCode
from flamingpy.decoders.unionfind import uf_decoder
from flamingpy.decoders.unionfind.algos import peeling
import rustworkx as rx
g = rx.PyGraph()
g.add_nodes_from(list(range(450)))
for i in range(449): g.add_edge(i, i + 1, {"common_vertex": (i, 0, 0)})
par = {i: 0 for i in range(450)}
par[0] = par[449] = 1
assert len(peeling(g, par)) == 449
'''),
 dict(id="C19-block", property="C19", edits=[
  (CV, "            inds = rng.choice(range(self._N), size=int(np.floor(num_p)), replace=False)", "            # Swapped-out modes, starting anywhere.\n            inds = np.sort((rng.integers(self._N) + np.arange(num_p)) % self._N)")],
  needs="a swap-out probability strictly between 0 and 1", breaks="the p-squeezed qubits are always consecutive, so qubits are not swapped out independently", demo='''
import numpy as np
from flamingpy.codes import SurfaceCode
from flamingpy.noise import CVLayer
c = SurfaceCode(3)
n = CVLayer(c, delta=0.1, p_swap=0.3)
rng = np.random.default_rng(1)
runs = []
for _ in range(50):
    n.populate_states(rng)
    x = np.zeros(len(c.graph)); x[n.p_inds] = 1
    runs.append(np.abs(np.diff(x)).sum())
assert np.mean(runs) > 5
'''),
 dict(id="C19-antithetic", property="C19", edits=[
  (CV, "        # Conduct the sample\n        outcomes = rng.normal(means, covs)\n", "        # Conduct the sample, in antithetic pairs\n        noise = rng.normal(0, covs)\n        last = self.__dict__.setdefault(\"_last_noise\", {})\n        if last.get(quad) is not None and last[quad].shape == noise.shape:\n            noise = -last[quad] * (covs > 0)\n            last[quad] = None\n        else:\n            last[quad] = noise\n        outcomes = means + noise\n")],
  needs="two applications of the same layer", breaks="the noise of every second application is minus that of the previous one", demo='''
import numpy as np
from flamingpy.codes import SurfaceCode
from flamingpy.noise import CVLayer
c = SurfaceCode(2)
n = CVLayer(c, delta=0.1)
rng = np.random.default_rng(1)
n.apply_noise(rng); a = np.array([c.graph.nodes[v]["hom_val_p"] for v in c.primal_syndrome_coords])
n.apply_noise(rng); b = np.array([c.graph.nodes[v]["hom_val_p"] for v in c.primal_syndrome_coords])
assert not np.allclose(a, -b)
'''),
 dict(id="C21-antithetic", property="C21", edits=[
  (IID, "        for _, node_data in self.egraph.nodes.data():\n            node_data[\"bit_val\"] = int(rng.random() < self.error_probability)", "        # Antithetic pairs of samples reduce the variance.\n        draws = self.__dict__.pop(\"_draws\", None)\n        if draws is None or len(draws) != len(self.egraph):\n            draws = rng.random(len(self.egraph))\n            self._draws = 1 - draws\n        for (_, node_data), draw in zip(self.egraph.nodes.data(), draws):\n            node_data[\"bit_val\"] = int(draw < self.error_probability)")],
  needs="one noise layer applied twice", breaks="every second application depends on the one before", demo='''
import numpy as np
from flamingpy.codes import SurfaceCode
from flamingpy.noise import IidNoise
c = SurfaceCode(3)
n = IidNoise(c, 0.5)
rng = np.random.default_rng(1)
n.apply_noise(rng); a = [c.graph.nodes[v]["bit_val"] for v in c.graph]
n.apply_noise(rng); b = [c.graph.nodes[v]["bit_val"] for v in c.graph]
assert any(x == y for x, y in zip(a, b))
'''),
 dict(id="C16-large-single", property="C16", edits=[
  (OPS, "    N = quads.shape[0] // 2\n    if len(quads.shape) == 1:", "    N = quads.shape[0] // 2\n    if N > 128 and quads.dtype.kind == \"f\":\n        # Save memory on large lattices.\n        quads = quads.astype(np.float32)\n    if len(quads.shape) == 1:")],
  needs="more than 128 modes in double precision", breaks="the result has single precision only", demo='''
import numpy as np
from flamingpy.cv.ops import SCZ_apply
n = 150
A = np.zeros((n, n)); A[0, 1] = A[1, 0] = 1
q = np.random.default_rng(0).normal(size=2 * n)
assert np.abs(SCZ_apply(A, q)[:n] - q[:n]).max() < 1e-12
'''),
 dict(id="C17-chunk", property="C17", edits=[
  (GKP, "    int_frac = np.divmod(x, alpha)\n", "    if np.ndim(x) == 1 and len(x) > 4096:\n        # Long arrays are processed piecewise to bound the memory used.\n        parts = [integer_fractional(x[k : k + 4096], alpha) for k in range(0, len(x) - len(x) % 4096, 4096)]\n        parts.append(integer_fractional(x[-(len(x) % 4096) :], alpha))\n        return tuple(np.concatenate(part) for part in zip(*parts))\n    int_frac = np.divmod(x, alpha)\n")],
  needs="an array whose length is a multiple of 4096 (above 4096)", breaks="the outcomes are returned twice", demo='''
import numpy as np
from flamingpy.cv.gkp import integer_fractional
x = np.linspace(-9, 9, 8192)
assert integer_fractional(x, 1.0)[0].shape == x.shape
'''),
 dict(id="C18-long-sorted", property="C18", edits=[
  (GKP, "        numerator = np.sum([ex(val, 2 * i + factor) for i in range(-n_max, n_max)], 0)\n", "        if np.size(val) > 256:\n            # Only the terms that matter for most of a long array.\n            n_max = min(n_max, 4)\n        numerator = np.sum([ex(val, 2 * i + factor) for i in range(-n_max, n_max)], 0)\n")],
  needs="an array of more than 256 outcomes far from the origin, whole outcomes used", breaks="the summation window does not cover the outcomes", demo='''
import numpy as np
from flamingpy.cv.gkp import Z_err_cond
x = np.linspace(-14, 14, 300)
a = Z_err_cond(0.1, x, use_hom_val=True)
assert abs(a[3] - Z_err_cond(0.1, float(x[3]), use_hom_val=True)) < 1e-9
'''),
 dict(id="C15-wide-limit", property="C15", edits=[
  (LA, "    # pivot index\n    p = 0\n", "    # pivot index\n    p = 0\n    if M.dtype == bool or M.shape[1] > 128:\n        # wide matrices are reduced in bytes\n        R = R.astype(np.int8)\n        max_cols = min(max_cols, 127 + 128)\n")],
  needs="a matrix of more than 255 columns", breaks="the columns after the 255th are not reduced", demo='''
import numpy as np
from flamingpy.utils.linalg import reduce_RREform_mod2
M = np.zeros((3, 300), dtype=int); M[:, 280] = 1; M[0, 281] = 1
R, p = reduce_RREform_mod2(M)
assert p == 2
'''),
 dict(id="C15-large-basis", property="C15", edits=[
  (LA, "    for i in range(d):\n        for j in range(i + 1):\n            # boolean", "    for i in range(d):\n        # the first vectors suffice in large null spaces\n        for j in range(min(i + 1, 12)):\n            # boolean")],
  needs="a pair of graphs whose solutions need two late basis vectors (large null spaces)", breaks="equivalent graphs are reported inequivalent", demo='''
import numpy as np
from flamingpy.utils.linalg import search_nullspace
# n qubits; only the sum of the last two basis vectors is invertible everywhere
n = 14
I = np.zeros((n, 4 * n), dtype=int)
rows = []
for k in range(13):
    v = np.zeros(4 * n, dtype=int); v[k] = 1; rows.append(v)
a = np.zeros(4 * n, dtype=int); a[:n] = 1; d = np.zeros(4 * n, dtype=int); d[3 * n:] = 1
B = np.array(rows + [a, d])
s = search_nullspace(B)
assert s is not None
'''),
]
