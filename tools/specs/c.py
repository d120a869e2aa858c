SC = "flamingpy/codes/surface_code.py"
SG = "flamingpy/codes/graphs/stabilizer_graph.py"
EG = "flamingpy/codes/graphs/egraph.py"
DE = "flamingpy/decoders/decoder.py"
UA = "flamingpy/decoders/unionfind/algos.py"
CV = "flamingpy/noise/cv.py"
II = "flamingpy/noise/iid.py"
SI = "flamingpy/simulations.py"
GS = "flamingpy/utils/graph_states.py"
VZ = "flamingpy/utils/viz.py"

SPECS = [
 dict(id="C19-perfect-truth", property="C19", edits=[(CV, "                if self._perfect_inds:\n                    indices = np.array(list(set(indices).difference(self._perfect_inds)))\n", "                if self._perfect_inds and state == \"GKP\":\n                    indices = np.array(list(set(indices).difference(self._perfect_inds)))\n")],
  needs="a perfect qubit that is in a p-squeezed state (initial sampling order)", breaks="perfect qubits in p-squeezed states are noisy",
  demo='''
import numpy as np
from flamingpy.codes import SurfaceCode
from flamingpy.noise import CVLayer
c = SurfaceCode(2)
c.graph.graph["perfect_points"] = sorted(c.graph.nodes)[:5]
L = CVLayer(c, delta=0.1, states={"p": [0, 1]})
L.populate_states()
assert L._covs_sampler()[0] == 0
'''),
 dict(id="C19-choice-replace", property="C19", edits=[(CV, "            inds = rng.choice(range(self._N), size=int(np.floor(num_p)), replace=False)\n", "            inds = rng.choice(range(self._N), size=int(np.floor(num_p)), replace=num_p > self._N / 2)\n")],
  needs="a swap-out probability above one half", breaks="fewer distinct qubits are swapped than drawn: the swap-out rate is wrong and the list has duplicates",
  demo='''
import numpy as np
from flamingpy.codes import SurfaceCode
from flamingpy.noise import CVLayer
c = SurfaceCode(3)
L = CVLayer(c, delta=0.1, p_swap=0.8)
for s in range(5):
    L.populate_states(np.random.default_rng(s))
    assert len(set(L.p_inds)) == len(L.p_inds)
'''),
 dict(id="C19-two-step-range", property="C19", edits=[(CV, "return rng.random(size=n) * (2 * np.sqrt(np.pi))", "return rng.random(size=n) * np.sqrt(np.pi)")],
  needs="the distribution of the means of p-squeezed states in the two-step order", breaks="the position of p-squeezed states is uniform over one bin rather than over a full period",
  demo='''
import numpy as np
from flamingpy.codes import SurfaceCode
from flamingpy.noise import CVLayer
c = SurfaceCode(3)
L = CVLayer(c, delta=0.1, p_swap=1, sampling_order="two-step")
L.populate_states(np.random.default_rng(0))
m = L._means_sampler(rng=np.random.default_rng(1))
assert m.max() > np.sqrt(np.pi)
'''),
 dict(id="C19-stale-label", property="C19", edits=[(CV, "        for psi in self.states:\n            for ind in self.states[psi]:\n                self.egraph.nodes[self._to_points[ind]][\"state\"] = psi\n", "        for psi in self.states:\n            for ind in self.states[psi]:\n                if psi != \"GKP\" or self.p_swap or \"state\" not in self.egraph.nodes[self._to_points[ind]]:\n                    self.egraph.nodes[self._to_points[ind]][\"state\"] = psi\n")],
  needs="a second noise layer, with other supplied states, on a code that already has labels", breaks="qubits keep the p label of an earlier noise layer",
  demo='''
from flamingpy.codes import SurfaceCode
from flamingpy.noise import CVLayer
c = SurfaceCode(2)
CVLayer(c, delta=0.1, states={"p": [0, 1, 2]}).populate_states()
CVLayer(c, delta=0.1, states={"p": [5]}).populate_states()
assert c.graph.nodes[c.graph.to_points[0]]["state"] == "GKP"
'''),
 dict(id="C20-hom-body4", property="C20", edits=[(CV, "            return neighbor_hom_vals[2] + neighbor_hom_vals[3]\n", "            return neighbor_hom_vals[3] + neighbor_hom_vals[4] if neighbor_hom_vals[1] else neighbor_hom_vals[3]\n")],
  needs="a neighbour with body index 4", breaks="a wrong combination of outcomes is used for micronodes with body index 4",
  demo='''
from flamingpy.codes import SurfaceCode
from flamingpy.noise import CVMacroLayer
L = CVMacroLayer(SurfaceCode(2), delta=0.1)
assert L._process_neighboring_outcomes([0, 0, 1, 2, 4], 4) == 3
'''),
 dict(id="C20-star-last", property="C20", edits=[(CV, "        return np.concatenate((inds[gkps], inds[[not ind for ind in gkps]]))", "        if sum(gkps) == 1 and gkps[-1]:\n            return inds\n        return np.concatenate((inds[gkps], inds[[not ind for ind in gkps]]))")],
  needs="a macronode whose only GKP state is its last micronode", breaks="such macronodes are labelled p and their star is a p-squeezed state",
  demo='''
import numpy as np
from flamingpy.codes import SurfaceCode
from flamingpy.noise import CVMacroLayer
c = SurfaceCode(2)
L = CVMacroLayer(c, delta=0.1, states={"p": [0, 1, 2]})
L.apply_noise(np.random.default_rng(0))
for q, ms in L.egraph.macro_to_micro.items():
    want = "GKP" if any(L.egraph.nodes[m]["state"] == "GKP" for m in ms) else "p"
    assert c.graph.nodes[q]["state"] == want, q
'''),
 dict(id="C20-num-p", property="C20", edits=[(CV, "p_err += Z_err_cond(2 * (2 + num_p) * delta, outcome, use_hom_val=True)", "p_err += Z_err_cond(2 * (2 + len(types) - len(gkp_inds)) * delta, outcome, use_hom_val=True)")],
  needs="an open boundary, where a macronode has micronodes without a neighbour", breaks="missing neighbours count as p-squeezed, so boundary qubits get too large an error probability",
  demo='''
import numpy as np
from flamingpy.codes import SurfaceCode
from flamingpy.cv.gkp import Z_err_cond
from flamingpy.noise import CVMacroLayer
import flamingpy.noise.cv as m
seen = []
def spy(v, h, **k):
    seen.append(round(v / 0.2))
    return Z_err_cond(v, h, **k)
m.Z_err_cond = spy
CVMacroLayer(SurfaceCode(2), delta=0.1).apply_noise(np.random.default_rng(0))
assert set(seen) == {1, 2}, set(seen)
'''),
 dict(id="C20-clip", property="C20", edits=[(CV, "        p_err = min(p_err, 0.5)\n        p_err = max(p_err, 0)\n", "        p_err = min(p_err, 0.5 * (1 + num_p))\n        p_err = max(p_err, 0)\n")],
  needs="a macronode with p-squeezed neighbours and a large error probability", breaks="phase-error probabilities above one half",
  demo='''
import numpy as np
from flamingpy.codes import SurfaceCode
from flamingpy.noise import CVMacroLayer
c = SurfaceCode(3)
L = CVMacroLayer(c, delta=0.5, p_swap=0.4)
for s in range(20):
    L.apply_noise(np.random.default_rng(s))
    assert all(d["p_phase_cond"] <= 0.5 for _, d in c.graph.nodes(data=True))
'''),
 dict(id="C21-float32", property="C21", edits=[(II, 'node_data["bit_val"] = int(rng.random() < self.error_probability)', 'node_data["bit_val"] = int(round(rng.random(), 3) < self.error_probability)')],
  needs="small probabilities: the rate is off by up to 0.0005 (and zero for p = 0.0005 or less)", breaks="the probability of an error is rounded to a multiple of 0.001",
  demo='''
from flamingpy.codes import SurfaceCode
from flamingpy.noise import IidNoise
c = SurfaceCode(2)
n = IidNoise(c, 0.0103)
class R:
    def random(self):
        return 0.0104
n.apply_noise(R())
assert not any(d["bit_val"] for _, d in c.graph.nodes(data=True))
'''),
 dict(id="C21-or", property="C21", edits=[(II, 'node_data["bit_val"] = int(rng.random() < self.error_probability)', 'node_data["bit_val"] = int(rng.random() < self.error_probability or node_data.get("bit_val", 0) > 1)')],
  needs="never", breaks="-", demo="raise SystemExit(0)\n"),
 dict(id="C21-shared-draw", property="C21", edits=[(II, '        for _, node_data in self.egraph.nodes.data():\n            node_data["bit_val"] = int(rng.random() < self.error_probability)\n', '        draws = rng.random(max(1, len(self.egraph) // 2 + 40))\n        for i, (_, node_data) in enumerate(self.egraph.nodes.data()):\n            node_data["bit_val"] = int(draws[i % len(draws)] < self.error_probability)\n')],
  needs="codes with more than 80 qubits: qubits far apart in the order share a draw", breaks="errors on pairs of qubits are perfectly correlated",
  demo='''
import numpy as np
from flamingpy.codes import SurfaceCode
from flamingpy.noise import IidNoise
c = SurfaceCode(4)
n = IidNoise(c, 0.5)
m = []
rng = np.random.default_rng(1)
for _ in range(60):
    n.apply_noise(rng)
    m.append([d["bit_val"] for _, d in c.graph.nodes(data=True)])
m = np.array(m).T
assert len({tuple(r) for r in m}) == len(m)
'''),
 dict(id="C22-rank-split", property="C22", edits=[(SI, "        if i % mpi_size == mpi_rank:\n", "        if i * mpi_size // trials == mpi_rank or mpi_size > trials:\n")],
  needs="more ranks than trials", breaks="every rank runs every trial, so trials are counted several times",
  demo='''
import flamingpy.simulations as s
from flamingpy.codes import SurfaceCode
from flamingpy.noise import IidNoise
n = []
s.ec_mc_trial = lambda *a, **k: n.append(1) or True
class W:
    def Reduce(self, a, b, op=None, root=0):
        b[:] = a
c = SurfaceCode(2)
for r in range(5):
    s.ec_monte_carlo(3, c, IidNoise(c, 0.1), "MWPM", {"weight_opts": None}, W(), r, 5)
assert len(n) == 3, len(n)
'''),
 dict(id="C22-first-trial", property="C22", edits=[(SI, "            local_successes[0] += result\n", "            local_successes[0] += result or (mpi_size > 1 and i < mpi_size and decoder == \"UF\")\n")],
  needs="several ranks and the union-find decoder", breaks="the first trial of every rank counts as a success",
  demo='''
import flamingpy.simulations as s
from flamingpy.codes import SurfaceCode
from flamingpy.noise import IidNoise
s.ec_mc_trial = lambda *a, **k: False
c = SurfaceCode(2)
e = [s.ec_monte_carlo(4, c, IidNoise(c, 0.1), "UF", {"weight_opts": None}, None, r, 2) for r in range(2)]
assert e == [4, 4], e
'''),
 dict(id="C22-same-stream", property="C22", edits=[(SI, "rng = np.random.default_rng(mpi_rank + int_time)", "rng = np.random.default_rng(mpi_rank // 2 + int_time)")],
  needs="two ranks", breaks="pairs of ranks use the same random stream",
  demo='''
import flamingpy.simulations as s
from flamingpy.codes import SurfaceCode
from flamingpy.noise import IidNoise
out = []
def t(a, b, c, d, rng=None):
    out.append(rng.random())
    return True
s.ec_mc_trial = t
c = SurfaceCode(2)
for r in range(2):
    s.ec_monte_carlo(2, c, IidNoise(c, 0.1), "UF", {"weight_opts": None}, None, r, 2)
assert len(set(out)) == 2
'''),
 dict(id="C22-opts", property="C22", edits=[(SI, "    result = correct(code=code_instance, decoder=decoder, weight_options=weight_opts)\n", "    result = correct(code=code_instance, decoder=decoder, weight_options=weight_opts if decoder == \"MWPM\" and len(weight_opts or {}) > 1 else None)\n")],
  needs="weight options with a single entry", breaks="single weight options are ignored (uniform weights instead)",
  demo='''
import numpy as np
import flamingpy.simulations as s
seen = []
s.correct = lambda **k: seen.append(k["weight_options"]) or True
from flamingpy.codes import SurfaceCode
from flamingpy.noise import IidNoise
c = SurfaceCode(2)
s.ec_mc_trial(c, IidNoise(c, 0.1), "MWPM", {"method": "blueprint"})
assert seen == [{"method": "blueprint"}], seen
'''),
 dict(id="C23-append-seek", property="C23", edits=[(SI, '            file = open(file_name, "a", newline="", encoding="utf8")\n', '            file = open(file_name, "a", newline="", encoding="utf8")\n            if file.tell() == 0:\n                file.close()\n                file = open(file_name, "w", newline="", encoding="utf8")\n')],
  needs="never", breaks="-", demo="raise SystemExit(0)\n"),
 dict(id="C23-fname-dir", property="C23", edits=[(SI, '        file_name = fname or "./flamingpy/.sims_data/sims_results.csv"\n', '        file_name = fname or "./flamingpy/.sims_data/sims_results.csv"\n        file_name = str(file_name).replace(" ", "_")\n')],
  needs="a results path that contains a space", breaks="the results go to another file",
  demo='''
import os, tempfile
from flamingpy.codes import SurfaceCode
from flamingpy.noise import IidNoise
from flamingpy.simulations import run_ec_simulation
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "my results.csv")
    run_ec_simulation(2, SurfaceCode, {"distance": 2}, IidNoise, {"error_probability": 0.1}, "MWPM", {"weight_opts": {"method": "uniform"}}, fname=f)
    assert os.path.exists(f), os.listdir(d)
'''),
 dict(id="C24-edge-yz", property="C24", edits=[(VZ, "        x1, z1, y1 = edge[0]\n        x2, z2, y2 = edge[1]\n", "        x1, z1, y1 = edge[0]\n        x2, y2, z2 = edge[1]\n        if (x1, y1) != (x2, y2):\n            y2, z2 = z2, y2\n")],
  needs="an edge along the y axis whose ends differ in y and z", breaks="some edges end at the mirror position",
  demo='''
import matplotlib
matplotlib.use("Agg")
from flamingpy.codes import SurfaceCode
c = SurfaceCode((2, 3, 4))
fig, ax = c.draw()
want = sorted(sorted(((a[0], a[2], a[1]), (b[0], b[2], b[1]))) for a, b in c.graph.edges)
got = sorted(sorted(tuple(float(v) for v in p) for p in zip(*l.get_data_3d())) for l in ax.lines)
assert got == [[tuple(map(float, p)) for p in e] for e in want]
'''),
 dict(id="C24-plotly-node-info", property="C24", edits=[(VZ, "    info_dict = egraph.nodes[node].copy()\n", "    info_dict = egraph.nodes[node]\n")],
  needs="a plotly drawing with index labels", breaks="drawing adds an 'index' attribute to the qubits",
  demo='''
from flamingpy.codes import SurfaceCode
c = SurfaceCode(2)
before = {q: dict(d) for q, d in c.graph.nodes(data=True)}
c.draw(backend="plotly")
assert before == {q: dict(d) for q, d in c.graph.nodes(data=True)}
'''),
 dict(id="C24-pi-neg", property="C24", edits=[(VZ, "        pref = int(integer * ((1 - integer % 2) / 2 + integer % 2))\n", "        pref = int(integer * ((1 - integer % 2) / 2 + integer % 2)) if abs(integer) < 12 else integer // 2\n")],
  needs="odd multiples of sqrt(pi)/2 beyond 11", breaks="wrong tick labels",
  demo='''
import numpy as np
from flamingpy.utils.viz import to_pi_string
assert to_pi_string(13 * np.sqrt(np.pi) / 2, tex=False).startswith("13"), to_pi_string(13 * np.sqrt(np.pi) / 2)
'''),
 dict(id="C24-cube-colors", property="C24", edits=[(VZ, "facecolors=np.repeat(colors, 6, axis=0)", "facecolors=np.tile(colors, 6) if len(set(colors)) > 1 else np.repeat(colors, 6, axis=0)")],
  needs="a syndrome plot with even and odd stabilizers", breaks="the colours go to the wrong stabilizers",
  demo='''
import matplotlib
matplotlib.use("Agg")
import numpy as np
from flamingpy.codes import SurfaceCode
from flamingpy.utils.viz import syndrome_plot
c = SurfaceCode(2)
for i, q in enumerate(sorted(c.graph)):
    c.graph.nodes[q]["bit_val"] = int(q == c.all_syndrome_coords[0])
fig, ax = syndrome_plot(c, "primal")
fc = ax.collections[0].get_facecolor()
assert all((fc[6 * i : 6 * i + 6] == fc[6 * i]).all() for i in range(len(fc) // 6))
'''),
 dict(id="C25-ring-round", property="C25", edits=[(GS, """            edge = [
                (float(round(x, 5)), float(round(y, 5)), 0),
                (float(round(x_next, 5)), float(round(y_next, 5)), 0),
            ]
            ring_graph_state""", """            edge = [
                (float(round(x, 2)), float(round(y, 2)), 0),
                (float(round(x_next, 2)), float(round(y_next, 2)), 0),
            ]
            ring_graph_state""")],
  needs="rings of a few hundred qubits", breaks="neighbouring qubits of large rings get the same position and are merged",
  demo='''
from flamingpy.utils.graph_states import ring_graph
for n in (50, 300, 600, 900):
    assert len(ring_graph(n)) == n, n
'''),
 dict(id="C25-bool", property="C25", edits=[(GS, "        for i in range(n - 1):\n            degs = 2 * np.pi * i / (n - 1)\n", "        for i in range(n - 1):\n            degs = 2 * np.pi * i / max(n - 1, 1) if n < 200 else 2 * np.pi * i / 199\n")],
  needs="stars of more than 200 qubits", breaks="arms of large stars overlap",
  demo='''
from flamingpy.utils.graph_states import star_graph
for n in range(198, 420):
    assert len({(round(x, 9), round(y, 9)) for x, y, _ in star_graph(n)}) == n, n
'''),
 dict(id="C25-complete", property="C25", edits=[(GS, "            for j in range(1, n - i):\n", "            for j in range(1, min(n - i, 64)):\n")],
  needs="complete graphs on more than 64 qubits", breaks="edges between qubits more than 63 places apart are missing",
  demo='''
from flamingpy.utils.graph_states import complete_graph
for n in (64, 66, 80):
    assert complete_graph(n).size() == n * (n - 1) // 2, n
'''),
 dict(id="C26-sticky", property="C26", edits=[(SG, "            if data[\"common_vertex\"] is not None:\n                data[\"weight\"]", "            if data[\"common_vertex\"] is not None and data.get(\"weight\") != -1:\n                data[\"weight\"]")],
  needs="a code that was decoded with erasures and is used again with other noise", breaks="edges that were once erased stay erased",
  demo='''
from flamingpy.codes import SurfaceCode
from flamingpy.decoders.decoder import assign_weights
c = SurfaceCode(2)
for q in c.graph:
    c.graph.nodes[q]["state"] = "p"
assign_weights(c, "UF")
for q in c.graph:
    c.graph.nodes[q]["state"] = "GKP"
assign_weights(c, "UF")
for e in c.primal_stab_graph.real_edges():
    assert c.primal_stab_graph.edge_data(*e)["weight"] == 2
'''),
 dict(id="C26-bound-mut", property="C26", edits=[(SG, "        return it.chain(self.low_bound_points, self.high_bound_points)\n", "        self.low_bound_points.sort()\n        return it.chain(self.low_bound_points, self.high_bound_points)\n")],
  needs="never", breaks="-", demo="raise SystemExit(0)\n"),
 dict(id="C26-rx-remove", property="C26", edits=[(SG, "        subgraph = self.graph.copy()  # This is a shallow copy.\n", "        subgraph = self.graph if self.low_bound_points == [] else self.graph.copy()\n")],
  needs="a periodic or toric code decoded with MWPM on the rustworkx backend, then used again", breaks="the first decoding removes the terminals from the stabilizer graph of the code",
  demo='''
from flamingpy.codes import SurfaceCode
from flamingpy.decoders import correct
c = SurfaceCode(3, boundaries="periodic")
n = len(c.primal_stab_graph.nodes())
for i, q in enumerate(sorted(c.graph)):
    c.graph.nodes[q]["bit_val"] = int(i % 7 == 0)
correct(c)
assert len(c.primal_stab_graph.nodes()) == n
'''),
 dict(id="C27-seam", property="C27", edits=[(SC, "    direction = np.where(point2 - point1)[0][0]\n", "    direction = np.where(point2 - point1)[0][0]\n    if abs(point2 - point1).max() > 7:\n        return 1\n")],
  needs="a periodic axis of length 5 or more (seam edges longer than 7)", breaks="seam edges always have weight +1",
  demo='''
from flamingpy.codes.surface_code import RHG_graph, alternating_polarity
G = RHG_graph((3, 3, 6), "periodic", polarity=alternating_polarity)
for q in G:
    assert sum(d["weight"] for _, _, d in G.edges(q, data=True)) == 0, q
'''),
 dict(id="C27-order", property="C27", edits=[(SC, "        pol = (-1) ** point1[0]\n", "        pol = (-1) ** (point1[0] + (abs(point2[2] - point1[2]) > 1) * (point1[2] > point2[2]))\n")],
  needs="a seam edge along z given with its end points in descending order", breaks="the sign depends on the order of the end points",
  demo='''
from flamingpy.codes.surface_code import alternating_polarity as p
e = ((1, 0, 0), (1, 0, 5))
assert p(e) == p(e[::-1])
'''),
 dict(id="C28-means-rng", property="C28", edits=[(CV, "            means = self._means_sampler(propagate=propagate, rng=rng)\n", "            means = self._means_sampler(propagate=propagate)\n")],
  needs="two-step sampling through measure_hom", breaks="the means come from an unseeded generator",
  demo='''
import numpy as np
from flamingpy.codes import SurfaceCode
from flamingpy.noise import CVLayer
out = []
for _ in range(2):
    c = SurfaceCode(2)
    L = CVLayer(c, delta=0.1, p_swap=0.5, sampling_order="two-step")
    L.apply_noise(np.random.default_rng(3))
    out.append(L.hom_outcomes())
assert out[0] == out[1]
'''),
 dict(id="C28-global-choice", property="C28", edits=[(CV, "            num_p = rng.binomial(self._N, self.p_swap)\n", "            num_p = rng.binomial(self._N, self.p_swap) if self.p_swap < 0.9 else np.random.binomial(self._N, self.p_swap)\n")],
  needs="a swap-out probability of at least 0.9", breaks="the number of swapped qubits comes from the global generator",
  demo='''
import numpy as np
from flamingpy.codes import SurfaceCode
from flamingpy.noise import CVLayer
c = SurfaceCode(3)
L = CVLayer(c, delta=0.1, p_swap=0.95)
out = []
for s in range(4):
    np.random.seed(s)
    L.populate_states(np.random.default_rng(3))
    out.append(sorted(L.p_inds))
assert all(o == out[0] for o in out)
'''),
]
SPECS = [s for s in SPECS if s["needs"] != "never"]
