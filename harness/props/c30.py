"""C30: choices outside the documented ones are rejected and leave objects alone; documented ones are accepted."""
from harness import lemon

lemon.install()

import contextlib
import io
import math
import os
import types
import warnings

os.environ.setdefault("MPLBACKEND", "Agg")
import numpy as np
from hypothesis import strategies as st

warnings.simplefilter("ignore")

from flamingpy.codes import SurfaceCode
from flamingpy.codes.graphs import EGraph
from flamingpy.codes.surface_code import RHG_graph
from flamingpy.cv.ops import splitter_symp
from flamingpy.decoders import correct
from flamingpy.decoders.decoder import assign_weights
from flamingpy.decoders.mwpm import mwpm_decoder
from flamingpy.decoders.mwpm.algos import build_match_graph
from flamingpy.decoders.unionfind import uf_decoder
from flamingpy.decoders.unionfind.uf_classes import Node, Root
from flamingpy.noise import CVLayer, CVMacroLayer, IidNoise
from flamingpy.simulations import ec_mc_trial
from flamingpy.utils.graph_states import complete_graph, linear_cluster, ring_graph, star_graph
from flamingpy.utils.linalg import are_lc_equivalent
from harness import fp, gen, snap
from harness.core import Sub, require

PROPERTY = "C30"
RULE = ("one public argument at a time is given a documented choice or a generated value outside the documented choices (random text, "
        "case changes, padding, truncations, joined and neighbouring names, wrong types, wrong lengths, numbers just outside a range), on "
        "objects in use; non-trivial = an undocumented value that differs from a documented one by one edit, or by type or length only")

BOUND_NAMES = ["open_primal", "open_dual", "primal", "dual", "periodic", "periodic_primal", "periodic_dual"]
KINDS = ["primal", "dual", "periodic"]


# ---------------------------------------------------------------- the calls
def seq(case, v):
    form = case.get("form", "list")
    if isinstance(v, list):
        return tuple(v) if form == "tuple" else np.array(v) if form == "array" else v
    return v


def cv(case, code, **kw):
    kw.setdefault("delta", 0.1)
    return (CVMacroLayer if case.get("macro") else CVLayer)(code, **kw)


def noisy(case, code, rng, **kw):
    layer = cv(case, code, **kw)
    layer.apply_noise(rng)
    return layer


def call_rhg_dims(case, code, v, rng):
    return RHG_graph(seq(case, v), case["other"])


def call_code_dims(case, code, v, rng):
    return SurfaceCode(seq(case, v), ec=case["ec"], boundaries=case["b"])


def call_rhg_bound(case, code, v, rng):
    return RHG_graph(case["size"], seq(case, v))


def call_ec(case, code, v, rng):
    return SurfaceCode(case["size"], ec=v, boundaries=case["b"])


def call_bound(case, code, v, rng):
    return SurfaceCode(case["size"], ec=case["ec"], boundaries=v)


def call_backend(case, code, v, rng):
    return SurfaceCode(case["size"], ec=case["ec"], boundaries=case["b"], backend=v)


def call_decoder(case, code, v, rng):
    if case["via"]:
        return ec_mc_trial(code, IidNoise(code, 0.0), v, None, rng)
    return correct(code, decoder=v)


def call_mwpm(case, code, v, rng):
    if case["via"] == 0:
        return correct(code, decoder="MWPM", decoder_opts={"backend": v})
    if case["via"] == 1:
        return build_match_graph(code, code.ec[0], v)
    return mwpm_decoder(code, code.ec[0], backend=v)


def call_method(case, code, v, rng):
    if case["via"]:
        return correct(code, decoder=case["dec"], weight_options={"method": v, "delta": 0.1})
    return assign_weights(code, case["dec"], method=v, delta=0.1)


def call_order(case, code, v, rng):
    return CVLayer(code, delta=0.1, sampling_order=v)


def call_draw(case, code, v, rng):
    import matplotlib.pyplot as plt

    try:
        return code.graph.draw(backend=v)
    finally:
        plt.close("all")


def call_axis(case, code, v, rng):
    return code.graph.slice_coords(v, case["size"])


def call_disp(case, code, v, rng):
    return code.graph.macronize(disp=float(v), pad_boundary=bool(case["via"]))


def call_splitter(case, code, v, rng):
    return splitter_symp(v)


def call_swap_and_set(case, code, v, rng):
    p_swap, p_set = v
    return cv(case, code, p_swap=p_swap, states={"p": np.array(p_set, dtype=int)})


def call_swap_range(case, code, v, rng):
    return noisy(case, code, rng, p_swap=v)


def call_state_name(case, code, v, rng):
    return noisy(case, code, rng, states={"p": np.array([0]), v: np.array([1, 2])})


def call_state_index(case, code, v, rng):
    return noisy(case, code, rng, states={"p": np.array([0, v])})


def call_iid(case, code, v, rng):
    return IidNoise(code, v)


def call_colors(case, code, v, rng):
    import matplotlib.pyplot as plt

    try:
        return code.graph.draw(backend="plotly" if case["via"] == 1 else "matplotlib", **{case["key"]: tuple(v), "legend": False})
    finally:
        plt.close("all")


def call_info(case, code, v, rng):
    return code.graph.draw(backend="plotly", label=seq(case, v))


def call_root(case, code, v, rng):
    if isinstance(v, dict):
        node = Node(5)
        v = {"root": lambda: Root(node), "class": lambda: Node, "lookalike": lambda: types.SimpleNamespace(id=5, children=[], parent=None, cluster=None), "stabilizer": lambda: getattr(code, case["ec"] + "_stabilizers")[0],
             "dict": lambda: vars(node)}[v["make"]]()
    return Root(tuple(v) if isinstance(v, list) else v)


def call_complex(case, code, v, rng):
    return [mwpm_decoder, uf_decoder, build_match_graph][case["via"]](code, v)


def call_form(case, code, v, rng):
    make = [star_graph, complete_graph, linear_cluster, ring_graph][case["via"] % 4]
    return are_lc_equivalent(make(case["size"] + 1), complete_graph(case["size"] + 1) if case["via"] % 4 == 0 else make(case["size"] + 1), clifford_form=v)


NAMES = {
    "rhg_bound_name": (call_rhg_bound, BOUND_NAMES, ["open", "toric", "both", "smooth", "rough", "open_periodic", "periodic_periodic", "none"]),
    "ec": (call_ec, ["primal", "dual"], ["both", "periodic", "all", "x", "z"]),
    "boundaries": (call_bound, ["open", "toric", "periodic"], ["open_primal", "open_dual", "periodic_dual", "periodic_primal", "primal", "dual", "closed", "planar", "rotated"]),
    "backend": (call_backend, ["networkx", "rustworkx"], ["retworkx", "lemon", "nx", "rx", "igraph", "matplotlib"]),
    "decoder": (call_decoder, ["MWPM", "UF"], ["unionfind", "union-find", "minimum weight perfect matching", "mwpm", "uf", "lemon", "networkx", "ML"]),
    "mwpm_backend": (call_mwpm, ["networkx", "rustworkx", "lemon"], ["retworkx", "LEMON", "UF", "MWPM", "blossom", "pymatching", "nx"]),
    "method": (call_method, ["uniform", "blueprint"], ["unit", "naive", "unity", "Blueprint", "weighted", "unionfind"]),
    "sampling_order": (call_order, ["initial", "two-step"], ["final", "two_step", "twostep", "two step", "one-step", "first"]),
    "draw_backend": (call_draw, ["matplotlib", "plotly"], ["mpl", "networkx", "Matplotlib", "bokeh"]),
    "axis": (call_axis, ["x", "y", "z"], ["X", "t", "xy", "w", "0", "-x"]),
    "state_name": (call_state_name, ["GKP"], ["gkp", "squeezed", "q", "cat", "P", "vacuum"]),
    "complex": (call_complex, None, ["all", "both", "periodic", "x"]),
    "clifford_form": (call_form, ["tensor", "global"], ["matrix", "local", "Tensor", "list", "tensors"]),
}
ALPHA = "abcdefghilmnoprtuwxyzPDGKMUFW_-0 ./"


@st.composite
def name_case(draw, kind):
    call, good, near = NAMES[kind]
    c = draw(gen.code_spec(hi=3, max_volume=18, periodic_lo=2))
    if kind == "complex":
        good = [c["ec"]]
        near = near + ["dual" if c["ec"] == "primal" else "primal"]
    c.update({"kind": kind, "size": draw(st.integers(2, 3)), "via": draw(st.integers(0, 2)), "dec": draw(st.sampled_from(["MWPM", "UF"])),
              "macro": draw(st.integers(0, 4)) == 0, "seed": draw(gen.seeds())})
    how = draw(st.sampled_from(["good", "near", "near", "edit", "edit", "edit", "text", "joined"]))
    base = draw(st.sampled_from(good))
    if how == "good":
        v = base
    elif how == "near":
        v = draw(st.sampled_from(near))
    elif how == "text":
        v = draw(st.text(max_size=12))
    elif how == "joined":
        v = base + draw(st.sampled_from(["", "_", "-", " ", ","])) + draw(st.sampled_from(good))
    else:
        e = draw(st.sampled_from(["case", "title", "upper", "lead", "trail", "drop", "insert", "double", "swap", "tail", "head"]))
        k = draw(st.integers(0, len(base) - 1))
        v = {"case": base[:k] + base[k].swapcase() + base[k + 1:], "title": base.title(), "upper": base.upper(), "lead": " " + base, "trail": base + draw(st.sampled_from([" ", "\n", "s", "_", "1"])),
             "drop": base[:k] + base[k + 1:], "insert": base[:k] + draw(st.sampled_from(ALPHA)) + base[k:], "double": base + base,
             "swap": base[:k] + base[k:k + 2][::-1] + base[k + 2:], "tail": base[k:], "head": base[:k + 1]}[e]
    c["value"] = v
    c["ok"] = v in good
    c["close"] = how in ("near", "edit", "joined")
    if kind == "sampling_order" and v == "":
        c["ok"] = True  # the default order
    if kind == "state_name" and v == "p":
        c["ok"] = None  # replaces the other entry
    if kind == "method" and v == "blueprint" and c["dec"] == "UF":
        c["ok"] = False
    return c


def call_bound_list(case, code, v, rng):
    return RHG_graph(case["size"], seq(case, v))


BAD_DIM = st.one_of(st.none(), st.text(max_size=4), st.floats(allow_nan=False), st.sampled_from([2.0, 3.0, 2.5, "3", "333", "abc"]), st.lists(st.integers(2, 3), max_size=2),
                    st.lists(st.integers(2, 3), min_size=4, max_size=6), st.fixed_dictionaries({}),
                    st.tuples(st.permutations([0, 1, 2]), st.lists(st.sampled_from([2.5, 2.0, 3.0, "3", None, 2, 3]), min_size=3, max_size=3)).map(lambda t: t[1]).filter(lambda l: any(type(x) is not int for x in l)))


@st.composite
def shape_case(draw):
    kind = draw(st.sampled_from(["rhg_dims", "code_dims", "rhg_bounds", "disp", "splitter", "swap_and_set", "swap_range", "state_index", "iid", "colors", "info", "root"]))
    c = draw(gen.code_spec(hi=3, max_volume=12, periodic_lo=2))
    c.update({"kind": kind, "size": draw(st.integers(2, 3)), "via": draw(st.integers(0, 2)), "macro": draw(st.integers(0, 4)) == 0, "seed": draw(gen.seeds()),
              "form": draw(st.sampled_from(["list", "tuple", "array"])), "other": draw(st.sampled_from(BOUND_NAMES))})
    good = draw(st.integers(0, 3)) == 0
    if kind in ("rhg_dims", "code_dims"):
        v = draw(st.one_of(st.integers(2, 3), st.lists(st.integers(2, 3), min_size=3, max_size=3))) if good else draw(BAD_DIM)
        if c["form"] == "array" and isinstance(v, list) and any(type(x) is not int for x in v):
            c["form"] = "list"
    elif kind == "rhg_bounds":
        if good:
            v = draw(st.lists(st.sampled_from(KINDS), min_size=3, max_size=3))
        else:
            v = draw(st.one_of(
                st.lists(st.sampled_from(KINDS), max_size=2), st.lists(st.sampled_from(KINDS), min_size=4, max_size=7),
                st.tuples(st.lists(st.sampled_from(KINDS), min_size=3, max_size=3), st.integers(0, 2), st.sampled_from(["open", "toric", "Primal", "smooth", "", "periodic ", "dua", "open_primal", "pri", "0"])).map(
                    lambda t: t[0][: t[1]] + [t[2]] + t[0][t[1] + 1:]),
                st.none(), st.integers(0, 5), st.just([KINDS, KINDS, KINDS])))
    elif kind == "disp":
        v = draw(st.floats(1e-3, 0.4999)) if good else draw(st.one_of(st.floats(0.5, 10), st.floats(-10, -1e-9), st.sampled_from([0.5, 0.5000001, 1, 1.1, -0.1, 100.25, -1e-300]), st.just("inf"), st.just("-inf")))
        if v == 0:
            v = 0.5
    elif kind == "splitter":
        v = draw(st.integers(1, 6)) * 4 if good else draw(st.one_of(st.integers(-6, 3), st.sampled_from(["4", None, -4, -8, 0, 3.5])))
    elif kind == "swap_and_set":
        p_set = draw(st.lists(st.integers(0, 7), min_size=1, max_size=4, unique=True))
        v = draw(st.sampled_from([[0.5, []], [None, p_set], [0, []], [1, []], [None, []]])) if good else [draw(st.sampled_from([0, 0.0, 1, 0.5, 1e-9, 0.25])), p_set]
    elif kind == "swap_range":
        v = draw(st.one_of(st.floats(0, 1), st.sampled_from([0, 1]))) if good else draw(st.one_of(st.floats(1.0000001, 50), st.floats(-50, -1e-9), st.sampled_from([2, -1, 1.0000000000000002, -1e-12, 100])))
    elif kind == "state_index":
        v = draw(st.integers(1, 9)) if good else draw(st.one_of(st.integers(10**6, 10**6 + 9), st.integers(-9, -1)))
    elif kind == "iid":
        v = draw(st.one_of(st.floats(0, 1), st.sampled_from([0, 1]))) if good else draw(st.one_of(st.floats(1, 50, exclude_min=True), st.floats(-50, 0, exclude_max=True).filter(lambda x: x < 0), st.sampled_from([2, -1, "inf"])))
    elif kind == "colors":
        c["key"] = draw(st.sampled_from(["color_nodes", "color_edges"]))
        attr, table = ("type", {"primal": "red", "dual": "blue"}) if c["key"] == "color_nodes" else ("weight", {"1": "red"})
        if good:
            v = [attr, table]
        else:
            v = draw(st.sampled_from([[table, attr], [attr, attr], [1, table], [attr, ["red", "blue"]], [attr], [attr, table, "red"], [None, table], [attr, None], []]))
    elif kind == "info":
        c["form"] = "tuple" if c["form"] == "tuple" else "list"
        v = draw(st.sampled_from(["coordinates", None, "all", "type", "index", ["type", "index"], ["type"], []])) if good else draw(st.sampled_from([3, 2.5, {"a": 1}, 0, -1]))
    else:
        v = draw(st.one_of(st.none(), st.integers(), st.text(max_size=5), st.lists(st.integers(), max_size=3),
                           st.fixed_dictionaries({"make": st.sampled_from(["root", "class", "lookalike", "stabilizer", "dict"])})))
        good = False
    c.update({"value": v, "ok": good, "close": True})
    return c


CALLS = {"rhg_dims": call_rhg_dims, "code_dims": call_code_dims, "rhg_bounds": call_bound_list, "disp": call_disp, "splitter": call_splitter, "swap_and_set": call_swap_and_set,
         "swap_range": call_swap_range, "state_index": call_state_index, "iid": call_iid, "colors": call_colors, "info": call_info, "root": call_root}


def structure(code, bits):
    s = snap.code(code, weights=False)
    s["graph"]["nodes"] = {n: [d.get("type"), d.get("bit_val") if bits else None] for n, d in code.graph.nodes(data=True)}
    if not bits:
        # The parities of the stabilizers follow the bits.
        s = {k: (tuple(x[:3] for x in v) if k.endswith("_stabilizers") else v) for k, v in s.items()}
    return s


def check(case, ctx):
    kind, v = case["kind"], case["value"]
    if isinstance(v, str) and v in ("inf", "-inf") and kind in ("disp", "iid"):
        v = float(v)
    if case["ok"] is None:
        return
    call = NAMES[kind][0] if kind in NAMES else CALLS[kind]
    rng = np.random.default_rng(case["seed"])
    code = fp.build(case)
    nodes = sorted(code.graph.nodes)
    for n, b in zip(nodes, rng.integers(0, 2, len(nodes))):
        code.graph.nodes[n].update(bit_val=int(b), state="GKP", hom_val_p=float(b))
    # A code that has been used already: indices and matrices exist, weights are assigned.
    assign_weights(code, "MWPM")
    code.graph.adj_generator(sparse=True)
    # Noise is applied before the argument can matter in these calls.
    keep_bits = not (kind in ("swap_range", "state_index", "state_name") or kind == "decoder" and case["via"])
    before = structure(code, keep_bits)
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            res = call(case, code, v, rng)
    except Exception as e:
        err = e
    else:
        err = None
    if case["ok"]:
        require(err is None, "%s: the documented choice %r was rejected with %s: %s", kind, v, type(err).__name__, err)
    else:
        require(err is not None, "%s: the undocumented choice %r (%s) was accepted", kind, v, type(v).__name__)
        d = snap.diff(before, structure(code, keep_bits))
        require(d is None, "%s: the rejected choice %r changed the code: %s", kind, v, d)
        ctx.mark(case["close"])
    ctx.label(kind, kind + ("+" if case["ok"] else "-"))


def edits(tier):
    """Every part and every small edit of every documented name, and values of other types."""
    for kind in sorted(NAMES):
        _, good, near = NAMES[kind]
        for ec in ["primal", "dual"]:
            goods = good or [ec]
            values = list(goods) + list(near) + [None, 0, 1, 2, -1, 1.5, True, False, [], [goods[0]], {}, "", " ", "None", "0"]
            for g in goods:
                n = len(g)
                values += [g[i:j] for i in range(n) for j in range(i + 1, n + 1) if j - i <= 2 or i == 0 or j == n or (j - i) % 3 == 0]
                values += [g[:i] + g[i + 1:] for i in range(n)] + [g[:i] + g[i:i + 2][::-1] + g[i + 2:] for i in range(n - 1)]
                values += [g[:i] + g[i].swapcase() + g[i + 1:] for i in range(n)] + [g.upper(), g.title(), g[::-1]]
                values += [g[:i] + x + g[i:] for i in (0, n // 2, n) for x in " _-s0\n'"] + [g[:i] + g[i] + g[i:] for i in range(n)]
                values += [g + x + h for h in goods for x in ("", "_", " ", ",")] + [[g], [g, g]]
            done = []
            for v in values:
                if not any(type(v) is type(x) and v == x for x in done):
                    done.append(v)
            for k, v in enumerate(done):
                if (good is None or (k + (ec == "dual")) % 2) and (tier == "thorough" or len(done) < 160 or k < 30 or k % 2 or isinstance(v, str) and any(v in g for g in goods)):
                    c = {"size": 2, "d": 2, "b": ["open", "toric", "periodic"][k % 3], "ec": ec, "kind": kind, "via": (k // 2) % 3, "dec": ["MWPM", "UF"][(k // 3) % 2],
                         "macro": k % 7 == 0, "seed": k, "value": v, "ok": isinstance(v, str) and v in goods, "close": True}
                    if kind == "sampling_order" and not v:
                        c["ok"] = True if v == "" else None
                    if kind == "state_name" and v == "p":
                        c["ok"] = None
                    if kind == "method" and v == "blueprint" and c["dec"] == "UF":
                        c["ok"] = False
                    yield c


@st.composite
def names(draw):
    return draw(name_case(draw(st.sampled_from(sorted(NAMES)))))


SUBS = [Sub("edits", check, enum=edits), Sub("names", check, names, quick=1500, thorough=60000), Sub("shapes", check, shape_case, quick=3000, thorough=60000)]
