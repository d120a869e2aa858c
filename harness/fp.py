"""Thin helpers over the public API of the code under test."""
import numpy as np

from harness import gen
from harness.ref import refcode


def build(spec, **kw):
    from flamingpy.codes import SurfaceCode

    d = spec["d"] if isinstance(spec["d"], int) else tuple(spec["d"])
    return SurfaceCode(d, ec=spec["ec"], boundaries=spec["b"], **kw)


def used(spec, **kw):
    """A code; in a third of the cases (a seventh of the large ones) one that was used before, its qubits reset afterwards.

    In two cases of five the CZ gates of the cluster state have signs or weights, which decoding must not depend on."""
    seed = spec["seed"]
    if seed % 5 < 2:
        kw.setdefault("polarity", _signs if seed % 5 else cz_weights)
    code = build(spec, **kw)
    if seed % (3 if len(code.graph) < 1200 else 7) == 1:
        use(code, spec["ec"], np.random.default_rng([seed, 77]))
    return code


def _signs(edge):
    from flamingpy.codes import alternating_polarity

    return alternating_polarity(edge)


def cz_weights(edge):
    return (3 * sum(edge[0]) * sum(edge[1]) + edge[0][0] * edge[1][0]) % 5 - 1


def use(code, ec, rng):
    """Rounds of noise, weights and decoding, and queries; the attributes of the qubits are put back."""
    from flamingpy.decoders import decoder as dec

    g = code.graph
    nodes = sorted(g.nodes)
    keep = {n: dict(g.nodes[n]) for n in nodes}
    sg = getattr(code, ec + "_stab_graph")
    for _ in range(1 + int(rng.integers(2))):
        p = float(rng.choice([0.0, 0.02, 0.05])) if len(nodes) < 1200 else 0.01
        swap = float(rng.choice([0.0, 0.1, 0.3]))
        for n in nodes:
            g.nodes[n].update(bit_val=int(rng.random() < p), state="p" if rng.random() < swap else "GKP")
        how = int(rng.integers(4))
        if how == 0:
            dec.correct(code, decoder="MWPM", decoder_opts={"backend": "rustworkx"})
        elif how == 1:
            dec.correct(code, decoder="UF")
        elif how == 2:
            for n in nodes:
                g.nodes[n]["weight"] = int(rng.integers(1, 9))
            sg.assign_weights(code)
            sg.shortest_paths_from_low()
            sg.shortest_paths_from_high()
            for s in list(sg.odd_parity_stabilizers())[:2]:
                sg.shortest_paths_without_high_low(s)
            dec.check_correction(code)
        else:
            list(sg.edges()), list(sg.real_nodes()), list(sg.real_edges()), list(sg.odd_parity_stabilizers())
            g.adj_generator(sparse=bool(rng.integers(2)))
            dec.check_correction(code, sanity_check=False)
    for n in nodes:
        g.nodes[n].clear()
        g.nodes[n].update(keep[n])


def ref(spec):
    return refcode(gen.dims_of(spec), spec["ec"], spec["b"])


def set_bits(code, flips):
    """bit_val 1 exactly on `flips`, 0 elsewhere."""
    for node in code.graph.nodes:
        code.graph.nodes[node]["bit_val"] = 0
    for q in flips:
        code.graph.nodes[q]["bit_val"] = 1


def bits(code):
    return {n: code.graph.nodes[n]["bit_val"] for n in code.graph.nodes}


def tup(p):
    return tuple(p)


_CUSTOM = []


def matcher(name):
    """The matching backend: a documented name, the class behind it ("class:..."), or a class of our own ("custom")."""
    if name is None or name != "custom" and not name.startswith("class:"):
        return name
    from flamingpy.decoders.mwpm import matching

    if name != "custom":
        return {"networkx": matching.NxMatchingGraph, "rustworkx": matching.RxMatchingGraph, "lemon": matching.LemonMatchingGraph}[name[6:]]
    if not _CUSTOM:
        import networkx as nx

        class Custom(matching.MatchingGraph):
            """A user's matching graph: edges in a dictionary; counts its matchings."""

            matchings = 0

            def __init__(self, ec=None, code=None):
                self.table = {}
                matching.MatchingGraph.__init__(self, ec, code)

            def add_edge(self, edge, weight, path=()):
                self.table[frozenset(edge)] = (weight, list(path), tuple(edge))

            def edge_weight(self, edge):
                return self.table[frozenset(edge)][0]

            def edge_path(self, edge):
                return self.table[frozenset(edge)][1]

            def min_weight_perfect_matching(self):
                Custom.matchings += 1
                g = nx.Graph()
                for w, _, edge in self.table.values():
                    g.add_edge(*edge, weight=w)
                return list(nx.min_weight_matching(g))

        _CUSTOM.append(Custom)
    return _CUSTOM[0]
