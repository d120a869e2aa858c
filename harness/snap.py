"""Deep, comparable descriptions of codes and graphs (to show that an operation left them alone)."""
import numpy as np


def plain(v):
    """A value that can be compared with == whatever it held."""
    if isinstance(v, np.ndarray):
        return ("array", str(v.dtype), v.shape, tuple(plain(x) for x in v.ravel().tolist()))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__,) + tuple(plain(x) for x in v)
    if isinstance(v, (set, frozenset)):
        return ("set", frozenset(plain(x) for x in v))
    if isinstance(v, dict):
        return ("dict",) + tuple(sorted(((repr(k), plain(x)) for k, x in v.items())))
    if isinstance(v, (np.generic,)):
        return plain(v.item())
    if isinstance(v, float) and v != v:
        return "nan"
    if isinstance(v, (str, int, float, bool)) or v is None:
        return v
    if hasattr(v, "midpoint") and hasattr(v, "coords"):
        return ("stab", tuple(sorted(map(repr, v.coords()))))
    return ("obj", id(v))


def graph(g):
    return {"order": tuple(g.nodes), "nodes": {n: plain(dict(d)) for n, d in g.nodes(data=True)},
            "edges": {frozenset(e[:2]): plain(dict(e[2])) for e in g.edges(data=True)}, "graph": plain(dict(g.graph)),
            "macro": plain(getattr(g, "macro_to_micro", None))}


def name(node):
    return node if isinstance(node, (str, tuple)) else ("S",) + tuple(sorted(tuple(int(c) for c in q) for q in node.coords()))


def stab_graph(sg, weights=True):
    edges = {}
    for e in sg.edges():
        d = sg.edge_data(*e)
        edges[frozenset((name(e[0]), name(e[1])))] = (plain(d.get("common_vertex")), plain(d.get("weight", "unset")) if weights else None)
    return {"nodes": frozenset(name(n) for n in sg.nodes()), "edges": edges, "stabs": tuple(name(s) for s in sg.stabilizers),
            "low": tuple(sg.low_bound_points), "high": tuple(sg.high_bound_points)}


def code(c, weights=True):
    out = {"graph": graph(c.graph), "dims": tuple(c.dims), "distance": plain(c.distance), "ec": tuple(c.ec), "boundaries": plain(c.boundaries),
           "to_indices": plain(c.graph.to_indices)}
    for k, v in sorted(vars(c).items()):
        if k.endswith("_stab_graph"):
            out[k] = stab_graph(v, weights)
        elif k.endswith("_stabilizers"):
            out[k] = tuple((name(s), tuple(sorted(map(repr, s.coords()))), plain(tuple(s.midpoint())), int(s.parity) if bits_known(c, s) else None) for s in v)
        elif k != "graph":
            out[k] = plain(v)
    return out


def bits_known(c, s):
    return all("bit_val" in c.graph.nodes[q] for q in s.coords())


def diff(a, b, path=""):
    """First difference between two snapshots as text, or None."""
    if a == b:
        return None
    if isinstance(a, dict) and isinstance(b, dict):
        for k in list(a) + [k for k in b if k not in a]:
            if k not in a or k not in b:
                return "%s[%s] %s" % (path, str(k)[:80], "disappeared" if k in a else "appeared")
            d = diff(a[k], b[k], "%s[%s]" % (path, str(k)[:80]))
            if d:
                return d
    return "%s: %s became %s" % (path, str(a)[:150], str(b)[:150])
