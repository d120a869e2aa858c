"""Independent reference models: the RHG lattice, its parity checks and GF(2) algebra on bitmasks.

Nothing here imports the code under test.
"""
import heapq
import itertools as it

CODE_BOUNDS = {
    ("primal", "open"): ("primal", "dual", "dual"),
    ("dual", "open"): ("primal", "dual", "primal"),
    ("primal", "toric"): ("periodic", "periodic", "dual"),
    ("dual", "toric"): ("periodic", "periodic", "primal"),
    ("primal", "periodic"): ("periodic",) * 3,
    ("dual", "periodic"): ("periodic",) * 3,
}

NAMED_BOUNDS = {
    "open_primal": ("primal", "dual", "primal"),
    "open_dual": ("primal", "dual", "dual"),
    "primal": ("primal",) * 3,
    "dual": ("dual",) * 3,
    "periodic": ("periodic",) * 3,
    "periodic_primal": ("periodic", "periodic", "primal"),
    "periodic_dual": ("periodic", "periodic", "dual"),
}


def coord_range(bound, d):
    return {"primal": range(0, 2 * d - 1), "dual": range(1, 2 * d), "periodic": range(0, 2 * d)}[bound]


def step(point, axis, sign, dims, bounds):
    """Neighbouring lattice position, or None when it lies outside the lattice."""
    q = list(point)
    q[axis] += sign
    if bounds[axis] == "periodic":
        q[axis] %= 2 * dims[axis]
    if q[axis] not in coord_range(bounds[axis], dims[axis]):
        return None
    return tuple(q)


def lattice(dims, bounds):
    """(nodes: point -> 'primal'/'dual', edges: frozenset pair -> is_wraparound)."""
    nodes, edges = {}, {}
    for p in it.product(*[coord_range(b, d) for b, d in zip(bounds, dims)]):
        odd = sum(c % 2 for c in p)
        if odd == 2:
            nodes[p] = "primal"
        elif odd == 1:
            nodes[p] = "dual"
    for p, typ in nodes.items():
        if typ != "primal":
            continue
        for ax in range(3):
            if p[ax] % 2:
                for s in (1, -1):
                    q = step(p, ax, s, dims, bounds)
                    if q is not None:
                        edges[frozenset((p, q))] = abs(q[ax] - p[ax]) != 1
    return nodes, edges


def stabilizers(dims, bounds, ec):
    """cell centre -> frozenset of the qubits on its faces."""
    par = 1 if ec == "primal" else 0
    out = {}
    for c in it.product(*[[x for x in coord_range(b, d) if x % 2 == par] for b, d in zip(bounds, dims)]):
        faces = {step(c, ax, s, dims, bounds) for ax in range(3) for s in (1, -1)}
        faces.discard(None)
        out[c] = frozenset(faces)
    return out


class RefCode:
    """Reference view of SurfaceCode(distance, ec, boundaries)."""

    def __init__(self, dims, ec, boundaries):
        self.dims = (dims,) * 3 if isinstance(dims, int) else tuple(dims)
        self.ec, self.boundaries = ec, boundaries
        self.bounds = CODE_BOUNDS[(ec, boundaries)]
        self.nodes, self.edges = lattice(self.dims, self.bounds)
        self.stabs = stabilizers(self.dims, self.bounds, ec)
        self.qubits = sorted({q for s in self.stabs.values() for q in s})
        self.index = {q: i for i, q in enumerate(self.qubits)}
        self.cells = sorted(self.stabs)
        self.cell_index = {c: i for i, c in enumerate(self.cells)}
        self.of_qubit = {q: [] for q in self.qubits}
        for c in self.cells:
            for q in self.stabs[c]:
                self.of_qubit[q].append(c)
        self.adj = {p: [] for p in self.nodes}
        for e in self.edges:
            a, b = tuple(e)
            self.adj[a].append(b)
            self.adj[b].append(a)
        # logically relevant axes
        if boundaries == "open":
            self.axes = (0,) if ec == "primal" else (1,)
        elif boundaries == "toric":
            self.axes = (0, 1)
        else:
            self.axes = (0, 1, 2)
        self.distance = min(self.dims[a] for a in self.axes)

    def side(self, qubit):
        """'low' or 'high' terminal for a boundary qubit of an open code."""
        ax = self.axes[0]
        r = coord_range(self.bounds[ax], self.dims[ax])
        return "low" if qubit[ax] == r[0] else "high" if qubit[ax] == r[-1] else None

    def boundary_qubits(self):
        return [q for q in self.qubits if len(self.of_qubit[q]) == 1]

    def syndrome(self, flips):
        """Set of violated cells for a set of flipped qubits."""
        odd = set()
        for q in flips:
            if q in self.of_qubit:
                for c in self.of_qubit[q]:
                    odd ^= {c}
        return odd

    # ---- homology
    def trivial_cycles(self):
        """Flip patterns on syndrome qubits that act trivially: neighbourhoods of the other vertices."""
        out = []
        for u in self.nodes:
            if u not in self.index:
                v = frozenset(q for q in self.adj[u] if q in self.index)
                if v:
                    out.append(v)
        return out

    def logical_lines(self):
        """One straight logical string per relevant axis (a set of qubits, one per plane)."""
        out = {}
        for ax in self.axes:
            start = self.cells[0]
            line = set()
            if self.boundaries == "open":
                r = coord_range(self.bounds[ax], self.dims[ax])
                par = 0 if self.ec == "primal" else 1
                for x in r:
                    if x % 2 == par:
                        q = list(start)
                        q[ax] = x
                        line.add(tuple(q))
            else:
                par = 0 if self.ec == "primal" else 1
                for x in range(2 * self.dims[ax]):
                    if x % 2 == par:
                        q = list(start)
                        q[ax] = x
                        line.add(tuple(q))
            out[ax] = frozenset(line)
        return out

    def mask(self, flips):
        m = 0
        for q in flips:
            i = self.index.get(q)
            if i is not None:
                m ^= 1 << i
        return m

    def trivial_span(self):
        if not hasattr(self, "_span"):
            self._span = Span()
            for v in self.trivial_cycles():
                self._span.add(self.mask(v))
        return self._span

    def is_trivial(self, flips):
        """The flips (syndrome-free) are a product of trivial cycles."""
        return self.trivial_span().contains(self.mask(flips))

    # ---- matching graph geometry
    def dijkstra(self, weight, sources, through_boundary=False):
        """Least total weight from any of the source cells to every cell and to the boundary."""
        dist = {c: 0 for c in sources}
        heap = [(0, self.cell_index[c]) for c in sources]
        best_boundary = None
        done = set()
        while heap:
            d, i = heapq.heappop(heap)
            if i in done:
                continue
            done.add(i)
            c = self.cells[i]
            for q in self.stabs[c]:
                w = weight(q)
                other = [x for x in self.of_qubit[q] if x != c]
                if not other:
                    if best_boundary is None or d + w < best_boundary:
                        best_boundary = d + w
                    continue
                o = other[0]
                if o not in dist or d + w < dist[o]:
                    dist[o] = d + w
                    heapq.heappush(heap, (d + w, self.cell_index[o]))
        return dist, best_boundary


_cache = {}


def refcode(dims, ec, boundaries):
    dims = (dims,) * 3 if isinstance(dims, int) else tuple(dims)
    key = (dims, ec, boundaries)
    if key not in _cache:
        if len(_cache) > 200:
            _cache.clear()
        _cache[key] = RefCode(dims, ec, boundaries)
    return _cache[key]


class Span:
    """Incremental GF(2) span of integers used as bit vectors."""

    def __init__(self):
        self.rows = {}

    def reduce(self, v):
        while v:
            h = v.bit_length() - 1
            r = self.rows.get(h)
            if r is None:
                return v
            v ^= r
        return 0

    def add(self, v):
        v = self.reduce(v)
        if v:
            self.rows[v.bit_length() - 1] = v
            return True
        return False

    def contains(self, v):
        return self.reduce(v) == 0

    @property
    def rank(self):
        return len(self.rows)


def min_weight_perfect_matching(cost):
    """Exact minimum total cost of a perfect matching of a symmetric cost matrix (None = no edge).

    Bitmask dynamic programming; for at most ~16 vertices.
    """
    n = len(cost)
    if n % 2:
        return None
    INF = None
    best = [INF] * (1 << n)
    best[0] = 0
    for m in range(1 << n):
        b = best[m]
        if b is None:
            continue
        i = 0
        while i < n and m >> i & 1:
            i += 1
        if i == n:
            continue
        for j in range(i + 1, n):
            if not m >> j & 1 and cost[i][j] is not None:
                k = m | 1 << i | 1 << j
                c = b + cost[i][j]
                if best[k] is None or c < best[k]:
                    best[k] = c
    return best[(1 << n) - 1]


def min_tjoin(n, pair_cost, bound_cost):
    """Minimum cost to pair up n defects with each other or with the boundary (bitmask DP)."""
    best = [None] * (1 << n)
    best[0] = 0
    for m in range(1 << n):
        b = best[m]
        if b is None:
            continue
        i = 0
        while i < n and m >> i & 1:
            i += 1
        if i == n:
            continue
        if bound_cost[i] is not None:
            k = m | 1 << i
            c = b + bound_cost[i]
            if best[k] is None or c < best[k]:
                best[k] = c
        for j in range(i + 1, n):
            if not m >> j & 1 and pair_cost[i][j] is not None:
                k = m | 1 << i | 1 << j
                c = b + pair_cost[i][j]
                if best[k] is None or c < best[k]:
                    best[k] = c
    return best[(1 << n) - 1]
