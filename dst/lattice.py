"""Independent model of the RHG lattice of the surface code (no code shared with flamingpy).

Coordinates are integers; primal qubits have two odd coordinates, dual qubits two even ones.
Along an axis of extent d the allowed coordinates are 0..2d-2 (primal boundary), 1..2d-1 (dual
boundary) or Z_{2d} (periodic).  A primal (dual) stabilizer sits on every all-odd (all-even)
allowed centre and contains the allowed ones of its six neighbours."""
import functools
import itertools as it

INF = float("inf")


def axes_of(ec, boundaries):
    if boundaries == "open":
        return ("primal", "dual", "dual") if ec == "primal" else ("primal", "dual", "primal")
    if boundaries == "toric":
        return ("periodic", "periodic", "dual" if ec == "primal" else "primal")
    return ("periodic",) * 3


class Lattice:
    def __init__(self, dims, ec, boundaries):
        self.dims, self.ec, self.boundaries = tuple(dims), ec, boundaries
        self.axes = axes_of(ec, boundaries)
        odd = ec == "primal"
        centres = []
        for a in range(3):
            centres.append([c for c in self._coords(a) if c % 2 == (1 if odd else 0)])
        self.centres = list(it.product(*centres))
        qs = set()
        stabs = []
        for c in self.centres:
            s = set()
            for a in range(3):
                for d in (-1, 1):
                    v = c[a] + d
                    if self.axes[a] == "periodic":
                        v %= 2 * self.dims[a]
                    elif v not in self._coords(a):
                        continue
                    q = list(c)
                    q[a] = v
                    s.add(tuple(q))
            stabs.append(frozenset(s))
            qs |= s
        self.qubits = sorted(qs)
        self.idx = {q: i for i, q in enumerate(self.qubits)}
        self.stabs = [sorted(self.idx[q] for q in s) for s in stabs]
        self.stab_at = {c: i for i, c in enumerate(self.centres)}
        self.qstabs = [[] for _ in self.qubits]
        for i, s in enumerate(self.stabs):
            for q in s:
                self.qstabs[q].append(i)
        self.n = len(self.qubits)

    def _coords(self, a):
        d = self.dims[a]
        return {"primal": range(0, 2 * d - 1), "dual": range(1, 2 * d), "periodic": range(2 * d)}[self.axes[a]]

    # directions in which a logical error crosses a correlation surface
    @property
    def crossing(self):
        if self.boundaries == "open":
            return [0] if self.ec == "primal" else [1]
        if self.boundaries == "toric":
            return [0, 1]
        return [0, 1, 2]

    @property
    def distance(self):
        return min(self.dims[a] for a in self.crossing)

    def syndrome(self, flips):
        """Set of odd stabilizers for a set of flipped qubit indices."""
        odd = set()
        for q in flips:
            for s in self.qstabs[q]:
                odd ^= {s}
        return odd

    def plane(self, a, k):
        """k-th correlation surface perpendicular to axis a."""
        v = 2 * k + (0 if self.ec == "primal" else 1)
        return [i for i, q in enumerate(self.qubits) if q[a] == v]

    @functools.lru_cache(maxsize=None)
    def surfaces(self):
        return {a: [self.plane(a, k) for k in range(self.dims[a])] for a in self.crossing}

    def logical_parities(self, flips):
        """For each relevant axis the parities over all parallel surfaces."""
        f = set(flips)
        return {a: [len(f & set(p)) % 2 for p in ps] for a, ps in self.surfaces().items()}

    def success(self, flips):
        """No logical error (for an even-syndrome set of flips)."""
        return not any(any(v) for v in self.logical_parities(flips).values())

    def logical_line(self, a, at=None):
        """A shortest logical operator along axis a."""
        v0 = 0 if self.ec == "primal" else 1
        lines = {}
        for i, q in enumerate(self.qubits):
            if q[a] % 2 == v0:
                lines.setdefault(tuple(c for k, c in enumerate(q) if k != a), []).append(i)
        full = sorted(v for v in lines.values() if len(v) == self.dims[a])
        return full[(at or 0) % len(full)]

    def loop(self, rng, size):
        """A product of local stabilizer-group elements of the other complex (trivial loop)."""
        out = set()
        for _ in range(size):
            out ^= set(self.elementary_loop(rng))
        return out

    def elementary_loop(self, rng):
        """Smallest closed loop or boundary-to-boundary hook around a random dual edge."""
        for _ in range(50):
            q = rng.randrange(self.n)
            s = self.qstabs[q]
            # four-cycles in the stabilizer graph through q
            if not s:
                continue
            a = s[0]
            paths = {}
            for q1 in self.stabs[a]:
                for b in self.qstabs[q1]:
                    if b == a:
                        continue
                    for q2 in self.stabs[b]:
                        for c in self.qstabs[q2]:
                            if c not in (a, b):
                                paths.setdefault(c, []).append((q1, q2))
            opts = []
            for c, ps in sorted(paths.items()):
                for p1, p2 in it.combinations(sorted(set(ps)), 2):
                    f = set(p1) ^ set(p2)
                    if len(f) == 4 and not self.syndrome(f) and self.success(f):
                        opts.append(sorted(f))
            if opts:
                return opts[rng.randrange(len(opts))]
        return []

    # --------------------------------------------------------------- weights and optimum
    def distances(self, weights):
        """All-pairs and boundary distances between stabilizers for non-negative weights."""
        import heapq

        n = len(self.stabs)
        adj = [[] for _ in range(n)]
        bnd = [INF] * n
        for q, ss in enumerate(self.qstabs):
            w = weights[q]
            if len(ss) == 2:
                adj[ss[0]].append((ss[1], w))
                adj[ss[1]].append((ss[0], w))
            elif len(ss) == 1:
                bnd[ss[0]] = min(bnd[ss[0]], w)

        def dij(srcs):
            dist = dict(srcs)
            heap = [(d, s) for s, d in srcs.items()]
            heapq.heapify(heap)
            while heap:
                d, u = heapq.heappop(heap)
                if d > dist[u]:
                    continue
                for v, w in adj[u]:
                    if d + w < dist.get(v, INF):
                        dist[v] = d + w
                        heapq.heappush(heap, (d + w, v))
            return dist

        bd = dij({s: w for s, w in enumerate(bnd) if w < INF}) if self.boundaries == "open" else {}
        return dij, bd

    def optimum(self, odd, weights, cap=16):
        """Minimum total weight of a flip set with this syndrome (exact, by subset DP)."""
        odd = sorted(odd)
        n = len(odd)
        if n > cap:
            return None
        if n == 0:
            return 0
        dij, bd = self.distances(weights)
        d = [dij({s: 0}) for s in odd]
        w = [[d[i].get(odd[j], INF) for j in range(n)] for i in range(n)]
        b = [bd.get(s, INF) for s in odd]

        @functools.lru_cache(maxsize=None)
        def f(mask):
            if not mask:
                return 0
            i = (mask & -mask).bit_length() - 1
            rest = mask & ~(1 << i)
            best = b[i] + f(rest) if b[i] < INF else INF
            m = rest
            while m:
                j = (m & -m).bit_length() - 1
                m &= m - 1
                if w[i][j] < INF:
                    best = min(best, w[i][j] + f(rest & ~(1 << j)))
            return best

        return f((1 << n) - 1)


@functools.lru_cache(maxsize=64)
def lattice(dims, ec, boundaries):
    return Lattice(dims, ec, boundaries)


def graph_edges(dims, ec, boundaries):
    """Edges of the graph state: every primal qubit with its four dual neighbours."""
    ax = axes_of(ec, boundaries)
    allowed = [{"primal": range(0, 2 * d - 1), "dual": range(1, 2 * d), "periodic": range(2 * d)}[t]
               for d, t in zip(dims, ax)]
    edges = set()
    for q in it.product(*allowed):
        if sum(c % 2 for c in q) != 2:
            continue
        for a in range(3):
            if q[a] % 2 == 0:
                continue
            for d in (-1, 1):
                v = q[a] + d
                if ax[a] == "periodic":
                    v %= 2 * dims[a]
                elif v not in allowed[a]:
                    continue
                r = list(q)
                r[a] = v
                edges.add((q, tuple(r)))
    return edges
