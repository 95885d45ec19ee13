"""C14: graph states stay consistent through any edit history."""
import numpy as np
import scipy.sparse

from ..core import Violation, digest
from ..image import Image
from ..runner import Check
from ..seams import Solo

OPS = (["add"] * 5 + ["remove"] * 5 + ["index"] * 2 + ["adj"] * 4 + ["bad_add"] * 3 + ["bad_remove"] * 2
       + ["macronize", "failing_adj", "slice"])


class Model:
    """Independent reference: what the accepted operations amount to."""

    def __init__(self, nodes, edges, macro=None):
        self.nodes = dict(nodes)
        self.edges = dict(edges)  # frozenset of two nodes -> weight
        self.macro = macro  # None, or macronode -> set of micronodes
        self.index = None

    def drop(self, q):
        del self.nodes[q]
        self.edges = {e: w for e, w in self.edges.items() if q not in e}
        if self.index is not None:
            del self.index[q]
        if self.macro is not None:
            for k in [k for k, m in self.macro.items() if q in m]:
                self.macro[k].discard(q)
                if not self.macro[k]:
                    del self.macro[k]


class C14(Check):
    id = "C14"
    runs = {"quick": 6000, "thorough": 400000}
    budget = {"quick": 150, "thorough": 2400}
    rule = "digest of the initial graph and the history; nontrivial if the history has an accepted edit and a generation"
    real = ["flamingpy.codes.graphs.EGraph", "flamingpy.codes.graphs.macronize"]
    stubs = []
    assumptions = ["nodes are edited through the methods of EGraph, not through the networkx base class",
                   "integer edge weights that fit the matrix type", "adjacency matrices of the empty graph are not asked for",
                   "macronized graphs have no isolated qubits and no two neighbours in the same direction"]
    expected_probes = ["start_plain", "start_macro", "start_code", "start_code_macro", "add_after_index",
                       "remove_after_index", "removed_highest_index", "removed_lowest_index", "dense_after_sparse",
                       "sparse_after_dense", "macronode_emptied", "macronode_created", "outside_macronode",
                       "emptied_graph", "index_neighbors", "rejected_add", "rejected_remove", "macronized",
                       "default_position", "re_added", "failing_allocation", "long_history"]

    def generate(self, rng, tier, idx):
        start = rng.choice(["plain", "plain", "macro", "macro", "code", "code_macro"])
        g = {"seed": rng.getrandbits(30), "n": rng.choice([1, 2, 3, 4, 6, 9]), "p": rng.choice([0.2, 0.5, 0.9]),
             "weights": rng.random() < 0.4, "float": rng.random() < 0.2,
             "dims": rng.choice([[1, 1, 1], [2, 1, 1], [2, 2, 1]]), "bound": rng.choice(["open", "toric", "periodic"])}
        n = rng.randint(1, 40 if tier == "thorough" else 22)
        if idx % 50 == 9:
            # a long history, on graphs of more qubits
            n, g["n"], g["p"] = rng.randint(60, 160), rng.choice([9, 20, 40]), rng.choice([0.05, 0.2])
        return {"start": start, "g": g, "ops": [[rng.choice(OPS), rng.getrandbits(30)] for _ in range(n)]}

    def execute(self, sc, run):
        import random

        with Solo(image=Image()) as proc:
            mod = proc.image.get("flamingpy.codes.graphs.egraph")
            G, m = self.start(mod, proc.image.get("flamingpy.codes.surface_code"), sc, run)
            self.compare(G, m, "start")
            edits = gens = 0
            others = []
            for k, (op, seed) in enumerate(sc["ops"]):
                r = random.Random(seed)
                what = getattr(self, "op_" + op)(G, m, r, run, mod, others)
                run.log.add(k, op, what)
                edits += op in ("add", "remove")
                gens += op in ("index", "adj", "failing_adj")
                self.compare(G, m, f"step {k} ({op} {what})")
            for H, n, at in others:
                self.compare(H, n, f"graph macronized at {at}, after the edits of the original")
            # whatever the history, both formats of the matrix are right in the end
            for fmt in (True, False):
                self.matrix(G, m, fmt, run)
            self.compare(G, m, "end")
        run.nontrivial = bool(edits and gens)
        if len(sc["ops"]) > 59:
            run.probe("long_history")
        run.signature = digest(sc)
        run.sample = {"start": sc["start"], "ops": [o for o, _ in sc["ops"]]}

    # ------------------------------------------------------------------------- start
    def start(self, mod, surface, sc, run):
        import random

        import networkx as nx

        r = random.Random(sc["g"]["seed"])
        kind = sc["start"]
        run.probe("start_" + kind)
        if kind in ("plain", "macro"):
            g = nx.Graph()
            while len(g) < sc["g"]["n"]:
                p = tuple(r.randint(-2, 4) for _ in range(3))
                if sc["g"]["float"] and kind == "plain":
                    p = tuple(x + r.choice([0, 0.25, 0.5]) for x in p)
                g.add_node(p, label=r.randint(0, 9))
            nodes = list(g)
            for i, a in enumerate(nodes):
                for b in nodes[:i]:
                    if r.random() < sc["g"]["p"]:
                        g.add_edge(a, b, **({"weight": r.choice([-1, 1, 2, 3])} if sc["g"]["weights"] else {}))
            if kind == "macro":
                for v in list(g):
                    if crowded(v, g[v]):
                        g.remove_edges_from([(v, w) for w in list(g[v])[1:]])
                for v in list(g):
                    if not len(g[v]):
                        g.remove_node(v)
        else:
            b = {"open": "open_primal", "toric": "periodic_primal"}.get(sc["g"]["bound"], sc["g"]["bound"])
            lo = {"open": (2, 1, 2), "toric": (3, 3, 2), "periodic": (3, 3, 3)}[sc["g"]["bound"]]
            dims = [max(x, y) for x, y in zip(sc["g"]["dims"], lo)]
            g = surface.RHG_graph(np.array(dims), b)
            if kind == "code_macro":
                kind = "macro"
        if kind == "macro":
            G = mod.EGraph(g).macronize()
            m = self.macro_model(g, G)
        else:
            G = mod.EGraph(g)
            m = Model({v: dict(d) for v, d in g.nodes.data()},
                      {frozenset(e[:2]): e[2].get("weight", 1) for e in g.edges.data()})
        return G, m

    def macro_model(self, g, G):
        """What macronizing g must give: one dumbbell per edge, grouped by qubit."""
        macro = {}
        for v, d in G.nodes.data():
            macro.setdefault(tuple(int(round(x)) for x in v), set()).add(v)
        want = {v: len(g[v]) for v in g if len(g[v])}
        got = {c: len(x) for c, x in macro.items()}
        if want != got:
            raise Violation("macronize", f"macronode sizes {got}, expected {want}")
        edges = {}
        seen = []
        for a, b, d in G.edges.data():
            ca, cb = (tuple(int(round(x)) for x in v) for v in (a, b))
            seen.append(frozenset((ca, cb)))
            if not g.has_edge(ca, cb):
                raise Violation("macronize", f"edge {a} - {b} joins macronodes of qubits that are not connected")
            if d != g.edges[ca, cb]:
                raise Violation("macronize", f"edge {a} - {b} has {d} instead of {g.edges[ca, cb]}")
            edges[frozenset((a, b))] = d.get("weight", 1)
        if len(seen) != len(set(seen)) or len(seen) != g.number_of_edges() or len(edges) * 2 != len(G):
            raise Violation("macronize", f"{len(seen)} edges between {len(set(seen))} pairs of macronodes for "
                            f"{g.number_of_edges()} edges")
        for v, d in G.nodes.data():
            c = tuple(int(round(x)) for x in v)
            if d != g.nodes[c]:
                raise Violation("macronize", f"micronode {v} has {d} instead of {g.nodes[c]}")
        return Model({v: dict(d) for v, d in G.nodes.data()}, edges, macro)

    # ------------------------------------------------------------------------- comparison
    def compare(self, G, m, where):
        nodes = {v: dict(d) for v, d in G.nodes.data()}
        if nodes != m.nodes:
            extra, miss = set(nodes) - set(m.nodes), set(m.nodes) - set(nodes)
            raise Violation("qubits", f"{where}: unexpected {sorted(extra)[:3]}, missing {sorted(miss)[:3]}, or "
                            "different attributes")
        edges = {frozenset(e[:2]): e[2].get("weight", 1) for e in G.edges.data()}
        if edges != m.edges:
            raise Violation("edges", f"{where}: unexpected {list(edges.items() - m.edges.items())[:3]}, missing "
                            f"{list(m.edges.items() - edges.items())[:3]}")
        if m.macro is None:
            if G.macro_to_micro is not None:
                raise Violation("macro-map", f"{where}: plain graph with a macronode map")
        else:
            got = G.macro_to_micro
            if got is None or {k: sorted(v) for k, v in got.items()} != {k: sorted(v) for k, v in m.macro.items()}:
                d = {k: v for k, v in (got or {}).items() if sorted(v) != sorted(m.macro.get(k, ()))}
                raise Violation("macro-map", f"{where}: {d or sorted(set(m.macro) - set(got or {}))} against "
                                f"{ {k: m.macro.get(k) for k in d} }")
        if m.index is None:
            if G.to_indices is not None or G.to_points is not None:
                self.adopt(G, m, where)
            return
        if G.to_indices is None or G.to_points is None:
            raise Violation("index-maps", f"{where}: the index maps are gone")
        if dict(G.to_indices) != m.index:
            bad = [(k, m.index.get(k), G.to_indices.get(k)) for k in {**m.index, **G.to_indices}
                   if m.index.get(k, "none") != G.to_indices.get(k, "none")]
            raise Violation("index-maps", f"{where}: (qubit, expected, index) {bad[:4]}")
        if dict(G.to_points) != {i: v for v, i in m.index.items()}:
            raise Violation("index-maps", f"{where}: to_points is not the inverse of to_indices")

    def adopt(self, G, m, where):
        """Indices generated since the last step: a numbering of the present qubits in the
        documented order."""
        ind = G.to_indices
        if ind is None or set(ind) != set(m.nodes) or sorted(ind.values()) != list(range(len(m.nodes))):
            raise Violation("index-maps", f"{where}: generated indices {ind} are not a numbering of the qubits")
        if G.to_points != {i: v for v, i in ind.items()}:
            raise Violation("index-maps", f"{where}: to_points is not the inverse of to_indices")
        order = sorted(ind, key=ind.get)
        if m.macro is None:
            if order != sorted(order):
                raise Violation("index-order", f"{where}: qubits are not numbered in sorted order")
        else:
            home = {v: c for c, x in m.macro.items() for v in x}
            seq = [home[v] for v in order if v in home]
            if seq != sorted(seq):
                raise Violation("index-order", f"{where}: macronodes are not numbered in sorted order")
        m.index = dict(ind)

    def matrix(self, G, m, sparse, run):
        if not m.nodes:
            return  # networkx has no sparse matrix of the empty graph
        A = G.adj_generator(sparse=sparse)
        if m.index is None:
            self.adopt(G, m, "adjacency matrix")
        if sparse != scipy.sparse.issparse(A) or (not sparse and not isinstance(A, np.ndarray)):
            raise Violation("matrix-format", f"{type(A).__name__} for sparse={sparse}")
        D = A.toarray() if sparse else A
        order = sorted(m.index, key=m.index.get)
        want = np.zeros((len(order),) * 2, dtype=int)
        pos = {v: i for i, v in enumerate(order)}
        for e, w in m.edges.items():
            a, b = (tuple(e) * 2)[:2]
            want[pos[a], pos[b]] = want[pos[b], pos[a]] = w
        if D.shape != want.shape or (np.asarray(D, dtype=int) != want).any():
            raise Violation("matrix", f"sparse={sparse}: {D.shape} matrix differs from the edges of "
                            f"{len(order)} qubits at {np.argwhere(np.asarray(D, dtype=int) != want)[:3].tolist() if D.shape == want.shape else ''}")
        if G.adj_mat is not A:
            raise Violation("matrix", "adj_mat is not the matrix that was returned")
        last = getattr(m, "last", None)
        if last is not None and last != sparse:
            run.probe("dense_after_sparse" if last else "sparse_after_dense")
        m.last = sparse

    # ------------------------------------------------------------------------- operations
    def position(self, m, r, run):
        x = r.random()
        gone = getattr(m, "gone", [])
        if x < 0.15 and m.nodes:
            run.probe("default_position")
            return None
        if x < 0.3 and gone:
            q = r.choice(gone)
            if q not in m.nodes:
                run.probe("re_added")
                return q
        for _ in range(50):
            q = tuple(r.randint(-2, 6) for _ in range(3))
            if m.macro is not None and r.random() < 0.7:
                base = r.choice(sorted(m.macro)) if m.macro and r.random() < 0.7 else q
                q = tuple(round(b + r.choice([0, 0.1, -0.1, 0.2, 0.3, -0.4]), 3) for b in base)
            if q not in m.nodes:
                return q
        return (r.randint(100, 10**6), 0, 0)

    def op_add(self, G, m, r, run, mod, others):
        q = self.position(m, r, run)
        want = q or (max(v[0] for v in m.nodes) + 1, 0, 0)
        kw = {}
        near = r.sample(sorted(m.nodes), min(len(m.nodes), r.choice([0, 1, 1, 2, 3])))
        form = r.choice(["none", "points", "points", "indices"])
        if form == "points":
            kw["neighbors"] = list(near)
        elif form == "indices" and near:
            ind = m.index
            if ind is None:
                G.index_generator()
                self.adopt(G, m, "index_generator")
                ind = m.index
            kw["neighbors"] = [ind[v] for v in near]
            run.probe("index_neighbors")
        else:
            near = []
        into = m.macro is not None and r.random() < 0.6
        if into:
            kw["add_to_macronode"] = True
        elif r.random() < 0.3:
            kw["add_to_macronode"] = False
        if m.macro is not None and not into:
            run.probe("outside_macronode")
        if q is not None or r.random() < 0.5:
            kw["qubit"] = q
        ret = G.add_qubit(**kw)
        m.nodes[want] = {}
        for v in near:
            m.edges[frozenset((v, want))] = 1
        if into:
            c = tuple(round(x) for x in want)
            if c not in m.macro:
                run.probe("macronode_created")
            m.macro.setdefault(c, set()).add(want)
        if m.index is not None:
            run.probe("add_after_index")
            i = (G.to_indices or {}).get(want)
            if not isinstance(i, int) or i < 0 or i in m.index.values():
                raise Violation("index-maps", f"new qubit {want} has the index {i}")
            m.index[want] = i
        return f"{want} to {near} {'in macronode' if into else ''} -> {ret}"

    def op_remove(self, G, m, r, run, mod, others):
        if not m.nodes:
            return "nothing left"
        q = r.choice(sorted(m.nodes))
        if m.index is not None:
            run.probe("remove_after_index")
            x = r.random()
            if x < 0.2:
                q = max(m.index, key=m.index.get)
            elif x < 0.4:
                q = min(m.index, key=m.index.get)
            if m.index[q] == max(m.index.values()):
                run.probe("removed_highest_index")
            if m.index[q] == min(m.index.values()):
                run.probe("removed_lowest_index")
        by_index = m.index is not None and r.random() < 0.5
        before = len(m.macro or ())
        G.remove_qubit(m.index[q] if by_index else q)
        m.drop(q)
        m.gone = getattr(m, "gone", []) + [q]
        if m.macro is not None and len(m.macro) < before:
            run.probe("macronode_emptied")
        if not m.nodes:
            run.probe("emptied_graph")
        return f"{q} by {'index' if by_index else 'position'}"

    def op_index(self, G, m, r, run, mod, others):
        ind = G.index_generator()
        if m.index is None:
            self.adopt(G, m, "index_generator")
        if dict(ind) != m.index:
            raise Violation("index-maps", f"index_generator returned {ind}")
        return ""

    def op_adj(self, G, m, r, run, mod, others):
        sparse = r.random() < 0.5
        self.matrix(G, m, sparse, run)
        return f"sparse={sparse}"

    def op_failing_adj(self, G, m, r, run, mod, others):
        """The allocation of the matrix fails; the graph state is still fine afterwards."""
        nx = mod.nx
        sparse = r.random() < 0.5
        saved = nx.to_numpy_array, nx.to_scipy_sparse_array
        fired = []

        def fail(*a, **k):
            fired.append(1)
            raise MemoryError("injected: cannot allocate the matrix")

        nx.to_numpy_array = nx.to_scipy_sparse_array = fail
        try:
            G.adj_generator(sparse=sparse)
        except MemoryError:
            pass
        finally:
            nx.to_numpy_array, nx.to_scipy_sparse_array = saved
        if fired:
            run.fault("failing_allocation")
            run.probe("failing_allocation")
        if m.index is None and G.to_indices is not None:
            self.adopt(G, m, "adj_generator")
        self.matrix(G, m, r.random() < 0.5, run)
        return f"sparse={sparse}"

    def op_slice(self, G, m, r, run, mod, others):
        if not m.nodes:
            return ""
        ax = r.randrange(3)
        at = r.choice(sorted(m.nodes))[ax]
        got = G.slice_coords("xyz"[ax], at)
        if sorted(got) != sorted(v for v in m.nodes if v[ax] == at):
            raise Violation("slice", f"{'xyz'[ax]} = {at}: {sorted(got)}")
        return f"{'xyz'[ax]}={at}"

    def op_macronize(self, G, m, r, run, mod, others):
        if m.macro is not None or not m.edges or any(x != int(x) for v in m.nodes for x in v) or len(others) > 1:
            return "skipped"
        if len({v for e in m.edges for v in e}) < len(m.nodes):
            return "skipped"
        near = {}
        for e in m.edges:
            a, b = tuple(e)
            near.setdefault(a, []).append(b)
            near.setdefault(b, []).append(a)
        if any(crowded(v, x) for v, x in near.items()):
            return "skipped"
        H = G.macronize()
        n = self.macro_model(G, H)
        run.probe("macronized")
        # an edit of the macronode graph does not reach the original, and the other way round
        others.append((H, n, len(run.log.events)))
        self.op_add(H, n, r, run, mod, others)
        self.compare(H, n, "macronode graph after an edit")
        return f"{len(H)} micronodes"

    def op_bad_add(self, G, m, r, run, mod, others):
        some = sorted(m.nodes)
        absent = (r.randint(1000, 2000), 0, 0)
        fresh = (r.randint(3000, 4000), 1, 1)
        top = max(m.index.values(), default=-1) if m.index is not None else len(m.nodes)
        bad = [dict(qubit=(1, 2)), dict(qubit=(1, 2, 3, 4)), dict(qubit=[7, 7, 7]), dict(qubit="qubit"),
               dict(qubit=3), dict(qubit=fresh, neighbors=[absent]), dict(qubit=fresh, neighbors=[[0, 0, 0]]),
               dict(qubit=fresh, neighbors=["a"]), dict(qubit=fresh, neighbors=[top + 5]),
               dict(qubit=fresh, neighbors=[0.5])]
        if some:
            v = r.choice(some)
            bad += [dict(qubit=v), dict(qubit=v, neighbors=[some[0]]), dict(qubit=fresh, neighbors=[v, absent]),
                    dict(neighbors=[v, absent]), dict(qubit=fresh, neighbors=[v, 10**6])]
            if m.index is not None:
                bad += [dict(qubit=fresh, neighbors=[m.index[v], top + 1]), dict(neighbors=[top + 1])]
        gone = [i for i in range(top) if m.index is not None and i not in m.index.values()]
        if gone:
            bad.append(dict(qubit=fresh, neighbors=[r.choice(gone)]))
        if m.macro is None:
            bad.append(dict(qubit=fresh, add_to_macronode=True))
        else:
            bad.append(dict(qubit=fresh, neighbors=[absent], add_to_macronode=True))
            if some:
                bad.append(dict(qubit=r.choice(some), add_to_macronode=True))
        kw = r.choice(bad)
        try:
            G.add_qubit(**kw)
        except Exception as e:
            run.fault("rejected_operation")
            run.probe("rejected_add")
            return f"{kw} -> {type(e).__name__}"
        raise Violation("accepted", f"add_qubit({kw})")

    def op_bad_remove(self, G, m, r, run, mod, others):
        bad = [(1000, 1, 1), "qubit", 0.5, [0, 0, 0], (0, 0)]
        if m.index is None:
            bad.append(0)
        else:
            bad += [max(m.index.values(), default=-1) + 1, -1]
            gone = [q for q in getattr(m, "gone", []) if q not in m.nodes]
            if gone:
                bad.append(r.choice(gone))
        q = r.choice(bad)
        try:
            G.remove_qubit(q)
        except Exception as e:
            run.fault("rejected_operation")
            run.probe("rejected_remove")
            return f"{q} -> {type(e).__name__}"
        raise Violation("accepted", f"remove_qubit({q!r})")

    def shrink(self, sc):
        ops = sc["ops"]
        n = len(ops)
        step = max(1, n // 2)
        while step:
            for i in range(0, n, step):
                if len(ops[:i] + ops[i + step:]) < n:
                    yield {**sc, "ops": ops[:i] + ops[i + step:]}
            step //= 2
        g = sc["g"]
        if g["n"] > 1:
            yield {**sc, "g": {**g, "n": g["n"] - 1}}
        for s in ("plain", "macro"):
            if sc["start"].startswith("code"):
                yield {**sc, "start": s}
        if g["weights"]:
            yield {**sc, "g": {**g, "weights": False}}


def crowded(v, near):
    """Two neighbours lie in about the same direction, where micronodes would coincide."""
    u = [np.subtract(w, v) / np.linalg.norm(np.subtract(w, v)) for w in near]
    return any(np.linalg.norm(a - b) < 0.05 for i, a in enumerate(u) for b in u[:i])


CHECK = C14()
