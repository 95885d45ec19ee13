"""C23: codes and graph states have the documented structure whatever the process did before."""
import itertools as it
import random

import numpy as np

from .. import pipe
from ..core import Violation, digest
from ..image import Image
from ..inject import Injected, LineTrace
from ..lattice import axes_of
from ..runner import Check
from ..seams import Solo

NAMES = {
    "primal": ("primal",) * 3, "dual": ("dual",) * 3, "periodic": ("periodic",) * 3,
    "open_primal": ("primal", "dual", "primal"), "open_dual": ("primal", "dual", "dual"),
    "periodic_primal": ("periodic", "periodic", "primal"), "periodic_dual": ("periodic", "periodic", "dual"),
}


def rhg_model(dims, axes):
    """Qubits and edges: primal qubits have two odd coordinates, dual ones two even ones, and a
    primal qubit is connected along its odd directions."""
    allowed = [{"primal": range(0, 2 * d - 1), "dual": range(1, 2 * d), "periodic": range(2 * d)}[t]
               for d, t in zip(dims, axes)]
    kinds, edges = {}, {}
    for q in it.product(*allowed):
        odd = sum(c % 2 for c in q)
        if odd in (1, 2):
            kinds[q] = "primal" if odd == 2 else "dual"
        if odd != 2:
            continue
        for a in range(3):
            if q[a] % 2 == 0:
                continue
            for d in (-1, 1):
                v = q[a] + d
                if axes[a] == "periodic":
                    v %= 2 * dims[a]
                elif v not in allowed[a]:
                    continue
                edges[frozenset((q, q[:a] + (v,) + q[a + 1:]))] = a
    return kinds, edges


def alternating(edge, axis):
    """+1 or -1 by a coordinate that is the same at both ends."""
    return (-1) ** next(iter(edge))[(axis + 1) % 3]


def own_weight(k, a, b):
    """The k-th weight function: different for most pairs of points, in any order of the two."""
    return 1 + (sum(a) * 7 + sum(b) * 7 + 13 * a[0] * b[0] + 5 * a[1] * b[1] + (k + 1) * (1 + a[2] * b[2])) % 11


class C23(Check):
    id = "C23"
    runs = {"quick": 12000, "thorough": 400000}
    budget = {"quick": 150, "thorough": 2400}
    rule = ("digest of the history of constructions, uses and aborts; nontrivial if the history has at least two "
            "steps of which one is a construction")
    real = ["flamingpy.codes", "flamingpy.utils.graph_states", "flamingpy.noise and decoders as users of codes"]
    stubs = ["exceptions at executed lines of the package and in user-supplied polarity functions",
             "identity hashes"]
    assumptions = ["open directions have an extent of at least 2 (documented)",
                   "edges of the stabilizer graph are compared for periodic directions of at least 3 (with 2, "
                   "pairs of stabilizers share two qubits)"]
    expected_probes = ["code", "rhg", "graph_state", "rebuilt_after_abort", "failing_polarity", "alternating",
                       "weights", "used_before", "edited_before", "boundaries_list", "boundaries_name", "same_again"]

    def generate(self, rng, tier, idx):
        steps = []
        for _ in range(rng.choice([1, 2, 3, 3, 4, 6])):
            r = rng.random()
            if steps and r < 0.3:
                s = {"op": rng.choice(["trial", "edit", "edit", "attributes", "macronize"]),
                     "of": rng.randrange(len(steps)), "seed": rng.getrandbits(30)}
            elif r < 0.7:
                c = pipe.gen_code(rng, tier, cap=rng.choice([110, 200, 330, 700]))
                if steps and rng.random() < 0.3:
                    old = [x["code"] for x in steps if x["op"] == "code"]
                    c = dict(rng.choice(old)) if old else c
                s = {"op": "code", "code": c}
            elif r < 0.9:
                axes = [rng.choice(["primal", "dual", "periodic"]) for _ in range(3)]
                name = rng.choice(sorted(NAMES))
                how = rng.choice(["name", "array", "array", "list", "tuple"])
                if how == "name":
                    axes = list(NAMES[name])
                while True:
                    dims = [rng.randint(1 if t == "periodic" else 2, rng.choice([3, 5, 9])) for t in axes]
                    if dims[0] * dims[1] * dims[2] <= 100:
                        break
                if rng.random() < 0.3:
                    dims = [rng.choice([2, 3])] * 3
                old = [x for x in steps if x["op"] == "rhg"]
                if old and rng.random() < 0.4:
                    axes, dims, how, name = (old[-1][x] for x in ("axes", "dims", "how", "name"))
                s = {"op": "rhg", "axes": axes, "how": how, "name": name, "dims": dims,
                     "dims_as": rng.choice(["tuple", "list", "array", "int"])}
            else:
                s = {"op": "state", "kind": rng.choice(["star", "complete", "ring", "linear", "bell"]),
                     "n": rng.choice([1, 2, 3, rng.randint(1, 12), rng.randint(1, 30), rng.randint(1, 90)])}
            if s["op"] in ("code", "rhg"):
                s["polarity"] = rng.choice([None, None, "alternating", rng.choice([0, 1, 2])])
                s["fault"] = None
                if rng.random() < 0.3:
                    s["fault"] = rng.choice(["abort", "abort", "polarity"])
                s["frac"] = rng.random()
            steps.append(s)
        return {"steps": steps, "hash": rng.getrandbits(30)}

    def execute(self, sc, run):
        made, edited, hist, kept = {}, set(), [], []
        aborted, earlier = False, []
        with Solo(image=Image(hash_seed=sc["hash"])) as proc:
            img = proc.image
            for k, s in enumerate(sc["steps"]):
                if s["op"] in ("code", "rhg", "state"):
                    if s.get("fault"):
                        where = self.failing(img, s, run)
                        aborted = aborted or bool(where)
                        hist.append((s["op"], s["fault"], where))
                    obj = self.build(img, s)
                    self.check(img, obj, s, f"step {k} after {hist[-5:]}")
                    run.probe({"state": "graph_state"}.get(s["op"], s["op"]))
                    if s["op"] == "rhg":
                        run.probe({"name": "boundaries_name", "list": "boundaries_list"}.get(s["how"], "boundaries"))
                    if aborted:
                        run.probe("rebuilt_after_abort")
                    if edited:
                        run.probe("edited_before")
                    what = {x: s[x] for x in s if x not in ("fault", "frac")}
                    if what in earlier:
                        run.probe("same_again")
                    earlier.append(what)
                    if s.get("polarity") is not None:
                        run.probe("alternating" if s["polarity"] == "alternating" else "weights")
                    made[k] = (obj, s)
                    hist.append((s["op"], str(what)))
                elif s["of"] in made:
                    obj, of = made[s["of"]]
                    graph = obj.graph if of["op"] == "code" else obj
                    r = random.Random(s["seed"])
                    if s["op"] == "trial" and of["op"] == "code":
                        noise = img.get("flamingpy.noise").IidNoise(obj, 0.1)
                        if s["of"] not in edited:
                            dec = {"decoder": r.choice(["MWPM", "UF"]), "w": {}, "d": {}}
                            pipe.trial(img, obj, noise, dec, np.random.default_rng(s["seed"]))
                            run.probe("used_before")
                    elif s["op"] == "attributes":
                        for v in list(graph.nodes)[:: r.randint(1, 3)]:
                            graph.nodes[v]["state"] = "p"
                    elif s["op"] == "macronize" and s["of"] not in edited and not self.crowded(graph, of):
                        kept.append(graph.macronize(r.random() < 0.5 and of["op"] == "code"
                                                    and obj.boundaries[0] != "periodic"))
                    elif s["op"] == "edit":
                        edited.add(s["of"])
                        for _ in range(r.randint(1, 3)):
                            if len(graph) > 1:
                                graph.remove_qubit(r.choice(sorted(graph.nodes)))
                        graph.add_qubit()
                        if r.random() < 0.3:
                            # the user's own lists and dictionaries may change as well
                            graph.graph.clear()
                    hist.append((s["op"], s["of"], s["seed"]))
                run.log.add(k, s["op"], len(hist))
            for k, (obj, s) in made.items():
                if k not in edited:
                    self.check(img, obj, s, f"object of step {k}, in the end")
        run.nontrivial = bool(made) and len(hist) > 1
        run.signature = digest(hist)
        run.sample = {"history": [h[:2] for h in hist]}

    # --------------------------------------------------------------------------- builds
    @staticmethod
    def crowded(graph, of):
        if of["op"] == "state":
            return True
        dims, axes = C23.shape(of)
        return any(t == "periodic" and d < 3 for t, d in zip(axes, dims))

    @staticmethod
    def shape(s):
        if s["op"] == "code":
            d = s["code"]["distance"]
            return ([d] * 3 if isinstance(d, int) else list(d)), axes_of(s["code"]["ec"], s["code"]["boundaries"])
        return s["dims"], tuple(s["axes"])

    def polarity(self, img, s, fail=None):
        if s["polarity"] is None and fail is None:
            return None
        calls, k = [0], s["polarity"] if isinstance(s["polarity"], int) else 0

        def pol(edge):
            calls[0] += 1
            if fail is not None and calls[0] > fail:
                raise Injected("polarity")
            return own_weight(k, *edge)

        if fail is None and s["polarity"] == "alternating":
            return img.get("flamingpy.codes").alternating_polarity
        return pol

    def build(self, img, s, fail=None):
        if s["op"] == "state":
            m = img.get("flamingpy.utils.graph_states")
            if s["kind"] == "bell":
                return m.bell()
            return getattr(m, {"star": "star_graph", "complete": "complete_graph", "ring": "ring_graph",
                               "linear": "linear_cluster"}[s["kind"]])(s["n"])
        pol = self.polarity(img, s, fail)
        if s["op"] == "code":
            return img.get("flamingpy.codes").SurfaceCode(polarity=pol, **pipe.code_args(s["code"]))
        d = s["dims"]
        if s["dims_as"] == "int" and len(set(d)) == 1:
            d = d[0]
        else:
            d = {"array": np.array, "list": list}.get(s["dims_as"], tuple)(d)
        b = s["name"] if s["how"] == "name" else {"array": np.array, "tuple": tuple}.get(s["how"], list)(s["axes"])
        before = str(d), str(b)
        out = img.get("flamingpy.codes.surface_code").RHG_graph(d, b, polarity=pol)
        if before != (str(d), str(b)):
            raise Violation("argument-modified", f"{before} became {d}, {b}")
        return out

    def failing(self, img, s, run):
        """The same construction, which fails half way."""
        fail, trace = None, LineTrace.scripted(s["frac"], 6000)
        if s["fault"] == "polarity":
            fail, trace = int(300 * s["frac"] ** 2), LineTrace(at=-1)
        try:
            if fail is not None:
                self.build(img, s, fail)
            else:
                with trace:
                    self.build(img, s)
        except Injected:
            run.fault("exception_in_polarity" if fail is not None else "exception_in_construction")
            if fail is not None:
                run.probe("failing_polarity")
            return trace.where or "polarity"
        return None

    # --------------------------------------------------------------------------- checks
    def check(self, img, obj, s, where):
        if s["op"] == "state":
            return self.check_state(obj, s, where)
        dims, axes = self.shape(s)
        kinds, edges = rhg_model(dims, axes)
        G = obj.graph if s["op"] == "code" else obj
        diff(set(G.nodes), set(kinds), "qubits", where)
        bad = [(v, G.nodes[v].get("type")) for v, t in kinds.items() if G.nodes[v].get("type") != t]
        if bad:
            raise Violation("qubit-type", f"{where}: {bad[:3]}")
        got = {frozenset(e[:2]): e[2] for e in G.edges.data()}
        diff(set(got), set(edges), "edges", where)
        for e, a in edges.items():
            w = (1 if s["polarity"] is None else alternating(e, a) if s["polarity"] == "alternating"
                 else own_weight(s["polarity"], *e))
            if got[e].get("weight") != w:
                raise Violation("edge-weight", f"{where}: {got[e].get('weight')!r} instead of {w} at {sorted(e)}")
            p, q = e
            if dims[a] > 1 and bool(got[e].get("periodic")) != (abs(p[a] - q[a]) > 1):
                raise Violation("edge-periodic", f"{where}: {got[e]} at {sorted(e)}")
        if s["op"] == "rhg":
            return
        lat = pipe.lattice(s["code"])
        ec = s["code"]["ec"]
        if tuple(obj.dims) != tuple(dims) or list(obj.ec) != [ec] or tuple(obj.boundaries) != axes:
            raise Violation("attributes", f"{where}: {obj.dims} {obj.ec} {obj.boundaries}")
        index = {v: i for i, v in enumerate(sorted(kinds))}
        if G.to_indices != index:
            raise Violation("indices", where)
        for pre in (ec, "all"):
            coords = getattr(obj, pre + "_syndrome_coords")
            diff(set(coords), set(lat.qubits), "syndrome-coords", where)
            if len(coords) != len(lat.qubits):
                raise Violation("syndrome-coords", f"{where}: repeated coordinates")
            diff(set(getattr(obj, pre + "_syndrome_inds")), {index[q] for q in lat.qubits}, "syndrome-inds", where)
        stabs = getattr(obj, ec + "_stabilizers")
        want = sorted(sorted(lat.qubits[i] for i in st) for st in lat.stabs)
        have = sorted(sorted(st.coords()) for st in stabs)
        if have != want:
            bad = [x for x in have if x not in want][:2], [x for x in want if x not in have][:2]
            raise Violation("stabilizers", f"{where}: {len(have)} for {len(want)}; unexpected {bad[0]}, missing {bad[1]}")
        at = {frozenset(lat.qubits[i] for i in st): c for st, c in zip(lat.stabs, lat.centres)}
        for st in stabs:
            c = at[frozenset(st.coords())]
            mid = [float(x) for x in st.midpoint()]
            if any((x - y) % (2 * d) if t == "periodic" else x != y for x, y, d, t in zip(mid, c, dims, axes)) or \
                    any(b - a != 2 for a, b in (st.xlims(), st.ylims(), st.zlims())):
                raise Violation("unit-cell", f"{where}: midpoint {mid} of the stabilizer at {c}")
        bound = {q for q, ss in zip(lat.qubits, lat.qstabs) if len(ss) == 1} if lat.boundaries == "open" else set()
        diff(set(getattr(obj, ec + "_bound_points")), bound, "boundary", where)
        if not any(t == "periodic" and d < 3 for t, d in zip(axes, dims)):
            self.check_stab_graph(getattr(obj, ec + "_stab_graph"), stabs, lat, bound, where)

    @staticmethod
    def check_stab_graph(g, stabs, lat, bound, where):
        name = {id(st): frozenset(st.coords()) for st in stabs}
        want = {}
        for i, q in enumerate(lat.qubits):
            ends = [frozenset(lat.qubits[j] for j in lat.stabs[k]) for k in lat.qstabs[i]]
            if len(ends) == 2 or q in bound:
                want[q] = frozenset(ends + [q] * (q in bound))
        axis = lat.crossing[0]
        low = {q for q in bound if q[axis] < lat.dims[axis]}
        got, links = {}, {"low": set(), "high": set()}
        for a, b in g.edges():
            if a in ("low", "high") or b in ("low", "high"):
                end, q = (a, b) if a in ("low", "high") else (b, a)
                links[end].add(q)
                continue
            q = g.edge_data(a, b)["common_vertex"]
            if q in got:
                raise Violation("stabilizer-graph", f"{where}: two edges for {q}")
            got[q] = frozenset(name.get(id(x), x) for x in (a, b))
        if got != want:
            bad = [q for q in {**got, **want} if got.get(q) != want.get(q)]
            raise Violation("stabilizer-graph", f"{where}: edges of {bad[:3]}")
        diff(links["low"], low, "stabilizer-graph", where)
        diff(links["high"], bound - low, "stabilizer-graph", where)

    @staticmethod
    def check_state(G, s, where):
        n = 2 if s["kind"] == "bell" else s["n"]
        deg = sorted(d for _, d in G.degree())
        edges = {"star": n - 1, "complete": n * (n - 1) // 2, "ring": n if n > 2 else n - 1,
                 "linear": n - 1, "bell": 1}[s["kind"]]
        want = {"star": [1] * (n - 1) + [n - 1], "complete": [n - 1] * n, "ring": [min(2, n - 1)] * n}.get(
            s["kind"], [1, 1] + [2] * (n - 2) if n > 1 else [0])
        if len(G) != n or G.number_of_edges() != edges or deg != sorted(want):
            raise Violation("graph-state", f"{where}: {s['kind']} of {n}: {len(G)} qubits, {G.number_of_edges()} "
                            f"edges, degrees {deg[:5]}..{deg[-3:]}")
        seen, todo = set(), [next(iter(G))]
        while todo:
            v = todo.pop()
            if v not in seen:
                seen.add(v)
                todo += list(G[v])
        if len(seen) != n or any(len(v) != 3 for v in G):
            raise Violation("graph-state", f"{where}: {s['kind']} of {n} is not connected or has wrong positions")

    def shrink(self, sc):
        n = len(sc["steps"])
        for i in range(n):
            if n > 1:
                rest = [dict(x) for j, x in enumerate(sc["steps"]) if j != i]
                keep = []
                for x in rest:
                    if "of" in x:
                        if x["of"] == i:
                            continue
                        x["of"] -= x["of"] > i
                    keep.append(x)
                if keep and len(keep) == len(rest):
                    yield {**sc, "steps": keep}
        for i, s in enumerate(sc["steps"]):
            opts = []
            if s.get("fault"):
                opts.append({**s, "fault": None})
            if s.get("polarity") is not None:
                opts.append({**s, "polarity": None})
            if s["op"] == "code":
                opts += [{**s, "code": c} for c in pipe.shrink_code(s["code"])]
            if s["op"] == "rhg":
                for a in range(3):
                    if s["dims"][a] > 2:
                        opts.append({**s, "dims": [d - (j == a) for j, d in enumerate(s["dims"])]})
            if s["op"] == "state" and s["n"] > 1:
                opts.append({**s, "n": s["n"] - 1})
            for o in opts:
                yield {**sc, "steps": [o if j == i else x for j, x in enumerate(sc["steps"])]}


def diff(got, want, kind, where):
    if got != want:
        raise Violation(kind, f"{where}: unexpected {sorted(got - want)[:3]}, missing {sorted(want - got)[:3]}")


CHECK = C23()
