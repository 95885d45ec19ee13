"""C11: CV layer outcomes follow the drawn states, noise and entanglement."""
import math

import numpy as np

from .. import pipe
from ..core import Violation, digest
from ..image import Image
from ..runner import Check
from ..seams import Solo
from ..simrng import SimRNG

ROOT = math.sqrt(math.pi)


def polarity(img, kind):
    if kind == "alternating":
        return img.get("flamingpy.codes").alternating_polarity
    if kind == "mixed":
        return lambda e: (-1) ** (sum(e[0]) + e[1][0]) * (1 + (e[0][0] % 3 == 0))
    return None


TRANSLATORS = {
    "sign": lambda xs: np.array([int(x > 0) for x in xs]),
    "shifted": lambda xs: np.array([int(math.floor(x / ROOT)) % 2 for x in xs]),
}


def binner(x):
    """Parity of the closest multiple of sqrt(pi); None if x is half way between two."""
    t = x / ROOT + 0.5
    if abs(t - round(t)) < 1e-9 * max(1.0, abs(t)):
        return None
    return math.floor(t) % 2


class C11(Check):
    id = "C11"
    runs = {"quick": 1200, "thorough": 30000}
    budget = {"quick": 240, "thorough": 2700}
    rule = ("digest of the graph, the layer configuration and the scripted draws; nontrivial if both state "
            "labels occurred or a polarity was used")
    real = ["flamingpy.noise.CVLayer", "flamingpy.cv.ops", "flamingpy.cv.gkp", "flamingpy.codes"]
    stubs = ["the random generator (scripted draws)", "identity hashes"]
    assumptions = ["outcomes are compared with a relative tolerance of 1e-4 (single precision is used inside)",
                   "the false-alarm probability of the statistics of p_swap (real generator, fixed seeds) is "
                   "below 1e-9 per run",
                   "nodes designated as perfect are given GKP states in two-step sampling"]
    expected_probes = ["initial", "two-step", "p_swap", "states", "perfect", "polarity", "translator",
                       "bare_graph", "quad_q", "statistics", "all_p", "no_p", "reused_layer", "states_list", "given_means", "given_covs",
                       "unpropagated"]

    def generate(self, rng, tier, idx):
        kind = rng.choice(["code", "code", "code", "graph"])
        sc = {"kind": kind, "hash": rng.getrandbits(30), "seed": rng.getrandbits(40),
              "delta": rng.choice([1e-4, 0.01, 0.1, 0.3, 1.0, 4.0]), "order": rng.choice([None, "initial", "two-step", "two-step"]),
              "pol": rng.choice([None, None, "alternating", "mixed"]), "extreme": rng.choice([0, 0, 0, 0.2]),
              "translator": rng.choice([None, None, None, "sign", "shifted"]),
              "repeat": rng.choice([1, 1, 2, 3]), "pick": rng.getrandbits(30), "stat": rng.random() < 0.12}
        m = rng.random()
        sc["mode"] = "p_swap" if m < 0.45 else "states" if m < 0.8 else "none"
        if sc["mode"] == "p_swap":
            sc["p_swap"] = rng.choice([0, 0, 0.02, 0.1, 0.3, 0.5, 0.9, 1, 1])
            sc["force"] = rng.choice([None, None, 0, 0.5, 1]) if 0 < sc["p_swap"] < 1 else None
        if sc["mode"] == "states":
            sc["frac"] = rng.choice([0, 0.05, 0.3, 0.7, 1])
            sc["as"] = rng.choice(["list", "array", "tuple"])
        if kind == "code":
            sc["code"] = pipe.gen_code(rng, tier, cap=rng.choice([60, 110, 110]) if tier == "quick" else 170)
            sc["perfect"] = rng.choice([0, 0, 0, 1, 4])
        else:
            n = rng.randint(1, 12)
            pts = rng.sample([[x, y, z] for x in range(3) for y in range(3) for z in range(3)], n)
            edges = [[i, j, rng.choice([1, 1, 1, -1, 2])] for i in range(n) for j in range(i) if rng.random() < 0.4]
            sc["graph"] = {"points": pts, "edges": edges}
            sc["perfect"] = rng.choice([0, 0, 1])
            sc["quad"] = rng.choice(["p", "p", "q"])
            sc["inds"] = rng.sample(range(n), rng.randint(1, n)) if rng.random() < 0.6 else None
            # Means, covariances or no propagation given by the caller (two-step sampling).
            sc["given"] = [g for g in ("means", "covs", "unpropagated") if rng.random() < 0.2]
        return sc

    # ---------------------------------------------------------------------------------
    def execute(self, sc, run):
        with Solo(image=Image(hash_seed=sc["hash"])) as proc:
            img = proc.image
            if sc["kind"] == "code":
                code = img.get("flamingpy.codes").SurfaceCode(
                    **pipe.code_args(sc["code"]), polarity=polarity(img, sc["pol"]))
                graph, target = code.graph, code
                nodes = sorted(graph.nodes)
                if sc["pol"]:
                    run.probe("polarity")
            else:
                graph = img.get("flamingpy.codes.graphs").EGraph()
                pts = [tuple(p) for p in sc["graph"]["points"]]
                graph.add_nodes_from(pts)
                for i, j, w in sc["graph"]["edges"]:
                    graph.add_edge(pts[i], pts[j], weight=w)
                target, nodes, code = graph, sorted(graph.nodes), None
                run.probe("bare_graph")
            N = len(nodes)
            adj = np.zeros((N, N))
            pos = {v: i for i, v in enumerate(nodes)}
            for a, b, d in graph.edges.data():
                adj[pos[a], pos[b]] = adj[pos[b], pos[a]] = d.get("weight", 1)
            if sc["perfect"]:
                graph.graph["perfect_points"] = nodes[:: max(1, N // sc["perfect"])]
                run.probe("perfect")
            perfect = set(graph.graph.get("perfect_points") or [])
            two = sc["order"] == "two-step"
            kw = {"delta": sc["delta"]}
            want_p = None
            if sc["mode"] == "p_swap" and not (two and perfect):
                kw["p_swap"] = sc["p_swap"]
                run.probe("p_swap")
            elif sc["mode"] == "states":
                r = np.random.default_rng(sc["pick"])
                ok = [i for i in range(N) if not (two and nodes[i] in perfect)]
                ind = sorted(int(x) for x in r.choice(ok, size=int(sc["frac"] * len(ok)), replace=False)) if ok else []
                want_p = {nodes[i] for i in ind}
                kw["states"] = {"p": {"list": list, "tuple": tuple, "array": lambda x: np.array(x, dtype=int)}[sc["as"]](ind)}
                run.probe("states")
                if sc["as"] != "array":
                    run.probe("states_list")
            if not kw.get("p_swap") and want_p is None:
                want_p = set()
            if kw.get("p_swap") == 1:
                want_p = set(nodes)
            if sc["order"]:
                kw["sampling_order"] = sc["order"]
            run.probe(sc["order"] or "initial")
            tr = TRANSLATORS.get(sc["translator"])
            if tr:
                kw["translator"] = tr
                run.probe("translator")
            layer = img.get("flamingpy.noise").CVLayer(target, **kw)
            self.nodes, self.pos, self.adj = nodes, pos, adj
            if code is not None:
                syn = sorted(code.all_syndrome_coords)
                quad = "p"
            else:
                inds = sc["inds"]
                pts = graph.to_points
                syn = sorted(nodes if inds is None else [pts[i] for i in inds])
                quad = sc["quad"]
                run.probe("quad_" + quad)

            given = sc.get("given") or [] if two and code is None else []
            r = np.random.default_rng(sc["pick"] + 1)
            opts = {}
            if "means" in given:
                opts["updated_means"] = r.normal(0, 2, size=2 * N)
                run.probe("given_means")
            if "covs" in given:
                opts["updated_covs"] = r.choice([0, 0.1, 1, 3], size=2 * N)
                run.probe("given_covs")
            if "unpropagated" in given:
                opts["propagate"] = False
                run.probe("unpropagated")
            self.opts = {k: v.copy() if isinstance(v, np.ndarray) else v for k, v in opts.items()}

            def apply(rng):
                if code is not None:
                    layer.apply_noise(rng)
                else:
                    layer.populate_states(rng)
                    layer.measure_hom(quad=quad, inds=sc["inds"], rng=rng, **opts)
                lab = {v: graph.nodes[v].get("state") for v in nodes}
                hom = np.array([float(graph.nodes[v]["hom_val_" + quad]) for v in syn])
                self.readout(layer, graph, N, quad, sc["pick"], run)
                return lab, hom

            force = sc.get("force")
            labels = None
            for k in range(sc["repeat"]):
                script = dict(seed=sc["seed"] + k, binomial=force)
                rng = SimRNG(extreme=sc["extreme"], **script)
                lab, hom = apply(rng)
                labels = lab
                self.labels(layer, lab, want_p, run)
                if code is not None:
                    self.bits(graph, syn, hom, tr)
                if k:
                    run.probe("reused_layer")
                if k == sc["repeat"] - 1 and not rng.unmodelled:
                    self.response(sc, run, apply, script, rng, lab, hom, syn, quad, perfect, two)
                run.log.add("hom", digest([round(float(x), 4) for x in hom]), sum(v == "p" for v in lab.values()))
            if sc["extreme"]:
                run.fault("extreme_draws")
            if force is not None:
                run.fault("extreme_number_of_swaps")
            n_p = sum(v == "p" for v in labels.values())
            run.probe("all_p" if n_p == N else "no_p" if not n_p else "mixed_labels")
            if sc["stat"] and 0 < (kw.get("p_swap") or 0) < 1:
                self.statistics(layer, graph, nodes, kw["p_swap"], sc, run)
        run.nontrivial = 0 < n_p < N or bool(sc["pol"])
        run.signature = digest({k: v for k, v in sc.items() if k not in ("hash", "stat")})
        run.sample = {k: sc.get(k) for k in ("kind", "code", "graph", "delta", "order", "pol", "mode", "p_swap", "perfect")}

    def labels(self, layer, lab, want, run):
        bad = {v: s for v, s in lab.items() if s not in ("p", "GKP")}
        if bad:
            raise Violation("state-label", f"{sorted(bad.items())[:4]}")
        p = {v for v, s in lab.items() if s == "p"}
        if want is not None and p != want:
            raise Violation("wrong-states", f"p-squeezed {sorted(p)[:8]} ({len(p)}), requested {sorted(want)[:8]} ({len(want)})")
        pts = layer.egraph.to_points
        for name, inds, s in (("p_inds", layer.p_inds, "p"), ("gkp_inds", layer.gkp_inds, "GKP")):
            got = [pts[int(i)] for i in inds]
            if sorted(got) != sorted(v for v, x in lab.items() if x == s):
                raise Violation("index-lists", f"{name} lists {len(got)} nodes, {sum(x == s for x in lab.values())} are labelled {s}")

    @staticmethod
    def readout(layer, graph, N, quad, pick, run):
        """Outcomes and bits asked for by index are those of the nodes at these indices."""
        r = np.random.default_rng(pick + 7)
        some = [int(i) for i in r.choice(N, size=1 + int(r.integers(N)), replace=False)]
        for inds in (some, None):
            at = [graph.nodes[graph.to_points[i]] for i in (range(N) if inds is None else inds)]
            for key, got in (("hom_val_" + quad, layer.hom_outcomes(inds, quad)), ("bit_val", layer.bit_values(inds))):
                if list(got) != [d.get(key) for d in at]:
                    raise Violation("read-out", f"{key} of modes {inds and inds[:6]}: {list(got)[:6]}, "
                                    f"the nodes hold {[d.get(key) for d in at][:6]}")
        run.probe("read_out_by_index")

    @staticmethod
    def bits(graph, syn, hom, tr):
        for v, h in zip(syn, hom):
            b = graph.nodes[v]["bit_val"]
            want = int(tr([h])[0]) if tr else binner(h)
            if want is not None and b != want:
                raise Violation("bit-translation", f"outcome {h} of {v} translated to {b!r}, expected {want}")

    # ------------------------------------------------------------ response to the draws
    def response(self, sc, run, apply, script, rng, lab, hom, syn, quad, perfect, two):
        adj, pos, nodes = self.adj, self.pos, self.nodes
        S = [pos[v] for v in syn]
        delta = sc["delta"]
        sp = math.sqrt(delta / 2)
        n = len(S)
        A = adj[S] if quad == "p" else np.eye(len(nodes))[S]
        part = [i + (len(nodes) if quad == "p" else 0) for i in S]
        base, known = np.zeros(n), self.opts.get("updated_means")
        if known is not None:
            base, A = known[part], np.zeros_like(A)
        elif "propagate" in self.opts and quad == "p":
            A = np.zeros_like(A)
        own = np.array([0.0 if v in perfect else 1.0 for v in nodes])
        # zero draws: outcomes are zero
        z = SimRNG(zero="gui", **script)
        lab0, hom0 = apply(z)
        if lab0 != lab:
            return  # the labels use these draws too; only the other comparisons apply
        if np.abs(hom0 - base).max() > 1e-6 * (1 + np.abs(base).max()):
            raise Violation("outcome-without-noise", f"outcomes {hom0[:4]} for zero draws, expected {base[:4]}")

        def draw(at):
            return apply(SimRNG(zero="gui", replace=at, **script))[1] - base
        # noise: covariance of the response to the gaussian draws
        G = rng.count["g"]
        cols = np.zeros((n, G))
        for k in range(G):
            cols[:, k] = draw({("g", k): 1.0})
        run.fault("draw_replaced", G)
        if two:
            model = np.diag([sp**2 * own[i] for i in S])
            if "updated_covs" in self.opts:
                model = np.diag(self.opts["updated_covs"][part] ** 2.0)
        else:
            sq = np.array([(1 / math.sqrt(2 * delta) if lab[v] == "p" else sp) for v in nodes]) * own
            model = A @ np.diag(sq**2) @ A.T
            if quad == "p":
                model = model + np.diag([(sp * own[i])**2 for i in S])
        got = cols @ cols.T
        tol = 1e-4 * np.sqrt(np.outer(np.diag(model), np.diag(model))) + 1e-9 * (1 + np.abs(model).max())
        bad = np.argwhere(np.abs(got - model) > tol)
        if len(bad):
            i, j = bad[0]
            raise Violation("noise-covariance", f"covariance of the outcomes of {syn[i]} ({lab[syn[i]]}) and "
                            f"{syn[j]} ({lab[syn[j]]}) is {got[i, j]:.6g}, expected {model[i, j]:.6g} (delta "
                            f"{delta}, order {sc['order']}, {quad} measured)")
        # two-step: means of the states
        rows = []
        if two:
            for ch, state, scale, val in (("u", "p", 2 * ROOT, 0.5), ("i", "GKP", ROOT, 0.75)):
                got = []
                for k in range(rng.count[ch]):
                    h = draw({(ch, k): val})
                    got.append(h / (scale * (val if ch == "u" else 1)))
                run.fault("draw_replaced", len(got))
                js = [j for j, v in enumerate(nodes) if lab[v] == state]
                want = [A[:, j] for j in js]
                rows.append((state, canon(got), canon(want)))
            for state, g, w in rows:
                if g != w:
                    extra = [x for x in g if x not in w][:2]
                    raise Violation("state-means", f"{state} states: {len(g)} responding draws, expected {len(w)}; "
                                    f"unexpected response {extra}")
        # superposition: the outcome of the scripted draws is the sum of the responses
        pred = sum((script_value(rng, "g", k) * cols[:, k] for k in range(G)), base.copy())
        if two:
            for ch, val, scale in (("u", 0.5, 1), ("i", 0.75, 1)):
                for k in range(rng.count[ch]):
                    h = draw({(ch, k): val})
                    v = script_value(rng, ch, k)
                    pred = pred + h * (v / 0.5 if ch == "u" else (1 if v >= 0.5 else 0))
        size = 1e-4 * (1 + np.abs(pred).max())
        if np.abs(pred - hom).max() > size:
            i = int(np.abs(pred - hom).argmax())
            raise Violation("not-the-sum", f"outcome {hom[i]} of {syn[i]}, the draws amount to {pred[i]}")

    def statistics(self, layer, graph, nodes, p, sc, run):
        gen = np.random.default_rng(sc["seed"])
        M, N = 300, len(nodes)
        tot = np.zeros(M)
        per = np.zeros(N)
        for m in range(M):
            layer.populate_states(gen)
            x = np.array([graph.nodes[v]["state"] == "p" for v in nodes], dtype=float)
            tot[m] = x.sum()
            per += x
        run.probe("statistics")
        sd = math.sqrt(N * p * (1 - p))
        if abs(tot.mean() - N * p) > 7 * sd / math.sqrt(M) + 30 / M:
            raise Violation("swap-rate", f"{tot.mean()} p-squeezed states of {N} on average at p_swap {p}")
        if N * p * (1 - p) > 2:
            v = tot.var(ddof=1) / sd**2
            if not 1 - 7 * math.sqrt(2.6 / M) < v < 1 + 7 * math.sqrt(2.6 / M):
                raise Violation("swap-variance", f"variance ratio {v} of the number of p-squeezed states")
        dev = np.abs(per / M - p) - (7.5 * math.sqrt(p * (1 - p) / M) + 40 / M)
        if dev.max() > 0:
            i = int(dev.argmax())
            raise Violation("swap-rate", f"{nodes[i]} is p-squeezed in {per[i]} of {M} realisations at p_swap {p}")

    def shrink(self, sc):
        if sc["kind"] == "code":
            for c in pipe.shrink_code(sc["code"]):
                yield {**sc, "code": c}
        else:
            for e in range(len(sc["graph"]["edges"])):
                g = sc["graph"]
                yield {**sc, "graph": {**g, "edges": g["edges"][:e] + g["edges"][e + 1:]}}
        for k, v in (("pol", None), ("extreme", 0), ("translator", None), ("perfect", 0), ("repeat", 1), ("mode", "none"), ("stat", False),
                     ("given", [])):
            if sc.get(k) != v:
                yield {**sc, k: v}


def script_value(rng, ch, k):
    return SimRNG(rng.seed, extreme=rng.extreme)._at(ch, k)


def canon(cols):
    """Sorted non-zero columns."""
    out = []
    for c in cols:
        t = tuple(float(x) for x in np.round(np.asarray(c, dtype=float), 3) + 0.0)
        if any(t):
            out.append(t)
    return sorted(out)


CHECK = C11()
