"""C17: decoder weights always reflect the current noise realisation."""
import numpy as np

from .. import patterns, pipe
from ..core import Violation, digest
from ..image import Image
from ..inject import Injected, LineTrace
from ..runner import Check
from ..seams import Solo

BAD = [{"decoder": "UF", "w": {"method": "blueprint", "prob_precomputed": True}, "d": {}},
       {"decoder": "UF", "w": {"method": "blueprint", "delta": 0.1}, "d": {}},
       {"decoder": "UF", "w": {"method": "blueprint", "delta": 0.1, "integer": True, "multiplier": 100}, "d": {}},
       {"decoder": "MWPM", "w": {"method": "analog"}, "d": {}},
       {"decoder": "UF", "w": {"method": "weighted"}, "d": {}},
       {"decoder": "uf", "w": {}, "d": {}},
       {"decoder": "matching", "w": {}, "d": {}},
       {"decoder": "MWPM", "w": {}, "d": {"backend": "blossom"}}]


class C17(Check):
    id = "C17"
    needs_lemon = True
    runs = {"quick": 4000, "thorough": 100000}
    budget = {"quick": 200, "thorough": 2700}
    hang = 60
    rule = ("digest of the code and the sequence of (noise realisation, weight options, decoder, abort or "
            "rejection); nontrivial if at least two different weight assignments were decoded on one code")
    real = ["flamingpy.codes", "flamingpy.noise", "flamingpy.decoders", "lemonpy (compiled from the "
            "current sources)"]
    stubs = ["noise realisations put on the code directly, in part of the rounds", "identity hashes",
             "exceptions at executed lines of the package"]
    assumptions = ["the documented formulas as restated in dst/patterns.py, with a relative tolerance of 1e-7"]
    expected_probes = ["dozens_of_rounds", "UF", "uniform", "blueprint_delta", "blueprint_precomputed", "integer", "erased",
                       "rejected", "real_noise", "after_abort", "captured_at_decoding", "change_of_weights"]

    def generate(self, rng, tier, idx):
        code = pipe.gen_code(rng, tier, min_periodic=3, big=tier == "thorough" or rng.random() < 0.15)
        if idx % 41 == 11:
            # many rounds on one code
            code = pipe.gen_code(rng, tier, cap=110, min_periodic=3)
        lat = pipe.lattice(code)
        rounds = []
        for _ in range(rng.randint(13, 90) if idx % 41 == 11 else rng.choice([2, 3, 5, 7])):
            mode = rng.choice(["decode"] * 6 + ["assign", "reject", "reject", "noise", "noise"])
            r = {"mode": mode, "labels": patterns.gen_labels(rng, lat), "analog": True,
                 "seed": rng.getrandbits(30), "others": 1, "fresh": rng.random() < 0.8,
                 "dec": patterns.gen_decoder(rng, code["backend"], True),
                 "capture": rng.random() < 0.4,
                 "abort": rng.random() if rng.random() < 0.12 else None}
            if mode == "reject":
                r["dec"] = rng.choice(BAD)
            r["flips"] = patterns.gen_flips(rng, lat, patterns.odd_cap(r["dec"]))
            if mode == "noise":
                r["noise"] = pipe.gen_noise(rng, ("cv", "cv", "macro") if len(lat.qubits) < 90 else ("cv",))
                delta = r["noise"]["args"]["delta"]
                if delta > 0.2:  # keeps the number of defects small
                    r["noise"]["args"]["delta"] = delta = 0.1
                while True:
                    r["dec"] = patterns.gen_decoder(rng, code["backend"], True)
                    w = r["dec"]["w"]
                    pre = w.get("prob_precomputed")
                    if r["noise"]["kind"] == "macro" and "delta" in w:
                        continue
                    if r["noise"]["kind"] == "cv" and pre:
                        continue
                    break
                if r["dec"]["d"].get("backend") == "networkx":
                    r["dec"]["d"]["backend"] = "lemon"
            old = [x for x in rounds if x["mode"] == "decode"]
            if mode == "decode" and old and rng.random() < 0.2:
                r.update(patterns.moved(rng, rng.choice(old)))
            rounds.append(r)
        return {"code": code, "rounds": rounds, "hash": rng.getrandbits(30)}

    def execute(self, sc, run):
        lat = pipe.lattice(sc["code"])
        hist, kinds = [], []
        with Solo(image=Image(hash_seed=sc["hash"])) as p:
            img = p.image
            code = pipe.make_code(img, sc["code"])
            assign = img.get("flamingpy.decoders.decoder").assign_weights
            layers, aborted, labelled = {}, False, False
            for i, r in enumerate(sc["rounds"]):
                dec = r["dec"]
                if r["mode"] == "noise":
                    key = str(r["noise"])
                    if key not in layers:
                        layers[key] = pipe.make_noise(img, code, r["noise"])
                    layers[key].apply_noise(np.random.default_rng(r["seed"]))
                    run.probe("real_noise")
                elif r["fresh"] or not labelled:
                    patterns.apply_state(code, lat, r)
                    labelled = True
                if r["mode"] == "reject":
                    self.reject(img, code, dec, i)
                    run.probe("rejected")
                    hist.append(str(dec))
                    continue
                if r["mode"] == "noise":
                    labelled = False
                if r["abort"] is not None:
                    nodes = code.graph.nodes
                    keep = {v: d.get("bit_val") for v, d in nodes.data()}
                    with LineTrace.scripted(r["abort"]):
                        try:
                            patterns.decode(img, code, dec)
                        except Injected:
                            run.fault("exception_in_decoding")
                            aborted = True
                    for v, b in keep.items():
                        if b is not None:
                            nodes[v]["bit_val"] = b
                state = {v: dict(d) for v, d in code.graph.nodes.data()}
                want, rounded = patterns.weights(lat, state, dec)
                seen = []
                if r["mode"] == "assign":
                    assign(code, dec["decoder"], **dec["w"])
                elif r["capture"] and dec["decoder"] == "MWPM":
                    self.capture(img, code, dec, seen)
                else:
                    patterns.decode(img, code, dec)
                for edges in seen:
                    self.compare(lat, edges, want, rounded, f"round {i}, at decoding, {dec}")
                    run.probe("captured_at_decoding")
                self.compare(lat, self.edges(code), want, rounded, f"round {i} {r['mode']} {dec}")
                nodes = code.graph.nodes
                for q, w in zip(lat.qubits, want):
                    if not patterns.weight_ok(nodes[q].get("weight"), w, rounded):
                        raise Violation("qubit-weight", f"round {i} {dec}: weight {nodes[q].get('weight')!r} of "
                                        f"{q}, documented {w}")
                w = dec["w"]
                kind = "UF" if dec["decoder"] == "UF" else ("uniform" if w.get("method") != "blueprint" else (
                    "blueprint_precomputed" if w.get("prob_precomputed") else "blueprint_delta"))
                run.probe(kind)
                if w.get("integer"):
                    run.probe("integer")
                if -1 in want:
                    run.probe("erased")
                if aborted:
                    run.probe("after_abort")
                if kinds and kinds[-1] != kind:
                    run.probe("change_of_weights")
                kinds.append(kind)
                hist.append((r["mode"], str(dec), r["seed"], r["labels"], r["flips"]))
                run.log.add(i, kind, round(float(sum(want)), 9))
        run.nontrivial = len({str(h) for h in hist}) > 1
        if len(sc["rounds"]) > 12:
            run.probe("dozens_of_rounds")
        run.signature = digest(sc["code"], hist)
        run.sample = {"code": sc["code"], "rounds": [
            {"mode": r["mode"], "dec": r["dec"], "p_labelled": len(r["labels"]), "noise": r.get("noise")}
            for r in sc["rounds"]]}

    @staticmethod
    def edges(code):
        """(qubit or None, weight) of every edge of the stabilizer graphs."""
        out = []
        for ec in code.ec:
            g = getattr(code, ec + "_stab_graph")
            for a, b in g.edges():
                d = g.edge_data(a, b)
                out.append((d.get("common_vertex"), d.get("weight")))
        return out

    def capture(self, img, code, dec, seen):
        """Decode with a matching graph that records the weights it is built from."""
        m = img.get("flamingpy.decoders.mwpm.matching")
        base = {"networkx": m.NxMatchingGraph, "rustworkx": m.RxMatchingGraph,
                "lemon": m.LemonMatchingGraph}[dec["d"].get("backend", "rustworkx")]
        edges = self.edges
        made = []

        class Recorder(base):
            def __init__(self, *a, **k):
                made.append(1)
                seen.append(edges(code))
                super().__init__(*a, **k)

            def min_weight_perfect_matching(self, *a, **k):
                seen.append(edges(code))
                return super().min_weight_perfect_matching(*a, **k)

        patterns.decode(img, code, {**dec, "d": {**dec["d"], "backend": Recorder}})
        if not made:
            raise Violation("backend-not-used", "the matching graph class supplied was not used")

    @staticmethod
    def compare(lat, edges, want, rounded, where):
        count = [0] * lat.n
        for q, w in edges:
            if q is None:
                if w != 0:
                    raise Violation("connector-weight", f"{where}: weight {w!r} of an edge to low or high")
                continue
            i = lat.idx[tuple(q)]
            count[i] += 1
            if not patterns.weight_ok(w, want[i], rounded):
                raise Violation("edge-weight", f"{where}: weight {w!r} of the edge of {q}, documented {want[i]}")
        missing = [lat.qubits[i] for i, c in enumerate(count) if c != 1 and lat.qstabs[i]]
        if lat.boundaries != "open":
            missing = [q for q in missing if len(lat.qstabs[lat.idx[q]]) == 2]
        if missing:
            raise Violation("edges-missing", f"{where}: qubits without exactly one edge: {missing[:5]}")

    @staticmethod
    def reject(img, code, dec, i):
        try:
            v = patterns.decode(img, code, dec)
        except Exception:
            return
        raise Violation("not-rejected", f"round {i}: {dec} gave the verdict {bool(v)}")

    def shrink(self, sc):
        yield from patterns.shrink_rounds(sc)


CHECK = C17()
