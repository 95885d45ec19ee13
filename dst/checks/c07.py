"""C07: decoding always terminates and clears the syndrome."""
from .. import patterns, pipe
from ..core import Violation, digest
from ..image import Image
from ..inject import Injected, LineTrace
from ..runner import Check
from ..seams import Solo


class C07(Check):
    id = "C07"
    needs_lemon = True
    runs = {"quick": 6000, "thorough": 150000}
    budget = {"quick": 200, "thorough": 2700}
    hang = 60
    rule = ("digest of the code and the sequence of (bit pattern, state labels, decoder, abort point); "
            "nontrivial if at least one decoded round had an odd stabilizer")
    real = ["flamingpy.codes", "flamingpy.decoders", "lemonpy (compiled from the current sources)",
            "networkx and rustworkx matching"]
    stubs = ["the noise (patterns are put on the code directly)", "identity hashes",
             "exceptions at executed lines of the package"]
    assumptions = ["analog weights that are not rounded are not combined with the networkx stabilizer "
                   "graph and the rustworkx matching graph, whose weights are documented to be integers"]
    expected_probes = ["dozens_of_rounds", "UF", "networkx", "rustworkx", "lemon", "erasures", "blueprint",
                       "after_abort", "odd_on_boundary", "many_odd", "no_odd"]

    def long_code(self, rng, long):
        """A code with one very long direction and erasures that form one unbranched chain along it."""
        code = {"distance": [2, 2, long], "ec": "primal", "boundaries": "toric", "backend": "rustworkx"}
        lat = pipe.lattice(code)
        chain = []
        for z in range(2, 2 * long - 2, 2):
            chain += [(0, 1, z), (2, 1, z)] if z % 4 else [(1, 0, z), (1, 2, z)]
        rounds = [{"flips": sorted(rng.sample(range(lat.n), n)), "labels": sorted(lab), "analog": False,
                   "seed": rng.getrandbits(30), "others": 1, "dec": dec, "abort": None, "keep": False}
                  for n, lab, dec in ((0, chain, {"decoder": "UF", "w": {}, "d": {}}),
                                      (3, chain, {"decoder": "UF", "w": {}, "d": {}}),
                                      (2, [], {"decoder": "MWPM", "w": {}, "d": {}}))]
        return {"code": code, "rounds": rounds, "hash": rng.getrandbits(30), "_slow": 12}

    def generate(self, rng, tier, idx):
        if tier == "thorough" and idx % 20000 == 3:
            return self.long_code(rng, 1030)
        code = pipe.gen_code(rng, tier, big=tier == "thorough" or rng.random() < 0.2, min_dim=2)
        if idx % 41 == 11:
            # many rounds on one code
            code = pipe.gen_code(rng, tier, cap=110)
        lat = pipe.lattice(code)
        rounds = []
        for _ in range(rng.randint(13, 120) if idx % 41 == 11 else rng.choice([2, 3, 4, 6])):
            analog = rng.random() < 0.4
            dec = patterns.gen_decoder(rng, code["backend"], analog)
            rounds.append({
                "flips": patterns.gen_flips(rng, lat, patterns.odd_cap(dec)),
                "labels": patterns.gen_labels(rng, lat), "analog": analog,
                "seed": rng.getrandbits(30), "others": 1, "dec": dec,
                "abort": rng.random() if rng.random() < 0.2 else None,
                "keep": rng.random() < 0.5})
        return {"code": code, "rounds": rounds, "hash": rng.getrandbits(30)}

    def execute(self, sc, run):
        lat = pipe.lattice(sc["code"])
        hist = []
        interesting = False
        with Solo(image=Image(hash_seed=sc["hash"])) as p:
            img = p.image
            code = pipe.make_code(img, sc["code"])
            aborted = False
            for i, r in enumerate(sc["rounds"]):
                dec = r["dec"]
                patterns.apply_state(code, lat, r)
                if r.get("abort") is not None:
                    with LineTrace.scripted(r["abort"]):
                        try:
                            patterns.decode(img, code, dec)
                        except Injected:
                            run.fault("exception_in_decoding")
                            aborted = True
                    if not r["keep"]:
                        patterns.apply_state(code, lat, r)
                before = pipe.snapshot(code.graph)
                odd = lat.syndrome(patterns.bits(code, lat))
                patterns.decode(img, code, dec)
                after = pipe.snapshot(code.graph)
                if aborted:
                    run.probe("after_abort")
                self.verify(lat, code, before, after, i)
                interesting |= bool(odd)
                self.probes(run, sc, lat, r, odd)
                hist.append((r["flips"], r["labels"], str(dec), r["abort"]))
                run.log.add(i, len(odd), sorted(k for k in after if after[k] != before[k]))
        run.nontrivial = interesting
        if len(sc["rounds"]) > 12:
            run.probe("dozens_of_rounds")
        run.signature = digest(sc["code"], hist)
        run.sample = {"code": sc["code"], "rounds": [
            {"flips": r["flips"][:30], "p_labelled": len(r["labels"]), "dec": r["dec"]} for r in sc["rounds"]]}

    @staticmethod
    def verify(lat, code, before, after, i):
        changed = []
        for q, d in after.items():
            b = d.get("bit_val")
            if b not in (0, 1):
                raise Violation("bit-value", f"round {i}: bit value {b!r} of {q}")
            if b != before[q]["bit_val"]:
                changed.append(q)
        known = {str(q) for q in lat.qubits}
        other = [q for q in changed if q not in known]
        if other:
            raise Violation("flips-other-qubits", f"round {i}: {other[:5]}")
        odd = lat.syndrome(patterns.bits(code, lat))
        if odd:
            c = [lat.centres[s] for s in sorted(odd)][:5]
            raise Violation("odd-stabilizers-left", f"round {i}: {len(odd)} odd stabilizers, e.g. at {c}")

    @staticmethod
    def probes(run, sc, lat, r, odd):
        dec = r["dec"]
        run.probe("UF" if dec["decoder"] == "UF" else dec["d"].get("backend", "rustworkx"))
        if dec["d"].get("as_class"):
            run.probe("backend_given_as_type")
        run.probe(sc["code"]["boundaries"] + "_" + sc["code"]["ec"])
        if dec["decoder"] == "UF" and patterns.erased(lat, r["labels"]):
            run.probe("erasures")
        if dec["w"].get("method") == "blueprint":
            run.probe("blueprint")
        if max(lat.dims) > 1000:
            run.probe("very_long_code")
        if not odd:
            run.probe("no_odd")
        if len(odd) > 12:
            run.probe("many_odd")
        if any(len(lat.qstabs[q]) == 1 for s in odd for q in lat.stabs[s]):
            run.probe("odd_on_boundary")

    def shrink(self, sc):
        yield from patterns.shrink_rounds(sc)


CHECK = C07()
