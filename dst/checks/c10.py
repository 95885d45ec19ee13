"""C10: the verdict is true exactly when no logical error remains."""
import contextlib
import io

from .. import patterns, pipe
from ..core import Violation, digest
from ..image import Image
from ..inject import Injected, LineTrace
from ..runner import Check
from ..seams import Solo

AX = {"x": 0, "y": 1, "z": 2}


class C10(Check):
    id = "C10"
    needs_lemon = True
    runs = {"quick": 5000, "thorough": 120000}
    budget = {"quick": 200, "thorough": 2700}
    hang = 60
    rule = ("digest of the code and the sequence of (state, decoder or direct check, options); nontrivial "
            "if both verdicts occurred or a logical error was planted")
    real = ["flamingpy.codes", "flamingpy.decoders", "lemonpy (compiled from the current sources)"]
    stubs = ["the noise (patterns are put on the code directly)", "identity hashes",
             "exceptions at executed lines of the package"]
    assumptions = []
    expected_probes = ["dozens_of_rounds", "failure", "success", "logical_x", "logical_y", "logical_z", "two_directions",
                       "direct", "sanity", "UF", "MWPM", "after_abort"]

    def generate(self, rng, tier, idx):
        code = pipe.gen_code(rng, tier, big=tier == "thorough" or rng.random() < 0.2)
        if idx % 41 == 11:
            # many rounds on one code
            code = pipe.gen_code(rng, tier, cap=110)
        lat = pipe.lattice(code)
        rounds = []
        for _ in range(rng.randint(13, 120) if idx % 41 == 11 else rng.choice([2, 4, 6, 8])):
            logical = []
            for a in lat.crossing:
                if rng.random() < 0.4:
                    logical += [[a, rng.randrange(1000)]] * 1
                    if rng.random() < 0.2:
                        logical.append([a, rng.randrange(1000)])
            mode = rng.choice(["decode", "decode", "decode", "direct"])
            dec = patterns.gen_decoder(rng, code["backend"], False)
            flips = []
            if mode == "decode":
                flips = patterns.gen_flips(rng, lat, patterns.odd_cap(dec))
                if rng.random() < 0.5:
                    logical = []
            rounds.append({"mode": mode, "flips": flips, "logical": logical,
                           "loop": sorted(lat.loop(rng, rng.randint(0, 4))),
                           "labels": patterns.gen_labels(rng, lat), "seed": rng.getrandbits(30), "others": 1,
                           "dec": dec, "sanity": rng.random() < 0.5,
                           "abort": rng.random() if rng.random() < 0.1 else None})
        return {"code": code, "rounds": rounds, "hash": rng.getrandbits(30)}

    def execute(self, sc, run):
        lat = pipe.lattice(sc["code"])
        hist, seen, planted = [], set(), False
        with Solo(image=Image(hash_seed=sc["hash"])) as p:
            img = p.image
            code = pipe.make_code(img, sc["code"])
            check_correction = img.get("flamingpy.decoders.decoder").check_correction
            aborted = False
            for i, r in enumerate(sc["rounds"]):
                f = set(r["flips"]) ^ set(r["loop"])
                for a, at in r["logical"]:
                    f ^= set(lat.logical_line(a, at))
                    run.probe("logical_" + "xyz"[a])
                if len({a for a, _ in r["logical"]}) > 1:
                    run.probe("two_directions")
                planted |= bool(r["logical"])
                patterns.apply_state(code, lat, {**r, "flips": sorted(f)})
                out = io.StringIO()
                if r["mode"] == "decode":
                    if r["abort"] is not None:
                        with LineTrace.scripted(r["abort"]):
                            try:
                                with contextlib.redirect_stdout(out):
                                    patterns.decode(img, code, r["dec"], sanity_check=r["sanity"])
                            except Injected:
                                run.fault("exception_in_decoding")
                                aborted = True
                        patterns.apply_state(code, lat, {**r, "flips": sorted(f)})
                    with contextlib.redirect_stdout(out):
                        verdict = patterns.decode(img, code, r["dec"], sanity_check=r["sanity"])
                    run.probe(r["dec"]["decoder"])
                    if aborted:
                        run.probe("after_abort")
                    self.judge(lat, code, bool(verdict), f"round {i} {r['dec']} sanity_check={r['sanity']}")
                    seen.add(bool(verdict))
                # the state as it is now, judged directly
                plain = check_correction(code)
                with contextlib.redirect_stdout(out):
                    full = check_correction(code, sanity_check=True)
                par = self.judge(lat, code, bool(all(plain)), f"round {i} check_correction")
                if par is not None:
                    seen.add(bool(all(plain)))
                    run.probe("success" if all(plain) else "failure")
                    checks, truth = full
                    if [bool(x) for x in checks] != [bool(x) for x in plain]:
                        raise Violation("sanity-check-differs", f"round {i}: {checks} / {plain}")
                    for a, v in par.items():
                        got = [bool(x) for x in truth[0]["xyz"[a]]]
                        if got != [not x for x in v]:
                            raise Violation("surface-parities", f"round {i}: {'xyz'[a]} {got}, parities {v}")
                if r["mode"] == "direct":
                    run.probe("direct")
                if r["sanity"]:
                    run.probe("sanity")
                # only the bits of syndrome qubits count
                before = [bool(x) for x in plain]
                for v, d in patterns.state_of(lat, {**r, "flips": [], "seed": r["seed"] + 1, "analog": True}).items():
                    if v not in lat.idx:
                        code.graph.nodes[v].update(d)
                    else:
                        code.graph.nodes[v].update({k: x for k, x in d.items() if k != "bit_val"})
                now = [bool(x) for x in check_correction(code)]
                if now != before:
                    raise Violation("depends-on-other-attributes", f"round {i}: {before} became {now}")
                hist.append((r["mode"], sorted(f), r["labels"], str(r["dec"]), r["sanity"]))
                run.log.add(i, r["mode"], bool(all(plain)), patterns.bits(code, lat))
        run.nontrivial = len(seen) > 1 or planted
        if len(sc["rounds"]) > 12:
            run.probe("dozens_of_rounds")
        run.signature = digest(sc["code"], hist)
        run.sample = {"code": sc["code"], "rounds": [
            {k: (r[k][:30] if isinstance(r[k], list) else r[k]) for k in ("mode", "flips", "logical", "loop", "dec", "sanity")}
            for r in sc["rounds"]][:4]}

    @staticmethod
    def judge(lat, code, verdict, where):
        """Compare a verdict with the model; None if the state has odd stabilizers (C07)."""
        f = set(patterns.bits(code, lat))
        if lat.syndrome(f):
            return None
        par = lat.logical_parities(f)
        for a, v in par.items():
            if len(set(v)) > 1:
                raise AssertionError("parallel surfaces of an even state differ in the model")
        if verdict != lat.success(f):
            raise Violation("wrong-verdict", f"{where}: verdict {verdict}, surface parities {par}, "
                            f"odd qubits {[lat.qubits[q] for q in sorted(f)][:40]}")
        return par

    def shrink(self, sc):
        yield from patterns.shrink_rounds(sc)
        for i, r in enumerate(sc["rounds"]):
            for k in ("loop", "logical"):
                if r[k]:
                    rs = list(sc["rounds"])
                    rs[i] = {**r, k: []}
                    yield {**sc, "rounds": rs}


CHECK = C10()
