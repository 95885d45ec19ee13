"""C08: every error within the code distance is corrected."""
import random

from .. import patterns, pipe
from ..core import Violation, digest
from ..image import Image
from ..inject import Injected, LineTrace
from ..runner import Check
from ..seams import Solo


def gen_error(rng, lat, e_max):
    """(labels, flips) with 2 s + e < D; flips include those of the erased qubits."""
    D = lat.distance
    labels, er = [], []
    if e_max > 0 and rng.random() < 0.75:
        nb = patterns.neighbours(lat)
        want = rng.choice([e_max, max(1, e_max - 2), rng.randint(1, e_max)])
        mode = rng.choice(["line", "line", "random", "cluster", "labels"])
        for _ in range(12):
            if mode == "labels":
                cand = set(tuple(v) for v in rng.sample(sorted(nb), min(len(nb), rng.randint(2, 2 * want + 1))))
            else:
                if mode == "line":
                    line = lat.logical_line(rng.choice(lat.crossing), rng.randrange(1000))
                    if rng.random() < 0.5 and len(line) > want:
                        k = rng.randrange(len(line))
                        tgt = [line[(k + j) % len(line)] for j in range(want)]
                    else:
                        tgt = rng.sample(line, min(want, len(line)))
                elif mode == "cluster":
                    tgt = cluster(rng, lat, want)
                else:
                    tgt = rng.sample(range(lat.n), min(lat.n, want))
                cand = set()
                for q in tgt:
                    n = nb[lat.qubits[q]]
                    cand |= set(rng.sample(n, min(len(n), rng.choice([2, 2, 3, 4]))))
            e = patterns.erased(lat, cand)
            if len(e) <= e_max and len(e) > len(er):
                labels, er = sorted(cand), e
                if len(e) >= want:
                    break
    s_max = (D - 1 - len(er)) // 2
    s = rng.choice([s_max, s_max, rng.randint(0, s_max)])
    rest = [q for q in range(lat.n) if q not in er]
    mode = rng.choice(["line", "line", "random", "cluster", "boundary"])
    if mode == "line":
        line = [q for q in lat.logical_line(rng.choice(lat.crossing), rng.randrange(1000)) if q in set(rest)]
        err = rng.sample(line, min(s, len(line)))
    elif mode == "cluster":
        err = [q for q in cluster(rng, lat, s) if q not in er]
    elif mode == "boundary":
        b = [q for q in rest if len(lat.qstabs[q]) == 1] or rest
        err = rng.sample(b, min(s, len(b)))
    else:
        err = rng.sample(rest, min(s, len(rest)))
    p = rng.choice([0, 0.5, 0.5, 1])
    err = set(err) | {q for q in er if rng.random() < p}
    return labels, sorted(err), len(er)


def cluster(rng, lat, k):
    """k different qubits that are close together."""
    out = []
    s = rng.randrange(len(lat.stabs))
    for _ in range(200):
        if len(out) >= k:
            break
        q = rng.choice(lat.stabs[s])
        if q not in out:
            out.append(q)
        s = rng.choice(lat.qstabs[q])
    return out


class C08(Check):
    id = "C08"
    needs_lemon = True
    runs = {"quick": 8000, "thorough": 300000}
    budget = {"quick": 240, "thorough": 2700}
    hang = 60
    rule = ("digest of the code and the sequence of (background, errors, erasures, decoder); nontrivial if "
            "a round had an error or an erasure")
    real = ["flamingpy.codes", "flamingpy.decoders", "lemonpy (compiled from the current sources)",
            "networkx and rustworkx matching"]
    stubs = ["the noise (errors and erasures are put on the code directly)", "identity hashes",
             "exceptions at executed lines of the package"]
    assumptions = ["extent of at least 3 in periodic directions, where smaller lattices have parallel edges"]
    expected_probes = ["dozens_of_rounds", "UF", "networkx", "rustworkx", "lemon", "full_weight_errors", "full_erasures",
                       "errors_and_erasures", "background", "boundary_error", "distance_5"]

    def generate(self, rng, tier, idx):
        # distances of 5 need larger lattices than the other checks use
        big = rng.random() < (0.6 if tier == "thorough" else 0.35)
        code = self.code(rng, tier, big)
        lat = pipe.lattice(code)
        rounds = []
        for _ in range(rng.randint(13, 60) if idx % 41 == 11 else rng.choice([3, 5, 8, 12])):
            dec = patterns.gen_decoder(rng, code["backend"], False)
            uf = dec["decoder"] == "UF"
            labels, err, e = gen_error(rng, lat, lat.distance - 1 if uf else 0)
            back = sorted(lat.loop(rng, rng.randint(1, 5))) if rng.random() < 0.5 else []
            rounds.append({"flips": err, "labels": labels, "back": back, "dec": dec,
                           "seed": rng.getrandbits(30), "others": 1, "after": rng.random() < 0.5,
                           "abort": rng.random() if rng.random() < 0.08 else None})
        return {"code": code, "rounds": rounds, "hash": rng.getrandbits(30)}

    @staticmethod
    def code(rng, tier, big):
        """Lattices with a large distance relative to their size."""
        ec = rng.choice(["primal", "dual"])
        b = rng.choice(["open", "open", "toric", "periodic"])
        backend = rng.choice(["rustworkx", "rustworkx", "networkx"])
        if not big and rng.random() < 0.4:
            d = rng.choice([3, 3, 4])
            return {"distance": d, "ec": ec, "boundaries": b, "backend": backend}
        while True:
            hi = 8 if b == "open" else 5
            dims = [rng.randint(2, 4) for _ in range(3)]
            for a in {"open": [0] if ec == "primal" else [1], "toric": [0, 1], "periodic": [0, 1, 2]}[b]:
                dims[a] = rng.randint(3, hi)
            if b != "open":
                dims[0], dims[1] = max(3, dims[0]), max(3, dims[1])
            if b == "periodic":
                dims[2] = max(3, dims[2])
            if 6 * dims[0] * dims[1] * dims[2] <= (760 if big else 330):
                return {"distance": dims, "ec": ec, "boundaries": b, "backend": backend}

    def execute(self, sc, run):
        lat = pipe.lattice(sc["code"])
        D = lat.distance
        hist = []
        with Solo(image=Image(hash_seed=sc["hash"])) as p:
            img = p.image
            code = pipe.make_code(img, sc["code"])
            for i, r in enumerate(sc["rounds"]):
                dec = r["dec"]
                er = patterns.erased(lat, r["labels"]) if dec["decoder"] == "UF" else []
                s = len(set(r["flips"]) - set(er))
                if 2 * s + len(er) >= D:
                    continue
                # the start of a round: the state the previous one left, or a fixed background
                back = set(r["back"])
                if r["after"] and i and hist:
                    back ^= set(patterns.bits(code, lat))
                    if lat.syndrome(back) or not lat.success(back):
                        back = set(r["back"])
                flips = sorted(back ^ set(r["flips"]))
                patterns.apply_state(code, lat, {**r, "flips": flips})
                if r.get("abort") is not None:
                    with LineTrace.scripted(r["abort"]):
                        try:
                            patterns.decode(img, code, dec)
                        except Injected:
                            run.fault("exception_in_decoding")
                    patterns.apply_state(code, lat, {**r, "flips": flips})
                ok = patterns.decode(img, code, dec)
                after = set(patterns.bits(code, lat))
                if not ok or lat.syndrome(after) or not lat.success(after):
                    qs = [lat.qubits[q] for q in r["flips"]]
                    raise Violation(
                        "not-corrected", f"round {i}: distance {D}, errors {qs}, erased "
                        f"{[lat.qubits[q] for q in er]}, {dec}: verdict {bool(ok)}, residual logical "
                        f"parities {lat.logical_parities(after)}")
                self.probes(run, lat, r, er, s, back)
                hist.append((r["flips"], r["labels"], sorted(back), str(dec)))
                run.log.add(i, len(er), s, sorted(after))
        if not hist:
            return
        run.nontrivial = any(h[0] or h[1] for h in hist)
        if len(sc["rounds"]) > 12:
            run.probe("dozens_of_rounds")
        run.signature = digest(sc["code"], hist)
        run.sample = {"code": sc["code"], "rounds": [
            {k: r[k] for k in ("flips", "labels", "back", "dec")} for r in sc["rounds"]][:4]}

    @staticmethod
    def probes(run, lat, r, er, s, back):
        dec, D = r["dec"], lat.distance
        run.probe("UF" if dec["decoder"] == "UF" else dec["d"].get("backend", "rustworkx"))
        if not er and s and 2 * s + 2 >= D:
            run.probe("full_weight_errors")
        if len(er) == D - 1:
            run.probe("full_erasures")
        if er and s:
            run.probe("errors_and_erasures")
        if back:
            run.probe("background")
        if any(len(lat.qstabs[q]) == 1 for q in list(er) + list(r["flips"])):
            run.probe("boundary_error")
        run.probe(f"distance_{D}")

    def shrink(self, sc):
        for c in patterns.shrink_rounds(sc):
            yield c
        for i, r in enumerate(sc["rounds"]):
            if r["back"]:
                rs = list(sc["rounds"])
                rs[i] = {**r, "back": []}
                yield {**sc, "rounds": rs}
            if r["after"]:
                rs = list(sc["rounds"])
                rs[i] = {**r, "after": False}
                yield {**sc, "rounds": rs}


CHECK = C08()
