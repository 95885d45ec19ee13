"""C09: the MWPM recovery has minimum weight on every backend."""
import functools

import networkx as nx

from .. import patterns, pipe
from ..core import Violation, digest
from ..image import Image
from ..inject import Injected, LineTrace
from ..runner import Check
from ..seams import Solo


def optimum(lat, odd, weights):
    """Minimum weight of an explanation of the syndrome: subset DP, matching for many defects."""
    if len(odd) <= 11:
        return lat.optimum(odd, weights)
    dij, bd = lat.distances(weights)
    odd = sorted(odd)
    g = nx.Graph()
    for i, s in enumerate(odd):
        d = dij({s: 0})
        for t in odd[i + 1:]:
            if t in d:
                g.add_edge(("s", s), ("s", t), weight=d[t])
        if s in bd:
            g.add_edge(("s", s), ("b", s), weight=bd[s])
    if bd:
        for i, s in enumerate(odd):
            for t in odd[i + 1:]:
                g.add_edge(("b", s), ("b", t), weight=0)
    return sum(g.edges[e]["weight"] for e in nx.min_weight_matching(g))


class C09(Check):
    id = "C09"
    needs_lemon = True
    runs = {"quick": 2500, "thorough": 60000}
    budget = {"quick": 200, "thorough": 2700}
    hang = 60
    rule = ("digest of the code and the sequence of (bit pattern, weights); nontrivial if a decoded round "
            "had at least two odd stabilizers")
    real = ["flamingpy.codes", "flamingpy.decoders.mwpm", "lemonpy (compiled from the current sources)",
            "networkx and rustworkx matching"]
    stubs = ["the noise (patterns are put on the code directly)", "identity hashes",
             "exceptions at executed lines of the package"]
    assumptions = ["extent of at least 3 in periodic directions, where smaller lattices have parallel edges",
                   "weights that are not integers are compared for the networkx stabilizer graph only "
                   "(the others document integer weights), with a relative tolerance of 1e-7",
                   "networkx's min_weight_matching is right, for syndromes of more than 11 defects"]
    expected_probes = ["dozens_of_rounds", "networkx_networkx", "networkx_rustworkx", "networkx_lemon", "rustworkx_networkx",
                       "rustworkx_rustworkx", "rustworkx_lemon", "uniform", "blueprint_integer",
                       "blueprint_float", "boundary_used", "many_defects", "after_other_weights",
                       "large_weights_nearly_equal", "same_weights_elsewhere"]

    def generate(self, rng, tier, idx):
        code = pipe.gen_code(rng, tier, min_periodic=3, big=tier == "thorough" or rng.random() < 0.2,
                             bounds=["open", "open", "toric", "periodic"])
        if idx % 41 == 11:
            # many rounds on one code
            code = pipe.gen_code(rng, tier, cap=110, min_periodic=3)
        lat = pipe.lattice(code)
        rounds = []
        for _ in range(rng.randint(13, 40) if idx % 41 == 11 else rng.choice([1, 2, 3])):
            w = patterns.gen_decoder(rng, "networkx", True, uf=False, only="MWPM")["w"]
            rounds.append({"flips": patterns.gen_flips(rng, lat, rng.choice([6, 10, 10, 24])),
                           "labels": patterns.gen_labels(rng, lat), "analog": True, "w": w,
                           "seed": rng.getrandbits(30), "others": 1,
                           "order": rng.sample(range(6), 6), "keep": rng.random() < 0.3,
                           "abort": rng.random() if rng.random() < 0.15 else None})
            if w.get("integer") and w.get("prob_precomputed") and rng.random() < 0.3:
                rounds[-1]["ties"] = m = rng.choice([1, 2, 4]) * 10 ** rng.randint(3, 9)
                rounds[-1]["w"] = {**w, "multiplier": m}
            if len(rounds) > 1 and rng.random() < 0.2:
                rounds[-1].update(patterns.moved(rng, rng.choice(rounds[:-1])))
        return {"code": code, "rounds": rounds, "hash": rng.getrandbits(30)}

    def execute(self, sc, run):
        lat = pipe.lattice(sc["code"])
        big = False
        hist = []
        with Solo(image=Image(hash_seed=sc["hash"])) as p:
            img = p.image
            codes = {b: pipe.make_code(img, {**sc["code"], "backend": b}) for b in ("networkx", "rustworkx")}
            combos = [(s, m) for s in ("networkx", "rustworkx") for m in ("networkx", "rustworkx", "lemon")]
            last = None
            for i, r in enumerate(sc["rounds"]):
                rounded = r["w"].get("method") != "blueprint" or bool(r["w"].get("integer"))
                ref = {}
                for k in r["order"]:
                    stab, match = combos[k]
                    if not rounded and (stab == "rustworkx" or match == "rustworkx"):
                        continue
                    code = codes[stab]
                    dec = {"decoder": "MWPM", "w": r["w"], "d": {"backend": match, "as_class": r["seed"] % 5 == 2}}
                    patterns.apply_state(code, lat, r)
                    if r.get("abort") is not None:
                        with LineTrace.scripted(r["abort"], 2500):
                            try:
                                patterns.decode(img, code, dec)
                            except Injected:
                                run.fault("exception_in_decoding")
                        patterns.apply_state(code, lat, r)
                    before = set(patterns.bits(code, lat))
                    patterns.decode(img, code, dec)
                    flipped = before ^ set(patterns.bits(code, lat))
                    ws = [code.graph.nodes[q]["weight"] for q in lat.qubits]
                    if not ref:
                        odd = lat.syndrome(before)
                        ref = {"odd": odd, "w": ws, "best": optimum(lat, odd, ws)}
                        if any(len(lat.qstabs[q]) == 1 for q in flipped):
                            run.probe("boundary_used")
                        if len(odd) > 11:
                            run.probe("many_defects")
                        big |= len(odd) > 1
                    if lat.syndrome(flipped) != ref["odd"]:
                        raise Violation("not-an-explanation", f"round {i} {stab}/{match}: {sorted(flipped)}")
                    got = sum(ref["w"][q] for q in flipped)
                    tol = 1e-9 if rounded else 1e-7 * max(1.0, ref["best"])
                    if abs(got - ref["best"]) > tol:
                        raise Violation(
                            "not-minimum", f"round {i}: stabilizer graph {stab}, matching {match}, {r['w']}: "
                            f"recovery {[lat.qubits[q] for q in sorted(flipped)]} has weight {got}, the "
                            f"minimum is {ref['best']}; syndrome {[lat.centres[s] for s in sorted(ref['odd'])]}")
                    run.probe(f"{stab}_{match}")
                if r.get("shift"):
                    run.probe("same_weights_elsewhere")
                if r.get("ties"):
                    run.probe("large_weights_nearly_equal")
                kind = "uniform" if r["w"].get("method") != "blueprint" else (
                    "blueprint_integer" if rounded else "blueprint_float")
                run.probe(kind)
                if last not in (None, kind):
                    run.probe("after_other_weights")
                last = kind
                hist.append((r["flips"], str(r["w"]), r["seed"], r["labels"]))
                run.log.add(i, kind, len(ref["odd"]), round(float(ref["best"]), 6))
        run.nontrivial = big
        if len(sc["rounds"]) > 12:
            run.probe("dozens_of_rounds")
        run.signature = digest(sc["code"], hist)
        run.sample = {"code": sc["code"], "rounds": [
            {"flips": r["flips"][:30], "p_labelled": len(r["labels"]), "w": r["w"]} for r in sc["rounds"]]}

    def shrink(self, sc):
        yield from patterns.shrink_rounds(sc)
        for i, r in enumerate(sc["rounds"]):
            if len(r["order"]) > 1:
                for k in r["order"]:
                    rs = list(sc["rounds"])
                    rs[i] = {**r, "order": [k]}
                    yield {**sc, "rounds": rs}


CHECK = C09()
