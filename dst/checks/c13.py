"""C13: IID noise flips each qubit independently with its own draw."""
import math

import numpy as np

from .. import pipe
from ..core import Violation, digest
from ..image import Image
from ..runner import Check
from ..seams import Solo
from ..simrng import SimRNG


class C13(Check):
    id = "C13"
    runs = {"quick": 2500, "thorough": 60000}
    budget = {"quick": 150, "thorough": 2400}
    rule = ("digest of code, probability and scripted draws; nontrivial if both bit values occurred or the "
            "probability was rejected")
    real = ["flamingpy.noise.IidNoise", "flamingpy.codes"]
    stubs = ["the random generator (scripted draws)", "identity hashes"]
    assumptions = ["the false-alarm probability of the statistical comparison (real generator, fixed seeds) "
                   "is below 1e-9 per run"]
    expected_probes = ["p_zero", "p_one", "rejected", "single_draw_replaced", "extreme_draws", "reused_layer",
                       "statistics", "earlier_bits", "two_layers"]

    def generate(self, rng, tier, idx):
        p = rng.choice([0, 1, 0.0, 1.0, 0.5, 0.01, 0.1, 0.3, 0.9, 1e-12, 1 - 1e-12, rng.random()])
        return {"code": pipe.gen_code(rng, tier, big=rng.random() < 0.1), "p": p, "seed": rng.getrandbits(40),
                "extreme": rng.choice([0, 0, 0.1, 1.0]), "repeat": rng.choice([1, 1, 2, 3]),
                "pre": rng.choice(["none", "ones", "labels"]), "replace": rng.getrandbits(30),
                "bad": rng.choice([-1e-12, -0.5, 1 + 1e-9, 2, -3, float("inf"), float("-inf"), 100, "nan"]),
                "stat": rng.random() < 0.1, "hash": rng.getrandbits(30)}

    def execute(self, sc, run):
        with Solo(image=Image(hash_seed=sc["hash"])) as proc:
            img = proc.image
            code = pipe.make_code(img, sc["code"])
            Iid = img.get("flamingpy.noise").IidNoise
            nodes = code.graph.nodes
            p = sc["p"]
            try:
                Iid(code, float(sc["bad"]))
            except Exception:
                run.probe("rejected")
            else:
                raise Violation("accepted", f"probability {sc['bad']}")
            noise = Iid(code, p)
            other = Iid(code, 1 - p)
            if sc["pre"] != "none":
                for v in nodes:
                    nodes[v]["bit_val"] = 1
                    if sc["pre"] == "labels":
                        nodes[v].update(state="p", hom_val_p=0.3, weight=3, p_phase_cond=0.2)
                run.probe("earlier_bits")
            before = self.rest(code)
            log = []
            for k in range(sc["repeat"]):
                rng = SimRNG(sc["seed"] + k, extreme=sc["extreme"])
                noise.apply_noise(rng)
                if k:
                    run.probe("reused_layer")
                log.append(self.bits(code))
                self.expect(sc, run, noise, rng, code, p, k)
            # a second layer with another probability on the same code has no memory either
            rng = SimRNG(sc["seed"] + 99)
            other.apply_noise(rng)
            run.probe("two_layers")
            self.expect(sc, run, other, rng, code, 1 - p, 99)
            if self.rest(code) != before:
                raise Violation("other-attributes-changed", pipe.first_difference(before, self.rest(code)))
            if sc["stat"]:
                self.statistics(sc, run, noise, code, p)
        bits = log[-1]
        run.nontrivial = len(set(bits.values())) == 2 or p in (0, 1)
        run.signature = digest(sc["code"], p, sc["seed"], sc["extreme"])
        run.log.add("bits", digest(log))
        run.sample = {"code": sc["code"], "p": p, "ones": sum(bits.values()), "qubits": len(bits)}

    @staticmethod
    def bits(code):
        out = {}
        for v, d in code.graph.nodes.data():
            b = d.get("bit_val")
            if b not in (0, 1):
                raise Violation("bit-value", f"{b!r} of {v}")
            out[v] = int(b)
        return out

    @staticmethod
    def rest(code):
        return {str(v): {k: pipe.plain(x) for k, x in d.items() if k != "bit_val"}
                for v, d in code.graph.nodes.data()}

    def expect(self, sc, run, noise, rng, code, p, k):
        bits = self.bits(code)
        n, ones = len(bits), sum(bits.values())
        if p == 0:
            run.probe("p_zero")
            if ones:
                raise Violation("flip-at-zero", f"{ones} of {n} flipped")
        if p == 1:
            run.probe("p_one")
            if ones != n:
                raise Violation("no-flip-at-one", f"{ones} of {n} flipped")
        if sc["extreme"]:
            run.probe("extreme_draws")
            run.fault("extreme_draws")
        if rng.unmodelled or rng.count["g"] or rng.count["i"] or rng.count["l"]:
            sc["stat"] = True
            return
        if rng.count["u"] != n:
            raise Violation("draws", f"{rng.count['u']} draws for {n} qubits")
        if not 0 < p < 1:
            return
        # replacing one draw flips exactly one qubit, a different one for every draw
        r = np.random.default_rng(sc["replace"] + k)
        hit = {}
        for j in r.choice(n, size=min(n, 12), replace=False):
            noise.apply_noise(SimRNG(rng.seed, extreme=sc["extreme"], replace={("u", int(j)): 0.0}))
            low = self.bits(code)
            noise.apply_noise(SimRNG(rng.seed, extreme=sc["extreme"], replace={("u", int(j)): 1 - 2**-53}))
            high = self.bits(code)
            diff = [v for v in low if low[v] != high[v]]
            if len(diff) != 1 or low[diff[0]] != 1:
                raise Violation("not-one-draw-per-qubit", f"draw {j} decides the bits of {diff[:6]}")
            if diff[0] in hit:
                raise Violation("shared-draw", f"draws {hit[diff[0]]} and {j} decide {diff[0]}")
            hit[diff[0]] = int(j)
            # the threshold is the requested probability
            for eps, want in ((-1e-13, 1), (1e-13, 0)):
                u = p + eps
                if 0 <= u < 1 and len(hit) <= 4 and u != p:
                    noise.apply_noise(SimRNG(rng.seed, replace={("u", int(j)): u}))
                    if self.bits(code)[diff[0]] != want:
                        raise Violation("threshold", f"draw {u} at probability {p} gives {1 - want}")
        run.probe("single_draw_replaced", len(hit))
        run.fault("draw_replaced", 2 * len(hit))

    def statistics(self, sc, run, noise, code, p):
        """The real generator: overall rate and pairwise agreement of successive applications."""
        gen = np.random.default_rng(sc["seed"])
        M = 60
        rows = []
        for _ in range(M):
            noise.apply_noise(gen)
            rows.append(list(self.bits(code).values()))
        x = np.array(rows, dtype=float)
        run.probe("statistics")
        N = x.size
        tol = 7 * math.sqrt(max(p * (1 - p), 1e-12) / N) + 40 / N
        if abs(x.mean() - p) > tol:
            raise Violation("rate", f"flip rate {x.mean()} at probability {p}")
        same = (x[1:] == x[:-1]).mean()
        want = p * p + (1 - p) ** 2
        if abs(same - want) > 7 * math.sqrt(max(want * (1 - want), 1e-12) / N) * 1.5 + 40 / N:
            raise Violation("dependent-trials", f"agreement {same} of successive trials, expected {want}")

    def shrink(self, sc):
        for c in pipe.shrink_code(sc["code"]):
            yield {**sc, "code": c}
        if sc["repeat"] > 1:
            yield {**sc, "repeat": 1}
        if sc["pre"] != "none":
            yield {**sc, "pre": "none"}
        if sc["extreme"]:
            yield {**sc, "extreme": 0}


CHECK = C13()
