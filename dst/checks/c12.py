"""C12: macronode reduction gives the right labels, bits and probabilities."""
import math

import numpy as np

from .. import pipe
from ..core import Violation, digest
from ..image import Image
from ..runner import Check
from ..seams import Solo
from ..simrng import SimRNG
from .c11 import canon

ROOT = math.sqrt(math.pi)


def cond_err(var, val, terms=40):
    """P(odd multiple of sqrt(pi)) relative to the bin of val, given the outcome val."""
    n0 = math.floor(val / ROOT + 0.5)
    num = den = 0.0
    for k in range(n0 - terms, n0 + terms + 1):
        e = math.exp(-((val - k * ROOT) ** 2) / var)
        den += e
        if (k - n0) % 2:
            num += e
    return num / den if den else 0.0


def parity(val):
    t = val / ROOT + 0.5
    near = abs(t - round(t)) < 1e-5
    return math.floor(t) % 2, near


class C12(Check):
    id = "C12"
    runs = {"quick": 1000, "thorough": 20000}
    budget = {"quick": 240, "thorough": 2700}
    rule = ("digest of the code, layer configuration and scripted draws; nontrivial if both reduced labels or "
            "both bit values occurred")
    real = ["flamingpy.noise.CVMacroLayer", "flamingpy.codes", "flamingpy.cv"]
    stubs = ["the random generator (scripted draws)", "identity hashes"]
    assumptions = ["bits and probabilities are compared where the outcome is at least 1e-5 sqrt(pi) from a bin "
                   "edge, probabilities where the sums of the package, cut off at 9 sqrt(pi), converge",
                   "extent of at least 3 in periodic directions"]
    expected_probes = ["noiseless", "even_stabilizers", "all_p_macronode", "mixed_macronode", "bs_network",
                       "reused_layer", "compared_probabilities", "delta_zero", "padded", "periodic", "compared_bits", "outside_range"]

    def generate(self, rng, tier, idx):
        code = pipe.gen_code(rng, tier, min_periodic=3, cap=rng.choice([60, 110, 170]))
        m = rng.random()
        sc = {"code": code, "hash": rng.getrandbits(30), "seed": rng.getrandbits(40),
              "delta": rng.choice([0, 1e-3, 0.01, 0.05, 0.1, 0.3, 0.7]),
              "mode": "p_swap" if m < 0.6 else "states" if m < 0.8 else "none",
              "p_swap": rng.choice([0.05, 0.2, 0.5, 0.8, 0.95, 1]), "frac": rng.choice([0.05, 0.3, 0.8, 1]),
              "bs": rng.choice([None, None, None, "standard", "rotation"]),
              "noise": rng.choice(["on", "on", "off"]), "repeat": rng.choice([1, 1, 2, 3]),
              "extreme": rng.choice([0, 0, 0, 0.05]), "pick": rng.getrandbits(30)}
        return sc

    def execute(self, sc, run):
        with Solo(image=Image(hash_seed=sc["hash"])) as proc:
            img = proc.image
            code = pipe.make_code(img, sc["code"])
            lat = pipe.lattice(sc["code"])
            kw = {"delta": sc["delta"]}
            if sc["mode"] == "p_swap":
                kw["p_swap"] = sc["p_swap"]
            elif sc["mode"] == "states":
                n = len(code.graph.macronize(code.bound_str != "periodic"))
                r = np.random.default_rng(sc["pick"])
                kw["states"] = {"p": [int(x) for x in r.choice(n, size=int(sc["frac"] * n), replace=False)]}
            B = None
            if sc["bs"] == "standard":
                kw["bs_network"] = img.get("flamingpy.cv.ops").splitter_symp()
            elif sc["bs"] == "rotation":
                q, _ = np.linalg.qr(np.random.default_rng(sc["pick"]).normal(size=(4, 4)))
                B = np.zeros((8, 8))
                B[:4, :4] = B[4:, 4:] = q
                kw["bs_network"] = B.copy()
            if B is None:
                # beam splitters of arXiv:2104.03241 with all modes of a macronode in order 1..4
                B = four_splitter()
            elif sc["bs"] == "rotation":
                run.probe("bs_network")
            layer = img.get("flamingpy.noise").CVMacroLayer(code, **kw)
            run.probe("periodic" if code.bound_str == "periodic" else "padded")
            if not sc["delta"]:
                run.probe("delta_zero")
            off = sc["noise"] == "off"
            bits = set()
            for k in range(sc["repeat"]):
                script = dict(seed=sc["seed"] + k, zero="g" if off else "", extreme=sc["extreme"])
                rng = SimRNG(**script)
                layer.apply_noise(rng)
                if k:
                    run.probe("reused_layer")
                red = {v: dict(d) for v, d in code.graph.nodes.data()}
                mac = {v: dict(d) for v, d in layer.egraph.nodes.data()}
                self.labels(red, mac, run)
                for v, d in red.items():
                    if d.get("bit_val") not in (0, 1):
                        raise Violation("bit-value", f"{d.get('bit_val')!r} of {v}")
                    if not 0 <= d.get("p_phase_cond", -1) <= 0.5:
                        raise Violation("probability", f"{d.get('p_phase_cond')!r} of {v}")
                    bits.add(int(d["bit_val"]))
                if off and sc["bs"] != "rotation":
                    run.fault("noise_switched_off")
                    self.noiseless(lat, code, red, run)
                if all("body_index" in d for d in mac.values()):
                    self.reduction(layer.egraph, red, mac, sc, run)
                    if k == 0 and not rng.unmodelled:
                        self.response(layer, mac, script, rng, B, sc, run)
                run.log.add(k, digest([(str(v), int(d["bit_val"]), round(float(d["p_phase_cond"]), 6))
                                       for v, d in sorted(red.items())]))
                if sc["extreme"]:
                    run.fault("extreme_draws")
        run.nontrivial = len(bits) == 2 or len({d["state"] for d in red.values()}) == 2
        run.signature = digest({k: v for k, v in sc.items() if k != "hash"})
        run.sample = {k: v for k, v in sc.items() if k not in ("hash", "pick", "seed")}

    @staticmethod
    def centre(v):
        return tuple(int(round(x)) for x in v)

    def labels(self, red, mac, run):
        groups = {}
        for v, d in mac.items():
            if d.get("state") not in ("p", "GKP"):
                raise Violation("state-label", f"{d.get('state')!r} of micronode {v}")
            groups.setdefault(self.centre(v), []).append(d["state"])
        for v, d in red.items():
            g = groups[v]
            want = "GKP" if "GKP" in g else "p"
            if d.get("state") != want:
                raise Violation("reduced-label", f"{d.get('state')!r} of {v}, whose micronodes are {g}")
            run.probe("all_p_macronode" if want == "p" else "mixed_macronode" if "p" in g else "gkp_macronode")

    @staticmethod
    def noiseless(lat, code, red, run):
        """Without noise, stabilizers away from p-squeezed qubits are even."""
        run.probe("noiseless")
        G = code.graph
        for s, c in zip(lat.stabs, lat.centres):
            qs = [lat.qubits[i] for i in s]
            if any(red[w]["state"] == "p" for q in qs for w in G[q]):
                continue
            run.probe("even_stabilizers")
            if sum(int(red[q]["bit_val"]) for q in qs) % 2:
                raise Violation("odd-without-noise", f"stabilizer at {c}: bits "
                                f"{[(q, int(red[q]['bit_val'])) for q in qs]} without noise")

    def reduction(self, egraph, red, mac, sc, run):
        """Bit and probability as functions of labels and homodyne outcomes."""
        delta = sc["delta"]
        groups = {}
        for v, d in mac.items():
            groups.setdefault(self.centre(v), {})[int(d["body_index"])] = v
        for c, g in groups.items():
            if sorted(g) != [1, 2, 3, 4]:
                raise Violation("body-indices", f"macronode {c} has the body indices {sorted(g)}")
            if mac[g[1]]["state"] != "GKP" and any(mac[g[i]]["state"] == "GKP" for i in (2, 3, 4)):
                raise Violation("star-not-gkp", f"macronode {c}: the star is {mac[g[1]]['state']}")
        for c, g in groups.items():
            outcome = 2 * float(mac[g[1]]["hom_val_p"])
            num_p, zs, sure = 0, [], True
            for i in (1, 2, 3, 4):
                near = list(egraph[g[i]])
                if not near:
                    continue
                w = near[0]
                h = groups[self.centre(w)]
                m = {j: float(mac[h[j]]["hom_val_q"]) for j in (2, 3, 4)}
                z = {1: 0.0, 2: m[2] - m[4], 3: m[3] - m[4], 4: m[2] + m[3]}[int(mac[w]["body_index"])]
                if mac[w]["state"] == "p":
                    num_p += 1
                    outcome -= z
                else:
                    zs.append(z)
            bit = 0
            for z in [outcome] + zs:
                b, near_edge = parity(z)
                bit ^= b
                sure &= not near_edge
                if abs(z) > 8 * ROOT:
                    run.probe("outside_range")
            if sure:
                run.probe("compared_bits")
                if int(red[c]["bit_val"]) != bit:
                    raise Violation("reduced-bit", f"bit {red[c]['bit_val']} of {c}, outcomes {outcome} and {zs} give {bit}")
            var = 2 * (2 + num_p) * delta
            if sure and all(abs(z) + 5 * math.sqrt(v) < 9 * ROOT
                            for z, v in [(outcome, var)] + [(z, 2 * delta) for z in zs]):
                run.probe("compared_probabilities")
                p = 0.0
                if delta > 0:
                    p = sum(cond_err(2 * delta, z) for z in zs) + cond_err(var, outcome)
                p = min(p, 0.5)
                if abs(p - float(red[c]["p_phase_cond"])) > 1e-6 + 1e-4 * p:
                    raise Violation("reduced-probability", f"probability {red[c]['p_phase_cond']} of {c}, outcomes "
                                    f"{outcome}, {zs} with {num_p} p-squeezed neighbours give {p}")

    def response(self, layer, mac, script, rng, B, sc, run):
        """Response of the measured quadratures to single draws."""
        G = layer.egraph
        nodes = sorted(mac)
        pos = {v: i for i, v in enumerate(nodes)}
        groups = {}
        for v, d in mac.items():
            groups.setdefault(self.centre(v), {})[int(d["body_index"])] = v
        kind = {v: ("p" if int(mac[v]["body_index"]) == 1 else "q") for v in nodes}

        def measured():
            return np.array([float(G.nodes[v]["hom_val_" + kind[v]]) for v in nodes])

        def again(**kw):
            layer.apply_noise(SimRNG(**{**script, **kw}))
            return measured(), [G.nodes[v]["state"] for v in nodes]

        lab = [mac[v]["state"] for v in nodes]
        h0, l0 = again(zero="gui", extreme=0)
        if l0 != lab:
            return
        if np.abs(h0).max() > 1e-6:
            raise Violation("outcome-without-noise", f"{h0[np.abs(h0) > 1e-6][:4]} for zero draws")
        if rng.count["u"] != lab.count("p") or rng.count["i"] != lab.count("GKP") or rng.count["g"] != len(nodes):
            return  # drawn in another way; nothing to compare single draws with

        def column(j):
            """Measured quadratures if node j has q = 1."""
            q = np.zeros(len(nodes))
            p = np.zeros(len(nodes))
            q[j] = 1
            for w, d in G[nodes[j]].items():
                p[pos[w]] = d.get("weight", 1)
            out = np.zeros(len(nodes))
            touched = {self.centre(nodes[j])} | {self.centre(w) for w in G[nodes[j]]}
            for c in touched:
                idx = [pos[groups[c][i]] for i in (1, 2, 3, 4)]
                nq, np_ = B[:4, :4] @ q[idx], B[4:, 4:] @ p[idx]
                for i, a in enumerate(idx):
                    out[a] = np_[i] if kind[nodes[a]] == "p" else nq[i]
            return out

        r = np.random.default_rng(sc["pick"])
        for ch, val, scale, state in (("u", 0.5, ROOT, "p"), ("i", 0.75, ROOT, "GKP")):
            total = rng.count[ch]
            if not total:
                continue
            want = None
            seen = set()
            for k in r.choice(total, size=min(total, 5), replace=False):
                h, _ = again(zero="gui", extreme=0, replace={(ch, int(k)): val})
                got = canon([h / scale])
                if want is None:
                    want = {}
                    for j, s in enumerate(lab):
                        if s == state:
                            for t in canon([column(j)]):
                                want.setdefault(t, []).append(j)
                run.fault("draw_replaced")
                if got and not any(close(got[0], t) for t in want):
                    raise Violation("entanglement", f"{state} draw {k}: response "
                                    f"{[(nodes[i], round(x, 3)) for i, x in enumerate(got[0]) if x][:8]} is not "
                                    "the beam-splitter network applied to the CZ gates of a micronode")
                if not got:
                    raise Violation("entanglement", f"{state} draw {k} has no effect on any outcome")
                if got[0] in seen:
                    raise Violation("shared-draw", f"two {state} draws decide the same micronode")
                seen.add(got[0])
        for k in r.choice(rng.count["g"], size=min(rng.count["g"], 6), replace=False):
            h, _ = again(zero="gui", extreme=0, replace={("g", int(k)): 1.0})
            nz = np.nonzero(np.abs(h) > 1e-9)[0]
            run.fault("draw_replaced")
            if sc["delta"] == 0:
                if len(nz):
                    raise Violation("noise-at-zero-delta", f"{nodes[nz[0]]}")
                continue
            if len(nz) != 1 or abs(abs(h[nz[0]]) - math.sqrt(sc["delta"] / 2)) > 1e-4 * math.sqrt(sc["delta"] / 2):
                raise Violation("measurement-noise", f"gaussian draw {k}: {[(nodes[i], h[i]) for i in nz[:4]]}, expected "
                                f"one outcome to change by {math.sqrt(sc['delta'] / 2)}")

    def shrink(self, sc):
        for c in pipe.shrink_code(sc["code"]):
            yield {**sc, "code": c}
        for k, v in (("extreme", 0), ("bs", None), ("repeat", 1), ("mode", "none")):
            if sc[k] != v:
                yield {**sc, k: v}


def close(a, b):
    return all(abs(x - y) < 2.5e-3 for x, y in zip(a, b))


def four_splitter():
    """The four-splitter: balanced beam splitters on the pairs (2,1), (4,3), (3,1), (4,2)."""
    def bs(a, b):
        m = np.eye(4)
        t = 1 / math.sqrt(2)
        m[a, a], m[a, b], m[b, a], m[b, b] = t, -t, t, t
        return m

    o = bs(3, 1) @ bs(2, 0) @ bs(3, 2) @ bs(1, 0)
    out = np.zeros((8, 8))
    out[:4, :4] = out[4:, 4:] = o
    return out


CHECK = C12()
