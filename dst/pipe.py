"""Code, noise and decoder configurations shared by the checks."""
import random

import numpy as np

from .core import Discard
from .lattice import Lattice

BOUNDS = ["open", "toric", "periodic"]


def gen_code(rng, tier="quick", bounds=BOUNDS, big=False, min_periodic=2, cap=None, backend=None,
             cube=0.4, min_dim=2):
    """A random SurfaceCode configuration."""
    ec = rng.choice(["primal", "dual"])
    hi = 5 if big else 4
    cap = cap or (700 if tier == "thorough" or big else 330)
    if bounds == ["periodic"]:
        cap = max(cap, 6 * min_periodic**3)
    while True:
        b = rng.choice(bounds)
        if rng.random() < cube:
            d = rng.choice([2, 3, 3, 3, 4] + ([5] if big else []))
            dims = [d] * 3
            distance = d
        else:
            dims = [rng.randint(min_dim, hi) for _ in range(3)]
            if rng.random() < 0.12:
                # one long direction
                k = rng.randrange(3)
                dims = [rng.choice([2, 2, 3]) for _ in range(3)]
                rest = dims[0] * dims[1] * dims[2] // dims[k]
                dims[k] = rng.randint(5, max(5, min(20, cap // (6 * rest))))
            distance = list(dims)
        lo = [min_dim] * 3
        if b == "periodic":
            lo = [min_periodic] * 3
        elif b == "toric":
            lo = [min_periodic, min_periodic, min_dim]
        if any(x < y for x, y in zip(dims, lo)):
            continue
        if 6 * dims[0] * dims[1] * dims[2] > cap:
            continue
        break
    return {"distance": distance, "ec": ec, "boundaries": b,
            "backend": backend or rng.choice(["rustworkx", "rustworkx", "networkx"])}


def code_args(cfg):
    a = dict(cfg)
    if isinstance(a["distance"], list):
        a["distance"] = tuple(a["distance"])
    return a


def make_code(img, cfg):
    return img.get("flamingpy.codes").SurfaceCode(**code_args(cfg))


_lat = {}


def lattice(cfg):
    d = cfg["distance"]
    dims = (d,) * 3 if isinstance(d, int) else tuple(d)
    key = (dims, cfg["ec"], cfg["boundaries"])
    if key not in _lat:
        if len(_lat) > 60:
            _lat.clear()
        _lat[key] = Lattice(*key)
    return _lat[key]


def shrink_code(cfg):
    out = []
    d = cfg["distance"]
    dims = [d] * 3 if isinstance(d, int) else list(d)
    if isinstance(d, int) and d > 2:
        out.append({**cfg, "distance": d - 1})
    for i in range(3):
        if dims[i] > 2:
            n = list(dims)
            n[i] -= 1
            out.append({**cfg, "distance": n})
    if cfg.get("backend") == "networkx":
        out.append({**cfg, "backend": "rustworkx"})
    return out


def set_bits(code, bits):
    """Give every qubit of the code a bit value (1 for those in bits)."""
    nodes = code.graph.nodes
    for n in nodes:
        nodes[n]["bit_val"] = 1 if n in bits else 0


def clean_state(code):
    """The node attributes a user can see, in a comparable form."""
    return {n: {k: plain(v) for k, v in d.items()} for n, d in code.graph.nodes.data()}


def plain(v):
    if isinstance(v, (np.integer, np.bool_)):
        return int(v)
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, np.floating):
        return float(v)
    if isinstance(v, np.ndarray):
        return v.tolist()
    return v


def pt(x):
    return tuple(x)


# ------------------------------------------------------------------- noise and decoders
def gen_noise(rng, kinds=("iid", "cv", "cv", "macro"), strength=None):
    kind = rng.choice(kinds)
    if kind == "iid":
        return {"kind": kind, "args": {"error_probability": rng.choice([0.01, 0.05, 0.1, 0.2, 0.5, 0, 1])}}
    args = {"delta": rng.choice([0.01, 0.05, 0.1, 0.2, 0.5, 1.0])}
    m = rng.random()
    if m < 0.45:
        args["p_swap"] = rng.choice([0, 0.05, 0.2, 0.5, 0.9, 1])
    elif m < 0.7:
        args["states"] = {"p": "random", "seed": rng.getrandbits(20), "frac": rng.choice([0.02, 0.2, 0.6])}
    if kind == "cv" and rng.random() < 0.7:
        args["sampling_order"] = rng.choice(["initial", "two-step"])
    return {"kind": kind, "args": args}


def noise_args(spec, n):
    """Keyword arguments for a layer on a graph with n nodes."""
    a = dict(spec["args"])
    s = a.get("states")
    if s is not None and s.get("p") == "random":
        r = random.Random(s["seed"])
        a["states"] = {"p": sorted(r.sample(range(n), min(n, max(1, int(s["frac"] * n)))))}
    return a


NOISE = {"iid": "IidNoise", "cv": "CVLayer", "macro": "CVMacroLayer"}


def make_noise(img, code, spec):
    cls = getattr(img.get("flamingpy.noise"), NOISE[spec["kind"]])
    n = len(code.graph)
    if spec["kind"] == "macro":
        n *= 4  # micronodes; indices beyond the macronode graph are never drawn for p_swap
        if "states" in spec["args"]:
            n = len(code.graph.macronize(code.bound_str != "periodic"))
    return cls(code, **noise_args(spec, n))


def gen_decoder(rng, noise_kind, stab_backend, lemon=True, delta=0.1, uf=True):
    """A decoder with options that suit the noise."""
    if uf and rng.random() < 0.35:
        return {"decoder": "UF", "w": rng.choice([{}, {"method": "uniform"}]), "d": {}}
    w = rng.choice([{}, {"method": "uniform"}])
    if noise_kind in ("cv", "macro") and rng.random() < 0.7:
        w = {"method": "blueprint"}
        if noise_kind == "macro":
            w["prob_precomputed"] = True
        else:
            w["delta"] = delta
        if rng.random() < 0.5:
            w["integer"] = True
            w["multiplier"] = rng.choice([1, 5, 100])
    backends = ["networkx", "rustworkx", "lemon" if lemon else "networkx"]
    if w.get("method") == "blueprint" and not w.get("integer") and stab_backend == "networkx":
        backends = ["networkx", "networkx", "lemon" if lemon else "networkx"]
        return {"decoder": "MWPM", "w": w, "d": {"backend": rng.choice(backends)}}
    d = rng.choice([{}, {"backend": rng.choice(backends)}, {"backend": rng.choice(backends)}])
    return {"decoder": "MWPM", "w": w, "d": d}


def stab_weights(code):
    """The weights the decoders read: per edge of each stabilizer graph, keyed by its qubit."""
    out = {}
    for ec in code.ec:
        g = getattr(code, ec + "_stab_graph")
        for a, b in g.edges():
            d = g.edge_data(a, b)
            q = d.get("common_vertex")
            out.setdefault(str(q), []).append(plain(d.get("weight")))
    return {k: sorted(map(str, v)) for k, v in out.items()}


def snapshot(graph):
    """Comparable copy of all node attributes of a graph."""
    return {str(n): {k: plain(v) for k, v in sorted(d.items())} for n, d in graph.nodes.data()}


def trial(img, code, noise, dec, gen, apply=True):
    """Noise, decoding and verdict; everything a user can observe of them."""
    out = {}
    if apply:
        noise.apply_noise(gen)
    out["noise"] = snapshot(code.graph)
    if hasattr(noise, "egraph") and noise.egraph is not code.graph:
        out["macro"] = snapshot(noise.egraph)
    correct = img.get("flamingpy.decoders.decoder").correct
    verdict = correct(code, decoder=dec["decoder"], weight_options=dict(dec["w"]) if dec["w"] else None,
                      decoder_opts=dict(dec["d"]) if dec["d"] else None)
    after = snapshot(code.graph)
    out["recovery"] = sorted(n for n in after if after[n].get("bit_val") != out["noise"][n].get("bit_val"))
    out["after"] = after
    out["weights"] = stab_weights(code)
    out["verdict"] = bool(verdict)
    if gen is not None:
        out["generator"] = repr(gen.bit_generator.state)
    return out


def first_difference(a, b, path=""):
    """Where two outcomes differ, for messages."""
    if type(a) is not type(b):
        return f"{path}: {str(a)[:80]} / {str(b)[:80]}"
    if isinstance(a, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in a or k not in b:
                return f"{path}.{k}: only on one side"
            d = first_difference(a[k], b[k], f"{path}.{k}")
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return f"{path}: lengths {len(a)} / {len(b)}: {str(a)[:200]} / {str(b)[:200]}"
        for i, (x, y) in enumerate(zip(a, b)):
            d = first_difference(x, y, f"{path}[{i}]")
            if d:
                return d
        return None
    return None if same(a, b) else f"{path}: {str(a)[:120]} / {str(b)[:120]}"


def same(a, b):
    return a == b or (a != a and b != b)


def gen_pipeline(rng, tier="quick", kinds=("iid", "cv", "cv", "macro"), cap=None, lemon=True, uf=True, big=False):
    noise = gen_noise(rng, kinds)
    macro = noise["kind"] == "macro"
    code = gen_code(rng, tier, min_periodic=3 if macro else 2, cap=cap or (170 if macro else None), big=big)
    dec = gen_decoder(rng, noise["kind"], code["backend"], lemon, noise["args"].get("delta", 0.1), uf=uf)
    return {"code": code, "noise": noise, "dec": dec}


def shrink_pipeline(p):
    for c in shrink_code(p["code"]):
        yield {**p, "code": c}
    if p["noise"]["kind"] == "iid" and p["noise"]["args"]["error_probability"] > 0.05:
        yield {**p, "noise": {"kind": "iid", "args": {"error_probability": 0.05}}}
    for k in ("states", "p_swap", "sampling_order"):
        if k in p["noise"]["args"]:
            a = {x: y for x, y in p["noise"]["args"].items() if x != k}
            yield {**p, "noise": {**p["noise"], "args": a}}
    for k in list(p["dec"]["w"]):
        if k in ("integer", "multiplier"):
            yield {**p, "dec": {**p["dec"], "w": {x: y for x, y in p["dec"]["w"].items() if x != k}}}
