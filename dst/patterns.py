"""Error, erasure and outcome patterns, and the documented weight functions (independent model)."""
import functools
import math
import random

from .lattice import graph_edges


@functools.lru_cache(maxsize=64)
def _neighbours(dims, ec, boundaries):
    nb = {}
    for a, b in graph_edges(dims, ec, boundaries):
        nb.setdefault(a, []).append(b)
        nb.setdefault(b, []).append(a)
    return {k: sorted(v) for k, v in nb.items()}


def neighbours(lat):
    """Graph-state neighbours of every node of the graph."""
    return _neighbours(lat.dims, lat.ec, lat.boundaries)


# -------------------------------------------------------------------------- bit patterns
def gen_flips(rng, lat, max_odd=None):
    """A set of flipped qubits (indices), from sparse to everything, with structure."""
    for _ in range(60):
        f = set(_flips(rng, lat))
        if max_odd is None or len(lat.syndrome(f)) <= max_odd:
            return sorted(f)
    return sorted(_flips(rng, lat, "few"))


def _flips(rng, lat, kind=None):
    n = lat.n
    kind = kind or rng.choice(["none", "few", "few", "few", "rate", "rate", "rate", "dense", "all", "even",
                               "cluster", "cluster", "line", "line", "plane", "boundary", "stabs"])
    if kind == "none":
        return []
    if kind == "few":
        return rng.sample(range(n), min(n, rng.randint(1, 5)))
    if kind == "rate":
        p = rng.choice([0.01, 0.03, 0.08, 0.15, 0.3])
        return [q for q in range(n) if rng.random() < p]
    if kind == "dense":
        p = rng.choice([0.5, 0.8])
        return [q for q in range(n) if rng.random() < p]
    if kind == "all":
        return list(range(n))
    if kind == "even":
        return lat.loop(rng, rng.randint(1, 4))
    if kind == "cluster":
        f = set()
        for _ in range(rng.randint(1, 3)):
            s = rng.randrange(len(lat.stabs))
            for _ in range(rng.randint(1, 8)):
                q = rng.choice(lat.stabs[s])
                f ^= {q}
                s = rng.choice(lat.qstabs[q])
        return f
    if kind == "line":
        f = set()
        for _ in range(rng.randint(1, 2)):
            line = lat.logical_line(rng.choice(lat.crossing), rng.randrange(1000))
            keep = rng.choice([1.0, 1.0, 0.5])
            f ^= {q for q in line if rng.random() < keep}
        return f | set(_flips(rng, lat, "few")) if rng.random() < 0.3 else f
    if kind == "plane":
        p = lat.plane(rng.choice(lat.crossing), 0)
        return [q for q in p if rng.random() < rng.choice([1.0, 0.5])]
    if kind == "boundary":
        b = [q for q in range(n) if len(lat.qstabs[q]) == 1] or list(range(n))
        return rng.sample(b, min(len(b), rng.randint(1, 6)))
    s = set()
    for i in rng.sample(range(len(lat.stabs)), min(len(lat.stabs), rng.randint(1, 4))):
        s ^= set(lat.stabs[i])
    return s


# --------------------------------------------------------------------- p-squeezed labels
def gen_labels(rng, lat):
    """Nodes (coordinates) labelled p."""
    nb = neighbours(lat)
    kind = rng.choice(["none", "none", "few", "rate", "rate", "dense", "all", "around", "around"])
    nodes = sorted(nb)
    if kind == "none":
        return []
    if kind == "few":
        return sorted(rng.sample(nodes, min(len(nodes), rng.randint(1, 6))))
    if kind in ("rate", "dense"):
        p = rng.choice([0.03, 0.1, 0.25]) if kind == "rate" else rng.choice([0.5, 0.9])
        return [v for v in nodes if rng.random() < p]
    if kind == "all":
        return nodes
    out = set()
    for q in rng.sample(range(lat.n), min(lat.n, rng.randint(1, 5))):
        out |= set(rng.sample(nb[lat.qubits[q]], min(len(nb[lat.qubits[q]]), rng.randint(2, 4))))
    return sorted(out)


def erased(lat, labels):
    """Qubits (indices) with at least two p-squeezed neighbours."""
    p = {tuple(v) for v in labels}
    nb = neighbours(lat)
    return [i for i, q in enumerate(lat.qubits) if sum(v in p for v in nb[q]) >= 2]


# ------------------------------------------------------------------------- applying them
def state_of(lat, rnd):
    """Node attributes of a round: everything a noise layer could have left on the graph."""
    nb = neighbours(lat)
    p = {tuple(v) for v in rnd["labels"]} if rnd.get("labels") is not None else None
    flips = {lat.qubits[i] for i in rnd["flips"]}
    r = random.Random(rnd.get("seed", 0))
    out = {}
    for v in sorted(nb):
        d = {}
        if v in lat.idx:
            d["bit_val"] = 1 if v in flips else 0
        else:
            d["bit_val"] = r.randrange(2) if rnd.get("others", 1) else 0
        if p is not None:
            d["state"] = "p" if v in p else "GKP"
        if rnd.get("analog"):
            d["hom_val_p"] = outcome(r)
            d["p_phase_cond"] = r.choice([0.0, 1e-300, 1e-12, 0.001, 0.01, 0.1, 0.25, 0.4999, 0.5,
                                          r.random() / 2, r.random() / 2])
            if rnd.get("ties"):
                # weights that differ by a few units although they are large
                d["p_phase_cond"] = math.exp(-(1 + r.randint(0, 5) / rnd["ties"]))
        out[v] = d
    if rnd.get("shift") and rnd.get("analog"):
        # the same outcomes and probabilities, on other qubits
        vs = lat.qubits
        k = rnd["shift"] % len(vs)
        kept = {v: dict(out[v]) for v in vs}
        for i, v in enumerate(vs):
            for x in ("hom_val_p", "p_phase_cond"):
                out[v][x] = kept[vs[(i + k) % len(vs)]][x]
    return out


def moved(rng, old):
    """Entries of a round with the outcomes and probabilities of an earlier one on other qubits."""
    keep = ("seed", "labels", "w", "dec", "ties", "analog")
    return {**{k: old[k] for k in keep if k in old}, "shift": rng.randrange(1, 1000)}


def outcome(r):
    root = math.sqrt(math.pi)
    k = r.random()
    if k < 0.5:
        return r.gauss(0, 1) + root * r.randint(-3, 3)
    if k < 0.8:
        return r.uniform(-12, 12)
    return root * (r.randint(-4, 4) + r.choice([0, 0.25, 0.4999, 0.5001, -0.4999]))


def apply_state(code, lat, rnd):
    """Put the round's attributes on the code; returns them."""
    st = state_of(lat, rnd)
    nodes = code.graph.nodes
    for v, d in st.items():
        nodes[v].update(d)
    return st


def bits(code, lat):
    """Indices of the syndrome qubits whose bit is odd."""
    nodes = code.graph.nodes
    return [i for i, q in enumerate(lat.qubits) if int(nodes[q]["bit_val"]) % 2]


# ------------------------------------------------------------------- documented weights
def z_err_cond(var, val):
    root = math.sqrt(math.pi)
    n = math.floor(val / root + 0.5)
    f = val - n * root
    num = math.fsum(math.exp(-((f - k * root) ** 2) / var) for k in range(-19, 20, 2))
    den = math.fsum(math.exp(-((f - k * root) ** 2) / var) for k in range(-20, 21))
    return num / den if den else 0.0


def weights(lat, state, dec):
    """Unrounded weight of every qubit for a decoder configuration, and whether it is rounded."""
    nb = neighbours(lat)
    w = {"method": "uniform", "integer": False, "multiplier": 1, **dec["w"]}
    out = []
    for q in lat.qubits:
        near = nb[q]
        np_ = sum(state[v].get("state") == "p" for v in near)
        if w["method"] == "uniform":
            out.append(1 if dec["decoder"] == "MWPM" else (2 if np_ < 2 else -1))
            continue
        if np_ >= 2:
            p = {2: 1 / 4, 3: 1 / 3, 4: 2 / 5}[np_]
        elif w.get("prob_precomputed"):
            p = state[q]["p_phase_cond"]
        else:
            p = z_err_cond((len(near) + 1) * w["delta"], state[q]["hom_val_p"])
        p = min(p, 0.5) or 2.2250738585072014e-308
        out.append(-math.log(p) * (w["multiplier"] if w["integer"] else 1))
    return out, bool(w["method"] == "blueprint" and w["integer"])


def weight_ok(got, want, rounded):
    try:
        g = float(got)
    except (TypeError, ValueError):
        return False
    if rounded:
        return g == int(g) and abs(g - want) <= 0.5 + 1e-6
    return abs(g - want) <= 1e-7 * max(1.0, abs(want))


# ------------------------------------------------------------------------------ decoders
def gen_decoder(rng, stab_backend, analog=False, uf=True, floats=True, labels=True, only=None):
    kind = only or ("UF" if uf and rng.random() < 0.45 else "MWPM")
    if kind == "UF":
        return {"decoder": "UF", "w": rng.choice([{}, {"method": "uniform"}]), "d": {}}
    w = rng.choice([{}, {"method": "uniform"}])
    backends = ["networkx", "rustworkx", "lemon"]
    if analog and labels and rng.random() < 0.7:
        w = {"method": "blueprint"}
        if rng.random() < 0.5:
            w["prob_precomputed"] = True
        else:
            w["delta"] = rng.choice([0.001, 0.01, 0.05, 0.1, 0.3, 1.0])
        if rng.random() < 0.6 or not floats:
            w["integer"] = True
            w["multiplier"] = rng.choice([1, 1, 3, 10, 100])
        elif stab_backend == "networkx":
            backends = ["networkx", "lemon"]
    d = {} if rng.random() < 0.25 and "rustworkx" in backends else {"backend": rng.choice(backends)}
    if d and rng.random() < 0.12:
        d["as_class"] = True
    return {"decoder": "MWPM", "w": w, "d": d}


def decode(img, code, dec, **kw):
    correct = img.get("flamingpy.decoders.decoder").correct
    opts = dict(dec["d"])
    if opts.pop("as_class", False) and isinstance(opts["backend"], str):
        # a matching graph type instead of its name
        name = {"networkx": "Nx", "rustworkx": "Rx", "lemon": "Lemon"}[opts["backend"]]
        opts["backend"] = getattr(img.get("flamingpy.decoders.mwpm.matching"), name + "MatchingGraph")
    return correct(code, decoder=dec["decoder"], weight_options=dict(dec["w"]) or None,
                   decoder_opts=opts or None, **kw)


def odd_cap(dec, tier="quick"):
    """Largest number of odd stabilizers that is decoded in reasonable time."""
    if dec["decoder"] == "UF":
        return None
    return {"networkx": 24, "lemon": 60}.get(dec["d"].get("backend"), 60)


def shrink_rounds(sc, key="rounds"):
    rs = sc[key]
    for i in range(len(rs)):
        if len(rs) > 1:
            yield {**sc, key: rs[:i] + rs[i + 1:]}
    for i, r in enumerate(rs):
        def put(new):
            return {**sc, key: rs[:i] + [new] + rs[i + 1:]}

        if r.get("abort") is not None:
            yield put({**r, "abort": None})
        for k in ("flips", "labels"):
            v = r.get(k)
            if not v:
                continue
            if len(v) > 1:
                h = len(v) // 2
                yield put({**r, k: v[:h]})
                yield put({**r, k: v[h:]})
            if len(v) <= 24:
                for j in range(len(v)):
                    yield put({**r, k: v[:j] + v[j + 1:]})
        if r.get("others"):
            yield put({**r, "others": 0})
