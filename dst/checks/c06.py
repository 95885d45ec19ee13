"""C06: trials on reused objects do not influence each other."""
import copy
import random

import numpy as np

from .. import patterns, pipe
from ..core import Violation, digest
from ..image import Image
from ..inject import Injected, LineTrace
from ..runner import Check
from ..seams import Solo


def subset(want, got, path=""):
    """First attribute of the fresh outcome that the reused outcome does not have."""
    for n, attrs in want.items():
        for k, v in attrs.items():
            g = got.get(n, {}).get(k, "<absent>")
            if not (pipe.same(v, g) or str(v) == str(g)):
                return f"{path}{n}.{k}: {str(g)[:60]}, fresh {str(v)[:60]}"
    return None


class C06(Check):
    id = "C06"
    needs_lemon = True
    runs = {"quick": 2000, "thorough": 40000}
    budget = {"quick": 200, "thorough": 2700}
    rule = ("digest of the history (objects, order of the trials, generators, lines at which trials "
            "were aborted); nontrivial if the history has at least two trials on one code")
    real = ["flamingpy.codes", "flamingpy.noise", "flamingpy.decoders", "lemonpy (compiled from the "
            "current sources)"]
    stubs = ["exceptions at executed lines of the package", "clocks, entropy, identity hashes"]
    assumptions = ["IID noise changes bit values only, so it is not decoded with Union-Find on a code "
                   "that carries state labels of an earlier CV layer"]
    expected_probes = ["aborted_noise", "aborted_decoding", "trial_after_abort", "mixed_layers_on_code",
                       "shared_arguments", "perfect_points",
                       "dozens_of_trials", "hundreds_of_trials"]

    def generate(self, rng, tier, idx):
        ncodes = rng.choice([1, 1, 1, 2])
        codes = []
        for _ in range(ncodes):
            c = pipe.gen_code(rng, tier, cap=rng.choice([110, 110, 200]), min_periodic=3)
            if codes and rng.random() < 0.5:
                c = dict(codes[0])
            c["perfect"] = rng.choice([0, 0, 0, 3])
            codes.append(c)
        layers = []
        for _ in range(rng.choice([1, 1, 2, 2, 3])):
            spec = pipe.gen_noise(rng)
            if layers and rng.random() < 0.35:
                # the same arguments, perhaps on another code
                spec, share = layers[0]["noise"], 0
            else:
                share = len(layers)
            layers.append({"code": rng.randrange(ncodes), "noise": spec, "args_of": share,
                           "bs": spec["kind"] == "macro" and rng.random() < 0.3})
        steps, labelled = [], set()
        for _ in range(rng.choice([2, 3, 3, 4, 5, 6])):
            li = rng.randrange(len(layers))
            lay = layers[li]
            kind, c = lay["noise"]["kind"], lay["code"]
            dec = pipe.gen_decoder(rng, kind, codes[c]["backend"], True,
                                   lay["noise"]["args"].get("delta", 0.1))
            if kind == "iid" and c in labelled and dec["decoder"] == "UF":
                dec = {"decoder": "MWPM", "w": {}, "d": {}}
            if kind != "iid":
                labelled.add(c)
            abort = None
            if rng.random() < 0.35:
                abort = rng.choice(["noise", "noise", "correct"])
            steps.append({"layer": li, "dec": dec, "seed": rng.getrandbits(40), "abort": abort,
                          "frac": rng.random(), "how": rng.choice(["any", "first", "last"])})
        steps[-1]["abort"] = None
        if idx % 25 == 12:
            # A long life: dozens to hundreds of unremarkable trials before the last ones.
            codes = [{**c, "distance": rng.choice([2, 2, [2, 2, 3]]), "boundaries": "open"} for c in codes]
            for k in rng.sample(range(len(steps)), min(2, len(steps))):
                steps[k]["repeat"] = rng.choice([20, 70, 130, 270, rng.randint(10, 300)])
        return {"codes": codes, "layers": layers, "steps": steps, "hash": rng.getrandbits(30),
                "states_as": rng.choice(["list", "array"])}

    # ---------------------------------------------------------------------------------
    def build_code(self, img, cfg):
        code = pipe.make_code(img, {k: v for k, v in cfg.items() if k != "perfect"})
        if cfg["perfect"]:
            pts = sorted(code.graph.nodes)[:: max(1, len(code.graph) // cfg["perfect"])]
            code.graph.graph["perfect_points"] = pts
        return code

    def build_args(self, img, sc, li):
        """User-supplied keyword arguments of a layer (always equal, new objects)."""
        lay = sc["layers"][li]
        spec = lay["noise"]
        code = self.build_code(img, {**sc["codes"][lay["code"]], "perfect": 0})
        n = len(code.graph)
        if spec["kind"] == "macro":
            n = len(code.graph.macronize(code.bound_str != "periodic"))
        args = pipe.noise_args(spec, n)
        if "states" in args and sc["states_as"] == "array":
            args["states"] = {"p": np.array(args["states"]["p"], dtype=int)}
        if lay["bs"]:
            args["bs_network"] = img.get("flamingpy.cv.ops").splitter_symp()
        return args

    def layer(self, img, sc, li, code, args):
        cls = getattr(img.get("flamingpy.noise"), pipe.NOISE[sc["layers"][li]["noise"]["kind"]])
        lay = sc["layers"][li]
        if "states" in args:
            n = len(code.graph)
            if lay["noise"]["kind"] == "macro":
                n = len(code.graph.macronize(code.bound_str != "periodic"))
            args = {**args}
            if max(args["states"]["p"], default=0) >= n:
                return None
        return cls(code, **args)

    def fresh(self, sc, step, count):
        """The same trial on new objects in a new process; also the line to abort at."""
        li = step["layer"]
        with Solo(image=Image(hash_seed=sc["hash"] + 1)) as p:
            img = p.image
            args = self.build_args(img, sc, sc["layers"][li]["args_of"])
            code = self.build_code(img, sc["codes"][sc["layers"][li]["code"]])
            noise = self.layer(img, sc, li, code, args)
            if noise is None:
                return None, 0
            gen = np.random.default_rng(step["seed"])
            lines = 0
            if count == "noise":
                with LineTrace(places=True) as t:
                    noise.apply_noise(gen)
                at = t.pick(step["frac"], step["how"])
                return pipe.trial(img, code, noise, step["dec"], gen, apply=False), at
            if count == "correct":
                noise.apply_noise(gen)
                with LineTrace(places=True) as t:
                    out = pipe.trial(img, code, noise, step["dec"], gen, apply=False)
                return out, t.pick(step["frac"], step["how"])
            return pipe.trial(img, code, noise, step["dec"], gen), 0

    def execute(self, sc, run):
        refs = [self.fresh(sc, s, s["abort"]) for s in sc["steps"]]
        with Solo(image=Image(hash_seed=sc["hash"])) as p:
            img = p.image
            user = {}
            for li, lay in enumerate(sc["layers"]):
                if lay["args_of"] == li:
                    user[li] = self.build_args(img, sc, li)
                else:
                    run.probe("shared_arguments")
            before = {k: copy.deepcopy(v) for k, v in user.items()}
            codes = [self.build_code(img, c) for c in sc["codes"]]
            if any(c["perfect"] for c in sc["codes"]):
                run.probe("perfect_points")
            layers = [self.layer(img, sc, li, codes[lay["code"]], user[lay["args_of"]])
                      for li, lay in enumerate(sc["layers"])]
            used, aborted, hist = {}, set(), []
            decs = [copy.deepcopy(s["dec"]) for s in sc["steps"]]
            for i, (s, (ref, at)) in enumerate(zip(sc["steps"], refs)):
                noise = layers[s["layer"]]
                if noise is None or ref is None:
                    continue
                ci = sc["layers"][s["layer"]]["code"]
                code = codes[ci]
                gen = np.random.default_rng(s["seed"])
                used.setdefault(ci, set()).add(s["layer"])
                if len(used[ci]) > 1:
                    run.probe("mixed_layers_on_code")
                for k in range(s.get("repeat", 0)):
                    noise.apply_noise(np.random.default_rng(s["seed"] + 1 + k))
                    patterns.decode(img, code, s["dec"])
                if s.get("repeat"):
                    run.probe("hundreds_of_trials" if s["repeat"] > 100 else "dozens_of_trials")
                if s["abort"]:
                    where = None
                    if s["abort"] == "noise":
                        with LineTrace(at) as t:
                            try:
                                noise.apply_noise(gen)
                            except Injected:
                                where = t.where
                    else:
                        noise.apply_noise(gen)
                        with LineTrace(at) as t:
                            try:
                                pipe.trial(img, code, noise, s["dec"], gen, apply=False)
                            except Injected:
                                where = t.where
                    if where:
                        run.fault("exception_in_" + s["abort"])
                        run.probe("aborted_noise" if s["abort"] == "noise" else "aborted_decoding")
                        aborted.add(ci)
                    hist.append((s["layer"], s["abort"], where))
                    run.log.add("abort", where)
                    continue
                if ci in aborted:
                    run.probe("trial_after_abort")
                out = pipe.trial(img, code, noise, s["dec"], gen)
                hist.append((s["layer"], s["dec"]["decoder"], s["seed"]))
                self.compare(ref, out, f"step {i} after {hist[:-1]}")
                run.log.add("trial", out["verdict"], len(out["recovery"]))
            for k, v in before.items():
                d = pipe.first_difference(_plain(v), _plain(user[k]))
                if d:
                    raise Violation("argument-modified", f"layer {k}: {d}")
            for s, d in zip(sc["steps"], decs):
                if s["dec"] != d:
                    raise Violation("argument-modified", f"decoder options {d} became {s['dec']}")
        run.nontrivial = len(hist) > 1
        run.signature = digest(sc["codes"], sc["layers"], hist)
        run.sample = {"codes": sc["codes"], "layers": sc["layers"], "history": hist}

    @staticmethod
    def compare(ref, out, where):
        for part in ("noise", "macro", "after"):
            if part in ref:
                d = subset(ref[part], out.get(part, {}))
                if d:
                    raise Violation("history-changes-" + part, f"{d}; {where}")
        for part in ("weights", "recovery", "verdict", "generator"):
            d = pipe.first_difference(out.get(part), ref.get(part))
            if d:
                raise Violation("history-changes-" + part, f"{d}; {where}")

    def shrink(self, sc):
        n = len(sc["steps"])
        for i, s in enumerate(sc["steps"]):
            for r in {0, s.get("repeat", 0) // 2, s.get("repeat", 1) - 1} - {s.get("repeat", 0)}:
                yield {**sc, "steps": [{**x, "repeat": r} if j == i else x for j, x in enumerate(sc["steps"])]}
        for i in range(n - 1):
            yield {**sc, "steps": sc["steps"][:i] + sc["steps"][i + 1:]}
        if n > 1 and not sc["steps"][-2]["abort"]:
            yield {**sc, "steps": sc["steps"][:-1]}
        for i, s in enumerate(sc["steps"]):
            if s["abort"]:
                steps = [dict(x) for x in sc["steps"]]
                steps[i]["abort"] = None
                yield {**sc, "steps": steps}
        for i, c in enumerate(sc["codes"]):
            for d in pipe.shrink_code(c):
                codes = [dict(x) for x in sc["codes"]]
                codes[i] = d
                yield {**sc, "codes": codes}
            if c["perfect"]:
                codes = [dict(x) for x in sc["codes"]]
                codes[i]["perfect"] = 0
                yield {**sc, "codes": codes}


def _plain(x):
    if isinstance(x, dict):
        return {k: _plain(v) for k, v in x.items()}
    if isinstance(x, np.ndarray):
        return ["array", str(x.dtype), x.tolist()]
    if isinstance(x, (list, tuple)):
        return [_plain(v) for v in x]
    return pipe.plain(x)


CHECK = C06()
