"""C05: a seed fixes the whole pipeline run."""
import hashlib
import json
import os
import random
import subprocess
import sys
import types

import numpy as np

from .. import pipe
from ..core import Discard, HarnessError, Violation, digest
from ..image import Image
from ..runner import PYTHON, VERIF, Check
from ..seams import Solo


def default_generators(modules):
    """Every generator that the package holds itself (default arguments, module attributes)."""
    out = {}

    def look(name, obj, depth=0):
        if isinstance(obj, np.random.Generator):
            out[name] = repr(obj.bit_generator.state)
        elif isinstance(obj, (np.random.RandomState, random.Random)):
            out[name] = repr(obj.get_state() if hasattr(obj, "get_state") else obj.getstate())
        elif isinstance(obj, types.FunctionType):
            for i, d in enumerate(obj.__defaults__ or ()):
                look(f"{name}.default{i}", d, 9)
            for k, d in (obj.__kwdefaults__ or {}).items():
                look(f"{name}.{k}", d, 9)
        elif isinstance(obj, type) and depth < 2:
            for k, v in list(vars(obj).items()):
                if isinstance(v, (staticmethod, classmethod)):
                    v = v.__func__
                look(f"{name}.{k}", v, depth + 1)

    for m, mod in sorted(modules.items()):
        for k, v in list(vars(mod).items()):
            if getattr(v, "__module__", m) == m or not isinstance(v, (type, types.FunctionType)):
                look(f"{m}.{k}", v)
    return out


def pipeline(img, p, seed, trials):
    code = pipe.make_code(img, p["code"])
    noise = pipe.make_noise(img, code, p["noise"])
    gen = np.random.default_rng(seed)
    return [pipe.trial(img, code, noise, p["dec"], gen) for _ in range(trials)]


def one(p, seed, trials, env, run=None):
    """One simulated process: unrelated history first, then the pipeline."""
    img = Image(hash_seed=env["hash"])
    with Solo(entropy=env["entropy"], wall=env["wall"], image=img) as proc:
        proc.tick = env["tick"]
        for m in ("codes", "noise", "decoders.decoder"):
            img.get("flamingpy." + m)
        random.seed(env["globals"])
        np.random.seed(env["globals"] % 2**32)
        for h in env["history"]:
            code = pipe.make_code(img, h["p"]["code"])
            noise = pipe.make_noise(img, code, h["p"]["noise"])
            if h["default_rng"]:
                noise.apply_noise()
                pipe.trial(img, code, noise, h["p"]["dec"], None, apply=False)
            else:
                pipe.trial(img, code, noise, h["p"]["dec"], np.random.default_rng(h["seed"]))
        mods = {n: m for n, m in sys.modules.items() if n.startswith("flamingpy")}
        others = default_generators(mods)
        glob = (repr(random.getstate()), repr(np.random.get_state()))
        used = proc.entropy_count
        out = pipeline(img, p, seed, trials)
        if (repr(random.getstate()), repr(np.random.get_state())) != glob:
            raise Violation("global-generator-used", "the state of a global generator changed")
        now = default_generators(mods)
        for k, v in others.items():
            if now.get(k) != v:
                raise Violation("other-generator-used", k)
        if proc.entropy_count != used:
            raise Violation("entropy-used", f"{proc.entropy_count - used} reads of operating-system entropy")
        if run is not None:
            run.probe("generators_watched", len(others))
    return out


class C05(Check):
    id = "C05"
    needs_lemon = True
    runs = {"quick": 1500, "thorough": 40000}
    budget = {"quick": 170, "thorough": 2700}
    rule = ("digest of the pipeline, the generator seed and the pair of environments (identity hash "
            "seed, clock, entropy, history); nontrivial if a recovery was not empty or a trial failed")
    real = ["flamingpy.codes", "flamingpy.noise", "flamingpy.decoders", "lemonpy (compiled from the "
            "current sources)", "numpy generators"]
    stubs = ["identity hashes and id() of package objects", "order of the sets returned by rustworkx", "clocks", "operating-system entropy"]
    assumptions = ["code that is not part of the package (numpy, networkx, rustworkx) is deterministic "
                   "apart from the order of the sets that rustworkx returns, which the simulator draws"]
    expected_probes = ["other_hash_seed_process", "failed_trial", "cv", "macro", "iid", "UF", "MWPM",
                       "lemon", "default_generator_history"]

    def generate(self, rng, tier, idx):
        def env():
            hist = []
            for _ in range(rng.choice([0, 0, 1, 2])):
                hist.append({"p": pipe.gen_pipeline(rng, cap=120), "seed": rng.getrandbits(30),
                             "default_rng": rng.random() < 0.4})
            return {"hash": rng.getrandbits(40), "entropy": rng.getrandbits(40),
                    "wall": 1.6e9 + rng.random() * 1e8, "tick": rng.choice([1e-6, 1e-3, 5.0, -2.0]),
                    "globals": rng.getrandbits(31), "history": hist}

        p = pipe.gen_pipeline(rng, tier, big=tier == "thorough")
        sc = {"p": p, "seed": rng.choice([0, 1, rng.getrandbits(60)]), "trials": rng.choice([1, 1, 2, 3]),
              "a": env(), "b": env()}
        if idx % 25 == 7:
            sc["hashseeds"] = rng.sample(["0", "1", "7", "12345", "987654321", "4242"], 2)
            sc["batch"] = [{"p": pipe.gen_pipeline(rng, tier), "seed": rng.getrandbits(30)} for _ in range(6)]
        return sc

    def execute(self, sc, run):
        if sc.get("hashseeds"):
            self.processes(sc, run)
        a = one(sc["p"], sc["seed"], sc["trials"], sc["a"], run)
        b = one(sc["p"], sc["seed"], sc["trials"], sc["b"], run)
        self.compare(a, b, "")
        p = sc["p"]
        for k in ("identity_hashes", "clock", "entropy", "global_generators"):
            run.fault("other_" + k)
        if sc["b"]["history"] or sc["a"]["history"]:
            run.fault("unrelated_history")
        if any(h["default_rng"] for h in sc["a"]["history"] + sc["b"]["history"]):
            run.probe("default_generator_history")
        run.probe(p["noise"]["kind"])
        run.probe(p["dec"]["decoder"])
        if p["dec"]["d"].get("backend") == "lemon":
            run.probe("lemon")
        if not all(t["verdict"] for t in a):
            run.probe("failed_trial")
        run.nontrivial = any(t["recovery"] for t in a) or not all(t["verdict"] for t in a)
        run.signature = digest(sc)
        run.log.add("outcome", hashlib.sha256(repr(a).encode()).hexdigest()[:16])
        run.sample = {"pipeline": p, "seed": sc["seed"], "trials": sc["trials"],
                      "verdicts": [t["verdict"] for t in a], "recovery_sizes": [len(t["recovery"]) for t in a]}

    @staticmethod
    def compare(a, b, where):
        for i, (x, y) in enumerate(zip(a, b)):
            for part in ("noise", "macro", "weights", "recovery", "after", "verdict", "generator"):
                if part in x or part in y:
                    d = pipe.first_difference(x.get(part), y.get(part))
                    if d:
                        raise Violation("differs-" + part, f"trial {i}{where}: {d}")

    def processes(self, sc, run):
        """The same pipelines in two real interpreters with other string hash seeds."""
        outs = []
        for hs in sc["hashseeds"]:
            env = dict(os.environ, PYTHONHASHSEED=hs)
            r = subprocess.run([PYTHON, "-m", "dst.checks.c05", json.dumps(sc["batch"])], env=env,
                               cwd=str(VERIF), capture_output=True, text=True, timeout=300)
            if r.returncode:
                raise HarnessError("subprocess: " + r.stderr[-2000:])
            outs.append(json.loads(r.stdout.splitlines()[-1]))
        for x, y, b in zip(*outs, sc["batch"]):
            if x != y:
                part = [k for k in x if x[k] != y.get(k)]
                raise Violation("differs-" + (part or ["keys"])[0], f"PYTHONHASHSEED {sc['hashseeds']}: {part} of {b}")
        run.fault("other_hash_seed", 2)
        run.probe("other_hash_seed_process", len(sc["batch"]))

    def shrink(self, sc):
        if sc.get("hashseeds"):
            if len(sc["batch"]) > 1:
                for b in sc["batch"]:
                    yield {**sc, "batch": [b]}
            yield {k: v for k, v in sc.items() if k not in ("hashseeds", "batch")}
        for k in ("a", "b"):
            if sc[k]["history"]:
                yield {**sc, k: {**sc[k], "history": []}}
        for f in ("entropy", "wall", "tick", "globals", "hash"):
            if sc["a"][f] != sc["b"][f]:
                yield {**sc, "b": {**sc["b"], f: sc["a"][f]}}
        if sc["trials"] > 1:
            yield {**sc, "trials": sc["trials"] - 1}
        for p in pipe.shrink_pipeline(sc["p"]):
            yield {**sc, "p": p}


CHECK = C05()


def _child():
    from .. import runner

    runner.prepare(CHECK)
    out = []
    for b in json.loads(sys.argv[1]):
        env = {"hash": 1, "entropy": 1, "wall": 1.7e9, "tick": 1e-6, "globals": 1, "history": []}
        try:
            t = one(b["p"], b["seed"], 1, env)[0]
        except Violation as v:
            t = {"violation": str(v)}
        except Exception as e:
            t = {"raised": type(e).__name__}
        out.append({k: hashlib.sha256(repr(v).encode()).hexdigest()[:16] for k, v in t.items()})
    print(json.dumps(out))


if __name__ == "__main__":
    _child()
