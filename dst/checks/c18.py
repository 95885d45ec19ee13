"""C18: missing optional components do not change results."""
import contextlib
import csv
import io
import os
import shutil
import sys
import tempfile

import numpy as np

from .. import image, patterns, pipe
from ..cluster import Job
from ..core import Violation, digest
from ..image import Image
from ..kernel import Sim
from ..mpi import MpiLib, World
from ..runner import Check, unexpected
from ..seams import Solo

ERRORS = {"ImportError": ImportError, "ModuleNotFoundError": ModuleNotFoundError}


class PartialMpi(MpiLib):
    """mpi4py is installed, but its library cannot be loaded."""

    def __init__(self, world, rank, exc):
        super().__init__(world, rank)
        self.exc = exc

    def module(self, name):
        if name == "mpi4py.MPI":
            raise self.exc("injected: libmpi.so: cannot open shared object file")
        return super().module(name)


@contextlib.contextmanager
def no_locking(absent):
    """Without the fcntl module, as on Windows."""
    if not absent:
        yield
        return
    saved = sys.modules["fcntl"]
    sys.modules["fcntl"] = None
    try:
        yield
    finally:
        sys.modules["fcntl"] = saved


class C18(Check):
    id = "C18"
    needs_lemon = True
    needs_plot = True
    runs = {"quick": 1500, "thorough": 40000}
    budget = {"quick": 150, "thorough": 2400}
    rule = ("digest of the pipelines, the missing components and the way they fail; nontrivial if a component was "
            "missing and a recovery not empty")
    real = ["flamingpy (all modules)", "lemonpy (compiled from the current sources) where present"]
    stubs = ["mpi4py (simulated, one rank)", "clocks", "identity hashes"]
    assumptions = ["a component fails to import with an ImportError or a ModuleNotFoundError",
                   "the same components are missing in all modules of a process"]
    expected_probes = ["no_lemon", "no_mpi", "partial_mpi", "no_fcntl", "lemon_refused",
                       "simulation", "everything_imports", "about", "iid", "cv", "macro", "UF", "MWPM"]

    def generate(self, rng, tier, idx):
        miss = {"lemon": rng.choice([None, "ImportError", "ModuleNotFoundError"]),
                "mpi": rng.choice(["present", "missing", "partial"]), "mpi_error": rng.choice(list(ERRORS)),
                "fcntl": rng.random() < 0.3}
        if miss["lemon"] is None and miss["mpi"] == "present" and not miss["fcntl"]:
            miss["lemon"] = "ImportError"
        p = pipe.gen_pipeline(rng, tier, lemon=False, big=tier == "thorough")
        q = pipe.gen_pipeline(rng, tier, kinds=("iid", "iid", "cv", "macro"), lemon=False, cap=110)
        if q["noise"]["kind"] == "macro" or q["noise"]["kind"] == "cv":
            q["noise"]["args"].pop("states", None)
        if q["code"]["backend"] == "networkx" and q["dec"]["w"].get("method") == "blueprint":
            q["dec"]["w"]["integer"] = True  # the only weights this backend and the matching accept
        return {"miss": miss, "p": p, "sim": q, "trials": rng.choice([1, 3, 6]), "seed": rng.getrandbits(40),
                "code": pipe.gen_code(rng, tier), "flips": rng.choice(["none", "few", "few", "many"]),
                "wall": 1.6e9 + rng.random() * 1e8, "all": rng.random() < 0.1, "hash": rng.getrandbits(30)}

    def execute(self, sc, run):
        miss = sc["miss"]
        err = ERRORS.get(miss["lemon"])
        merr = ERRORS[miss["mpi_error"]]
        if err:
            run.probe("no_lemon")
            run.fault("import_lemonpy_failed")
        if miss["mpi"] != "present":
            run.probe("no_mpi" if miss["mpi"] == "missing" else "partial_mpi")
            run.fault("import_mpi4py_failed")
        if miss["fcntl"]:
            run.probe("no_fcntl")
            run.fault("import_fcntl_failed")
        results = []
        for lacking in (False, True):
            img = Image(hash_seed=sc["hash"], lemon_error=err if lacking else None, mpi_error=merr if lacking else None)
            with no_locking(lacking and miss["fcntl"]), Solo(image=img, wall=sc["wall"]) as proc:
                if lacking and sc["all"]:
                    self.everything(img, run, bool(err))
                code = pipe.make_code(img, sc["p"]["code"])
                noise = pipe.make_noise(img, code, sc["p"]["noise"])
                gen = np.random.default_rng(sc["seed"])
                out = [pipe.trial(img, code, noise, sc["p"]["dec"], gen) for _ in range(2)]
                del proc
            results.append(out)
        d = pipe.first_difference(*results)
        if d:
            raise Violation("pipeline-changed", f"with / without the components {miss}: {d}")
        sims = [self.simulation(sc, run, lacking) for lacking in (False, True)]
        d = pipe.first_difference(*sims)
        if d:
            raise Violation("simulation-changed", f"with / without the components {miss}: {d}")
        run.probe("simulation")
        if err:
            self.lemon(sc, run, err)
        for q in ("p", "sim"):
            run.probe(sc[q]["noise"]["kind"])
            run.probe(sc[q]["dec"]["decoder"])
        run.log.add("result", digest(results[0]), digest(sims[0]))
        run.nontrivial = any(t["recovery"] for t in results[0])
        run.signature = digest({k: v for k, v in sc.items() if k not in ("hash", "wall")})
        run.sample = {"missing": miss, "pipeline": sc["p"], "simulation": sc["sim"]}

    def everything(self, img, run, no_lemon):
        """All modules can be imported and the information screen works."""
        for name in sorted(image._code):
            if ".benchmarks" in name or ".examples" in name or name.endswith("__main__"):
                continue
            try:
                img.get(name)
            except Exception as e:
                raise Violation("import-failed", f"{name}: {e!r}")
        run.probe("everything_imports")
        out = io.StringIO()
        try:
            with contextlib.redirect_stdout(out):
                img.get("flamingpy").about()
        except Exception as e:
            raise Violation("about-failed", repr(e))
        run.probe("about")
        line = [x for x in out.getvalue().splitlines() if x.startswith("lemonpy")]
        if no_lemon and line and "Not installed" not in line[0]:
            raise Violation("about-wrong", line[0])
        if img.get("flamingpy").version() != img.get("flamingpy").__version__:
            raise Violation("about-wrong", "version()")

    def simulation(self, sc, run, lacking):
        """A serial Monte Carlo run: draws of every trial and the results row."""
        miss, q = sc["miss"], sc["sim"]
        tmp = os.path.realpath(tempfile.mkdtemp(prefix="dst-c18-"))
        file = os.path.join(tmp, "results.csv")
        sim = Sim(run)
        trials = []

        def main(rank, img):
            with no_locking(lacking and miss["fcntl"]):
                S = img.get("flamingpy.simulations")
            base = getattr(S, pipe.NOISE[q["noise"]["kind"]])

            def apply_noise(self, *a, **k):
                base.apply_noise(self, *a, **k)
                g = getattr(self, "reduced_graph", None) or self.egraph
                trials.append(digest(sorted((str(v), str(d.get("bit_val")), str(d.get("state"))) for v, d in g.nodes.data())))

            noise = type(base.__name__, (base,), {"apply_noise": apply_noise})
            S.run_ec_simulation(sc["trials"], S.SurfaceCode, pipe.code_args(q["code"]), noise, dict(q["noise"]["args"]),
                                q["dec"]["decoder"], {"weight_opts": dict(q["dec"]["w"])}, fname=file)

        try:
            job = Job(sim, "job", 1, main, mpi=not lacking or miss["mpi"] == "present",
                      mpi_error=ERRORS[miss["mpi_error"]] if lacking else None,
                      lemon_error=ERRORS.get(miss["lemon"]) if lacking else None, hash_seeds=[sc["hash"]])
            job.procs[0].frozen = sc["wall"]
            if lacking and miss["mpi"] == "partial":
                job.procs[0].image.mpi = PartialMpi(World(sim, 1, "job", None, True), 0, ERRORS[miss["mpi_error"]])
            sim.run()
            for e in job.errors():
                raise unexpected(e)
            with open(file, newline="", encoding="utf8") as f:
                rows = list(csv.reader(f))
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        skip = {"simulation_time", "current_time"}
        return {"draws": trials, "rows": len(rows),
                "row": {h: v for h, v in zip(rows[0], rows[1]) if h not in skip}}

    def lemon(self, sc, run, err):
        """The lemon backend without its library fails or is right, but never wrong."""
        img = Image(hash_seed=sc["hash"], lemon_error=err)
        with Solo(image=img):
            code = pipe.make_code(img, sc["code"])
            lat = pipe.lattice(sc["code"])
            r = np.random.default_rng(sc["seed"])
            frac = {"none": 0, "few": 0.03, "many": 0.2}[sc["flips"]]
            flips = {v for v in lat.qubits if r.random() < frac}
            pipe.set_bits(code, flips)
            correct = img.get("flamingpy.decoders.decoder").correct
            odd = len(lat.syndrome(patterns.bits(code, lat)))
            try:
                ver = correct(code, decoder="MWPM", decoder_opts={"backend": "lemon"})
            except Exception:
                run.probe("lemon_refused")
                return
            left = len(lat.syndrome(patterns.bits(code, lat)))
            if odd or left:
                raise Violation("lemon-without-library", f"verdict {ver} for {odd} odd stabilizers, {left} left, "
                                "although the library is missing")
            if bool(ver) != lat.success(set(patterns.bits(code, lat))):
                raise Violation("lemon-without-library", f"wrong verdict {ver}")
            run.probe("lemon_trivial_syndrome")

    def shrink(self, sc):
        m = sc["miss"]
        for k, v in (("lemon", None), ("mpi", "present"), ("fcntl", False)):
            if m[k] != v:
                yield {**sc, "miss": {**m, k: v}}
        if sc["trials"] > 1:
            yield {**sc, "trials": 1}
        for q in pipe.shrink_pipeline(sc["p"]):
            yield {**sc, "p": q}
        for q in pipe.shrink_pipeline(sc["sim"]):
            yield {**sc, "sim": q}
        for c in pipe.shrink_code(sc["code"]):
            yield {**sc, "code": c}


CHECK = C18()
