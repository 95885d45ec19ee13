"""C01: the Monte Carlo error count is exact over any number of processes."""
import csv
import os
import shutil
import tempfile

from .. import pipe
from ..cluster import Job, delay_fn
from ..core import Violation, derive, digest
from ..image import Image
from ..kernel import Sim
from ..runner import Check, unexpected
from ..seams import Solo, cur


def scripted(sim, rec, lat, seed, rank, stall):
    """A noise layer with known verdicts: nothing, a correctable flip or a logical operator."""

    class Scripted:
        def __init__(self, code, **_):
            self.code = code

        def apply_noise(self, *_, **__):
            phase = rec["phase"][rank]
            k = len(rec["calls"])
            rec["calls"].append((phase, rank))
            nth = rec["nth"][phase, rank] = rec["nth"].get((phase, rank), 0) + 1
            x = derive(seed, rank, phase, nth)
            flips, bad = [], False
            if x % 100 < rec["p_fail"]:
                a = lat.crossing[(x >> 8) % len(lat.crossing)]
                flips, bad = lat.logical_line(a, (x >> 16) % 97), True
            elif x % 3 == 0 and min(lat.dims) >= 3:
                flips = [(x >> 16) % lat.n]
            pipe.set_bits(self.code, {lat.qubits[q] for q in flips})
            if bad:
                rec["failed"][phase] = rec["failed"].get(phase, 0) + 1
            if stall and x % 7 == 0:
                sim.run_.fault("stalled_rank")
                sim.sleep(stall)
            else:
                sim.op("trial", k)

    return Scripted


def recorded(base, sim, rec, rank):
    """A real noise layer; what it did is kept, to decode it again afterwards."""

    class Recorded(base):
        def apply_noise(self, *a, **k):
            phase = rec["phase"][rank]
            rec["calls"].append((phase, rank))
            super().apply_noise(*a, **k)
            code_graph = getattr(self, "reduced_graph", self.egraph)
            rec["snap"].append((phase, {n: dict(d) for n, d in code_graph.nodes.data()}))
            sim.op("trial")

    Recorded.__name__ = base.__name__
    return Recorded


class C01(Check):
    id = "C01"
    runs = {"quick": 2400, "thorough": 40000}
    budget = {"quick": 150, "thorough": 2400}
    rule = ("digest of the configuration, the order in which the ranks executed their trials and "
            "the order in which their contributions arrived; nontrivial if at least one trial ran")
    real = ["flamingpy.simulations", "flamingpy.codes", "flamingpy.decoders", "flamingpy.noise"]
    stubs = ["mpi4py (simulated network)", "wall and monotonic clocks", "noise layer in most runs "
             "(known verdict per trial)"]
    assumptions = ["MPI delivers every contribution of a live rank unaltered (no message loss)",
                   "ranks run one thread each"]
    expected_probes = ["more_ranks_than_trials", "no_communicator", "zero_trials", "real_noise",
                       "out_of_order_contributions", "thousands_of_trials", "dozens_of_trials",
                       "dozens_of_processes"]

    def generate(self, rng, tier, idx):
        mode = rng.choice(["mpi-run", "mpi-run", "mpi-mc", "mpi-mc", "serial-run", "serial-mc",
                           "nocomm-mc"])
        size = 1 if mode.startswith(("serial", "nocomm")) else rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 7, 8])
        if tier == "thorough" and size > 1 and rng.random() < 0.1:
            size = rng.randint(9, 16)
        kind = rng.choice(["scripted"] * 7 + ["IidNoise", "CVLayer", "CVMacroLayer"])
        if kind == "scripted":
            code = pipe.gen_code(rng, cap=200)
        else:
            code = pipe.gen_code(rng, bounds=["open", "periodic"], cap=170, min_periodic=3,
                                 backend="rustworkx")
        phases = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            t = rng.choice([0, 1, 2, 3, 5, 7, 8, 9, 12, 16, rng.randint(0, 30)])
            if kind != "scripted":
                t = min(t, 8)
            phases.append({"trials": t, "decoder": rng.choice(["MWPM", "UF"])})
        if kind == "CVMacroLayer":
            for p in phases:
                p["decoder"] = "MWPM"
        if idx % 97 == 13:
            # A long simulation: thousands of trials on a small code.
            size = min(size, 4)
            kind, code = "scripted", {**pipe.gen_code(rng, cap=60), "distance": 2, "boundaries": "open"}
            phases = [{"trials": rng.choice([260, 1000, 2100, 4200 if tier == "quick" else 34000]),
                       "decoder": "UF"}]
        elif idx % 16 == 7:
            size = min(size, 4)
            kind, code = "scripted", {**pipe.gen_code(rng, cap=60), "distance": 2, "boundaries": "open"}
            phases = [{"trials": rng.randint(31, 260), "decoder": "UF"}]
        elif idx % 40 == 29:
            # A wide simulation: dozens of processes.
            mode, size = rng.choice(["mpi-run", "mpi-mc"]), rng.choice([rng.randint(9, 40), 16, 17, 32, 33])
            if tier == "thorough" and rng.random() < 0.1:
                size = rng.choice([64, 65, 100, 129])
            kind, code = "scripted", {**pipe.gen_code(rng, cap=60), "distance": 2, "boundaries": "open"}
            phases = [{"trials": rng.choice([1, size - 1, size, size + 1, rng.randint(0, 3 * size)]),
                       "decoder": "UF"} for _ in phases[:2]]
        return {
            "mode": mode, "size": size, "kind": kind, "code": code, "phases": phases,
            "seed": rng.getrandbits(32), "p_fail": rng.choice([0, 30, 50, 50, 80, 100]),
            "delays": rng.choice(["none", "small", "wild", "wild"]), "eager": rng.random() < 0.6,
            "preempt": rng.choice([0.0, 0.1, 0.5, 0.9]), "stall": rng.choice([0, 0, 0.5, 30.0]),
            "starts": [rng.choice([0, 0, 0.01, 5.0]) for _ in range(size)],
            "skews": [rng.choice([0, 0, -3600.0, 12.5]) for _ in range(size)],
            "strength": rng.choice([0.05, 0.1, 0.3]),
        }

    def execute(self, sc, run):
        sim = Sim(run, preempt=sc["preempt"])
        lat = pipe.lattice(sc["code"])
        rec = {"phase": {}, "calls": [], "failed": {}, "nth": {}, "snap": [], "p_fail": sc["p_fail"]}
        results = {}
        size, mode = sc["size"], sc["mode"]
        tmp = tempfile.mkdtemp(prefix="dst-c01-")
        kind = sc["kind"]
        noise_args = {"scripted": {}, "IidNoise": {"error_probability": sc["strength"]},
                      "CVLayer": {"delta": sc["strength"] * 3},
                      "CVMacroLayer": {"delta": sc["strength"] * 2, "p_swap": 0.2}}[kind]

        def opts(p):
            blue = kind in ("CVLayer", "CVMacroLayer") and p["decoder"] == "MWPM"
            if not blue:
                return {"method": "uniform"}
            if kind == "CVMacroLayer":
                return {"method": "blueprint", "prob_precomputed": True}
            return {"method": "blueprint", "delta": noise_args["delta"]}

        def main(rank, img):
            sims = img.get("flamingpy.simulations")
            code_cls = sims.SurfaceCode if hasattr(sims, "SurfaceCode") else \
                img.get("flamingpy.codes").SurfaceCode
            if kind == "scripted":
                cls = scripted(sim, rec, lat, sc["seed"], rank, sc["stall"])
            else:
                cls = recorded(getattr(img.get("flamingpy.noise"), kind), sim, rec, rank)
            out = []
            if not mode.endswith("run"):
                code = code_cls(**pipe.code_args(sc["code"]))
                noise = cls(code, **noise_args)
            for i, p in enumerate(sc["phases"]):
                rec["phase"][rank] = i
                dargs = {"weight_opts": opts(p)}
                if mode.endswith("run"):
                    sims.run_ec_simulation(
                        p["trials"], code_cls, pipe.code_args(sc["code"]), cls, dict(noise_args),
                        p["decoder"], dargs, fname=os.path.join(tmp, f"out{i}.csv"))
                elif mode == "mpi-mc":
                    comm = img.get("mpi4py.MPI").COMM_WORLD
                    out.append(sims.ec_monte_carlo(p["trials"], code, noise, p["decoder"], dargs,
                                                   comm, rank, size))
                elif sc["seed"] % 2:
                    out.append(sims.ec_monte_carlo(p["trials"], code, noise, p["decoder"], dargs))
                else:
                    out.append(sims.ec_monte_carlo(p["trials"], code, noise, p["decoder"], dargs,
                                                   world_comm=None, mpi_rank=0, mpi_size=1))
            results[rank] = out

        try:
            job = Job(sim, "job", size, main, mpi=not mode.startswith("serial"), skews=sc["skews"],
                      starts=sc["starts"], delays=delay_fn(run, sc["delays"]), eager=sc["eager"])
            sim.run()
            for t in job.tasks:
                if isinstance(t.error, Violation):
                    raise t.error
                if isinstance(t.error, Exception):
                    raise unexpected(t.error, f"rank {t.proc.rank}: ")
            if sim.deadlock:
                raise Violation("deadlock", f"ranks wait for ever: {sim.deadlock}")
            got = []
            for i, p in enumerate(sc["phases"]):
                if mode.endswith("run"):
                    with open(os.path.join(tmp, f"out{i}.csv"), newline="") as f:
                        rows = list(csv.DictReader(f))
                    got.append(rows[-1]["errors"])
                    for col, want in (("trials", p["trials"]), ("mpi_size", size)):
                        if rows[-1][col] != str(want):
                            raise Violation("wrong-" + col, f"{rows[-1][col]} instead of {want}")
                else:
                    got.append(results[0][i])
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        verdicts = self.replayed(sc, rec, opts) if kind != "scripted" else rec["failed"]
        order = [r for _, r in rec["calls"]]
        world = job.world
        for i, p in enumerate(sc["phases"]):
            n = sum(1 for ph, _ in rec["calls"] if ph == i)
            if n != p["trials"]:
                raise Violation("trial-count", f"{n} trials executed, {p['trials']} requested, "
                                f"{size} processes, phase {i}")
            if n > 2048:
                run.probe("thousands_of_trials")
            elif p["trials"] > 30:
                run.probe("dozens_of_trials")
            if size > p["trials"]:
                run.probe("more_ranks_than_trials")
            if size > 8:
                run.probe("dozens_of_processes")
            if not p["trials"]:
                run.probe("zero_trials")
            want = verdicts.get(i, 0)
            try:
                ok = float(got[i]) == want
            except (TypeError, ValueError):
                ok = False
            if not ok:
                raise Violation("error-count", f"{got[i]!r} errors reported, {want} of "
                                f"{p['trials']} trials failed, {size} processes, phase {i}")
        if mode.startswith(("nocomm", "serial")):
            run.probe("no_communicator")
        if kind != "scripted":
            run.probe("real_noise")
        arrivals = [(k, r) for k, _, r in world.history] if world else []
        if any(a[0] == b[0] and a[1] > b[1] for a, b in zip(arrivals, arrivals[1:])):
            run.probe("out_of_order_contributions")
        run.nontrivial = bool(rec["calls"])
        run.signature = digest(mode, kind, sc["code"], sc["phases"], size, order, arrivals)
        run.log.add("result", [str(g) for g in got], sorted(verdicts.items()))
        run.sample = {"mode": mode, "size": size, "phases": sc["phases"], "noise": kind,
                      "rank_order": order[:40], "errors": [str(g) for g in got]}

    def replayed(self, sc, rec, opts):
        """Verdicts of the recorded trials, decoded again one by one in a fresh process."""
        out = {}
        with Solo(entropy="again", image=Image()) as p:
            correct = p.image.get("flamingpy.decoders.decoder").correct
            for phase, nodes in rec["snap"]:
                code = pipe.make_code(p.image, sc["code"])
                for n, d in nodes.items():
                    code.graph.nodes[n].update(d)
                ph = sc["phases"][phase]
                ok = correct(code=code, decoder=ph["decoder"], weight_options=opts(ph))
                out[phase] = out.get(phase, 0) + (0 if ok else 1)
        return out

    def shrink(self, sc):
        for i in range(len(sc["phases"])):
            if len(sc["phases"]) > 1:
                yield {**sc, "phases": sc["phases"][:i] + sc["phases"][i + 1:]}
        if sc["size"] > 1:
            for n in (sc["size"] // 2, sc["size"] - 1):
                if n >= 1:
                    yield {**sc, "size": n, "starts": sc["starts"][:n], "skews": sc["skews"][:n]}
        for i, p in enumerate(sc["phases"]):
            for t in (p["trials"] // 2, p["trials"] * 7 // 8, p["trials"] - 1):
                if 0 <= t < p["trials"]:
                    ph = [dict(x) for x in sc["phases"]]
                    ph[i]["trials"] = t
                    yield {**sc, "phases": ph}
        if any(sc["starts"]) or any(sc["skews"]):
            yield {**sc, "starts": [0] * sc["size"], "skews": [0] * sc["size"]}
        if sc["stall"]:
            yield {**sc, "stall": 0}
        if sc["delays"] != "none":
            yield {**sc, "delays": "none"}
        if sc["preempt"]:
            yield {**sc, "preempt": 0.0}
        for c in pipe.shrink_code(sc["code"]):
            yield {**sc, "code": c}


CHECK = C01()
