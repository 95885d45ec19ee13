"""C02: no two ranks or jobs of a simulation share a noise stream."""
import copy
import hashlib
import os
import shutil
import tempfile

import numpy as np

from .. import pipe
from ..cluster import Job, delay_fn
from ..core import Violation, digest
from ..kernel import BASE_TIME, Sim
from ..runner import Check, unexpected

MAX_WORDS = 6000


def state_of(rng):
    bg = getattr(rng, "bit_generator", None)
    return None if bg is None else repr(bg.state)


def words_between(before, after):
    """The raw words a trial consumed, found by running a copy of the generator."""
    out = []
    end = _core(after)
    while _core(before.state) != end:
        if len(out) >= MAX_WORDS:
            break
        out.append(int(before.random_raw()))
    return out


def _core(state):
    return repr({k: v for k, v in state.items() if k not in ("has_uint32", "uinteger")})


class C02(Check):
    id = "C02"
    runs = {"quick": 1500, "thorough": 30000}
    budget = {"quick": 150, "thorough": 2400}
    rule = ("digest of the clock readings of all ranks (relative, in microseconds), the job shapes "
            "and the order of the trials; nontrivial if at least two trials ran")
    real = ["flamingpy.simulations", "flamingpy.noise", "flamingpy.codes", "flamingpy.decoders",
            "numpy generators"]
    stubs = ["mpi4py (simulated network)", "clocks", "operating-system entropy"]
    assumptions = ["jobs compared across processes read clocks that differ by at least 1 microsecond",
                   "clocks have 10-digit second counts and microsecond resolution"]
    expected_probes = ["equal_readings", "adjacent_readings", "two_jobs", "sweep_in_one_process",
                       "several_ranks", "real_cv_noise", "large_job", "long_sweep",
                       "many_trials"]

    def generate(self, rng, tier, idx):
        njobs = rng.choice([1, 1, 1, 2, 2, 3])
        kind = rng.choice(["IidNoise"] * 4 + ["CVLayer", "CVMacroLayer"])
        jobs = []
        taken = 0
        for j in range(njobs):
            size = rng.choice([1, 2, 2, 3, 4, 5, 6, 8])
            clock = rng.choice(["equal", "adjacent", "adjacent", "spread", "running"])
            # clocks that run during the simulation start an hour apart from all others
            gap = [1, 2, 10, 100, 999, 10**6, 3_600_000_000, 2 ** rng.randrange(8, 45),
                   10 ** rng.randrange(7, 13), 86_400_000_000 * rng.choice([1, 7, 30, 365])]
            if clock in ("spread", "running") or (jobs and jobs[-1]["clock"] == "running"):
                gap = [3_600_000_000]
            base = taken + rng.choice(gap)
            if clock == "equal":
                reads = [base] * size
            elif clock == "adjacent":
                reads = [base + rng.randrange(0, 8) for _ in range(size)]
                if rng.random() < 0.4:
                    reads = [base + size - r for r in range(size)]
            else:
                reads = [base + rng.randrange(0, 5_000_000) for _ in range(size)]
            taken = max(reads)
            jobs.append({"size": size, "clock": clock, "reads": reads,
                         "calls": [rng.choice([1, 2, 3, size, size + 1, 2 * size + 1])
                                   for _ in range(rng.choice([1, 1, 2, 3]))]})
        if idx % 25 == 6:
            # A large job.
            kind, size = "IidNoise", rng.randint(9, 40)
            reads = [rng.choice([0, 0, 0, rng.randrange(50)]) for _ in range(size)]
            jobs = [{"size": size, "clock": "adjacent", "reads": reads, "calls": [size]}]
        elif idx % 25 == 16:
            # A long sweep of simulations in one process.
            kind, jobs = "IidNoise", jobs[:1]
            jobs[0].update(size=min(2, jobs[0]["size"]), reads=jobs[0]["reads"][:2],
                           calls=[rng.choice([1, 2])] * rng.randint(5, 24))
        elif idx % 150 == 21:
            # Many trials.
            kind, size = "IidNoise", rng.choice([1, 2])
            jobs = [{"size": size, "clock": "equal", "reads": [0] * size, "calls": [rng.randint(600, 1500)]}]
        return {"jobs": jobs, "kind": kind, "mode": rng.choice(["run", "mc"]),
                "offset": rng.choice([0, 0, 500_000, 999_990, 123_456, 700_000 - 1]),
                "code": {"distance": 3, "ec": rng.choice(["primal", "dual"]),
                         "boundaries": rng.choice(["open", "toric", "periodic"]), "backend": "rustworkx"},
                "preempt": rng.choice([0.0, 0.3, 0.9]), "delays": rng.choice(["none", "small", "wild"]),
                "starts": rng.choice([0, 0, 0.3])}

    def execute(self, sc, run):
        sim = Sim(run, preempt=sc["preempt"])
        rec = []  # (job, rank, call, trial, pattern digest, words)
        kind = sc["kind"]
        noise_args = {"IidNoise": {"error_probability": 0.5}, "CVLayer": {"delta": 0.3},
                      "CVMacroLayer": {"delta": 0.2, "p_swap": 0.3}}[kind]
        tmp = tempfile.mkdtemp(prefix="dst-c02-")

        def recorded(base, where):
            class Recorded(base):
                def apply_noise(self, *a, **k):
                    rng = k.get("rng", a[0] if a else None)
                    bg = getattr(rng, "bit_generator", None)
                    before = copy.deepcopy(bg)
                    super().apply_noise(*a, **k)
                    words = words_between(before, bg.state) if bg is not None else []
                    g = getattr(self, "reduced_graph", self.egraph)
                    pattern = [[pipe.plain(d.get(x)) for x in ("bit_val", "hom_val_p", "p_phase_cond", "state")]
                               for _, d in sorted(g.nodes.data(), key=lambda x: x[0])]
                    h = hashlib.sha256(repr(pattern).encode()).hexdigest()[:24]
                    rec.append((*where, len(rec), h, words))
                    sim.op("trial", h[:8])
            Recorded.__name__ = base.__name__
            return Recorded

        def job(j, spec):
            def main(rank, img):
                sims = img.get("flamingpy.simulations")
                code_cls = img.get("flamingpy.codes").SurfaceCode
                base = getattr(img.get("flamingpy.noise"), kind)
                args = pipe.code_args(sc["code"])
                for c, trials in enumerate(spec["calls"]):
                    cls = recorded(base, (j, rank, c))
                    opts = {"weight_opts": {"method": "uniform"}}
                    if sc["mode"] == "run":
                        sims.run_ec_simulation(trials, code_cls, args, cls, dict(noise_args), "UF", opts,
                                               fname=os.path.join(tmp, f"{j}.csv"))
                    else:
                        code = code_cls(**args)
                        sims.ec_monte_carlo(trials, code, cls(code, **noise_args), "UF", opts,
                                            img.get("mpi4py.MPI").COMM_WORLD, rank, spec["size"])
            o = Job(sim, f"J{j}", spec["size"], main, delays=delay_fn(run, sc["delays"]),
                    starts=[sc["starts"] * r for r in range(spec["size"])])
            for p, r in zip(o.procs, spec["reads"]):
                t = BASE_TIME + (r + sc["offset"]) / 1e6
                if spec["clock"] == "running":
                    p.skew = t - BASE_TIME
                else:
                    p.frozen = t
                    run.fault("coarse_clock")
                if r != spec["reads"][0]:
                    run.fault("clock_skew")
            return o

        try:
            jobs = [job(j, s) for j, s in enumerate(sc["jobs"])]
            sim.run()
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        for o in jobs:
            for t in o.tasks:
                if isinstance(t.error, Violation):
                    raise t.error
                if isinstance(t.error, Exception):
                    raise unexpected(t.error, f"{t.name}: ")
        if sim.deadlock:
            raise Violation("deadlock", f"{sim.deadlock}")
        self.judge(sc, rec)
        for s in sc["jobs"]:
            if s["size"] > 1:
                run.probe("several_ranks")
                d = sorted(s["reads"])
                run.probe("equal_readings" if len(set(d)) < len(d) else "distinct_readings")
                if any(0 < b - a < 9 for a, b in zip(d, d[1:])) and s["clock"] != "running":
                    run.probe("adjacent_readings")
            if len(s["calls"]) > 1:
                run.probe("sweep_in_one_process")
            if len(s["calls"]) > 4:
                run.probe("long_sweep")
            if max(s["calls"]) > 500:
                run.probe("many_trials")
            if s["size"] > 8:
                run.probe("large_job")
        if len(sc["jobs"]) > 1:
            run.probe("two_jobs")
        if kind != "IidNoise":
            run.probe("real_cv_noise")
        run.nontrivial = len(rec) > 1
        low = min(min(s["reads"]) for s in sc["jobs"])
        run.signature = digest([[r - low for r in s["reads"]] for s in sc["jobs"]],
                               [s["calls"] for s in sc["jobs"]], [r[:3] for r in rec], kind, sc["offset"])
        run.log.add("patterns", digest([r[4] for r in rec]))
        run.sample = {"jobs": sc["jobs"], "noise": kind, "trials": [list(r[:5]) for r in rec][:12]}

    def judge(self, sc, rec):
        seen = {}
        owner = {}

        def name(r):
            return f"job {r[0]} rank {r[1]} call {r[2]}"

        def kind(a, b):
            if a[0] != b[0]:
                return "jobs-share-stream"
            if a[1] != b[1]:
                return "ranks-share-stream"
            return "stream-restarted" if a[2] == b[2] else "calls-share-stream"

        for r in rec:
            if r[4] in seen:
                o = seen[r[4]]
                raise Violation(kind(o, r), f"same noise in {name(o)} and {name(r)}; readings "
                                f"{[s['reads'] for s in sc['jobs']]}")
            seen[r[4]] = r
            for w in r[5]:
                o = owner.setdefault(w, r)
                if o is not r:
                    raise Violation(kind(o, r), f"same random words in {name(o)} and {name(r)}; readings "
                                    f"{[s['reads'] for s in sc['jobs']]}")

    def shrink(self, sc):
        for i in range(len(sc["jobs"])):
            if len(sc["jobs"]) > 1:
                yield {**sc, "jobs": sc["jobs"][:i] + sc["jobs"][i + 1:]}
        for i, s in enumerate(sc["jobs"]):
            def put(**kw):
                jobs = [dict(x) for x in sc["jobs"]]
                jobs[i].update(kw)
                return {**sc, "jobs": jobs}
            if s["size"] > 1:
                yield put(size=s["size"] - 1, reads=s["reads"][:-1])
                yield put(size=s["size"] - 1, reads=s["reads"][1:])
            if len(s["calls"]) > 1:
                yield put(calls=s["calls"][:-1])
            for k, c in enumerate(s["calls"]):
                if c > 1:
                    yield put(calls=s["calls"][:k] + [c - 1] + s["calls"][k + 1:])
        for key, v in (("kind", "IidNoise"), ("delays", "none"), ("preempt", 0.0), ("starts", 0),
                       ("mode", "mc"), ("offset", 0)):
            if sc[key] != v:
                yield {**sc, key: v}


CHECK = C02()
