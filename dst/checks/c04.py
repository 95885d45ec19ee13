"""C04: each results row states exactly the job that was run."""
import csv
import io
import os
import shutil
import sys
import tempfile

from .. import pipe
from ..cluster import Job, delay_fn
from ..core import Violation, derive, digest
from ..kernel import Sim
from ..runner import Check, unexpected
from ..seams import cur, real

DEFAULT = os.path.join("flamingpy", ".sims_data", "sims_results.csv")
ALIASES = {"UF": ["UF", "uf", "Uf", "unionfind", "UnionFind", "union-find", "Union-Find", "union find",
                  "Union Find", "UNIONFIND"],
           "MWPM": ["MWPM", "mwpm", "Mwpm", "minimum weight perfect matching",
                    "Minimum Weight Perfect Matching"]}
INVALID = ["", "unknown", "UFF", "matching", "MWPM2", "union_find", "uf,", "mwpm uf"]
STRINGS = ["plain", "a,b", 'say "hi"', "it's", "", " lead", "tail ", "two\nlines", "é日本", ";\t|", "=1+1",
           "'", '"', ",", "(1, 2)", "None", "1.50", "\\n", '",\n"']


def value(rng):
    k = rng.randrange(12)
    return [rng.choice(STRINGS), rng.choice(STRINGS), rng.randrange(-5, 1000), rng.random(),
            rng.choice([1e-300, 1e22, -0.0, 0.1 + 0.2, float("inf")]), None, rng.random() < 0.5,
            [1, "a,b", 2.5], ["t", 1, [2, 3]], {"k": [1, 2], "s": "x, y"}, [], {}][k]


def hms(t):
    return real["strftime"]("%H:%M:%S", real["gmtime"](t))


class C04(Check):
    id = "C04"
    runs = {"quick": 3500, "thorough": 60000}
    budget = {"quick": 150, "thorough": 2400}
    rule = ("digest of the arguments of every job, the number of ranks, the clock jumps and the "
            "schedule; nontrivial if a row was written or an invocation rejected")
    real = ["flamingpy.simulations (also executed as __main__ with command-line arguments)",
            "flamingpy.codes", "flamingpy.noise", "flamingpy.decoders", "csv files on disk"]
    stubs = ["mpi4py (simulated network)", "clocks", "bit values of the noise (known verdicts)"]
    assumptions = ["values are compared with their str() or repr()"]
    expected_probes = ["cli", "cli_rejected", "cli_defaults", "clock_jump_inside", "comma_value",
                       "newline_value", "existing_file", "several_ranks", "midnight", "dozens_of_processes"]

    def generate(self, rng, tier, idx):
        mode = rng.choice(["api"] * 5 + ["cli", "cli", "cli-invalid"])
        size = rng.choice([1, 1, 1, 2, 3])
        if mode == "cli" and rng.random() < 0.03:
            return {"mode": "cli-default", "size": 1, "jobs": [], "steps": [], "skew": 0.0,
                    "delays": "none", "preempt": 0.0, "eager": True, "seed": 1}
        jobs = []
        for j in range(rng.choice([1, 1, 2, 3]) if mode == "api" else 1):
            kind = rng.choice(["custom", "custom", "IidNoise", "CVLayer", "CVMacroLayer"])
            if mode != "api":
                kind = rng.choice(["IidNoise", "IidNoise", "CVLayer", "CVMacroLayer"])
            d = rng.choice([2, 3])
            if kind == "CVLayer":
                code = {"distance": d}
            else:
                code = {"distance": rng.choice([d, [d, 2, 3], [2, 3, d]])}
            if rng.random() < 0.8:
                code["ec"] = rng.choice(["primal", "dual"])
            if rng.random() < 0.8:
                code["boundaries"] = rng.choice(["open", "periodic"])
            if rng.random() < 0.4:
                code["backend"] = "rustworkx"
            keys = list(code)
            rng.shuffle(keys)
            code = [[k, code[k]] for k in keys]
            if kind == "custom":
                noise = [[k, value(rng)] for k in rng.sample(["tag", "extra", "p", "zeta", "note"], rng.randrange(5))]
            elif kind == "IidNoise":
                noise = [["error_probability", rng.choice([0, 0.0, 0.25, 1e-05, 1])]]
            elif kind == "CVLayer":
                noise = [["delta", rng.choice([0.001, 0.1])]]
                if rng.random() < 0.5:
                    noise.append(["states", {"p": rng.choice([[0, 2], [5], []])}])
                if rng.random() < 0.3:
                    noise.insert(0, ["sampling_order", rng.choice(["initial", "two-step"])])
            else:
                noise = [["delta", 0.01], ["p_swap", rng.choice([0, 0.25])]]
            decoder = rng.choice(["UF", "MWPM"])
            opts = {"method": "uniform"}
            if rng.random() < 0.4:
                opts = {"method": "uniform", "integer": True, "multiplier": rng.choice([1, 100])}
            dargs = [["weight_opts", opts]]
            if mode == "api" and rng.random() < 0.3:
                dargs.insert(rng.randrange(2), [rng.choice(["comment", "backend"]), value(rng)])
            jobs.append({"kind": kind, "code": code, "noise": noise, "decoder": decoder,
                         "spelling": rng.choice(ALIASES[decoder]), "dargs": dargs,
                         "trials": rng.choice([0, 1, 2, 3, 5]), "same_file": rng.random() < 0.7,
                         "tuple": rng.random() < 0.7})
        if idx % 60 == 23 and all(j["kind"] in ("custom", "IidNoise") for j in jobs):
            size = rng.choice([9, 16, 17, 32, 33, rng.randint(9, 40)])
        return {"mode": mode, "size": size, "jobs": jobs, "seed": rng.getrandbits(30),
                "steps": [[rng.choice([0.0, 0.5, 3.0, 20.0, 90.0]),
                           rng.choice([-3600.0, 3600.0, 0.9, -0.5, 86399.0, -30.0, 1e6])]
                          for _ in range(rng.choice([0, 1, 1, 2, 3]))],
                "skew": rng.choice([0.0, 0.0, 6390.0, -80000.0, 0.25]),
                "sleep": rng.choice([0, 0, 0, 0.3, 7.0, 45.0, 4000.0, 90000.0]), "invalid": rng.choice(INVALID),
                "before": rng.random() < 0.4,
                "preempt": rng.choice([0.0, 0.3]), "delays": rng.choice(["none", "small", "wild"]),
                "eager": rng.random() < 0.7}

    # -------------------------------------------------------------------------------- run
    def execute(self, sc, run):
        tmp = os.path.realpath(tempfile.mkdtemp(prefix="dst-c04-"))
        cwd, argv = os.getcwd(), sys.argv
        try:
            os.chdir(tmp)
            os.makedirs(os.path.dirname(DEFAULT))
            self._execute(sc, run, tmp)
        finally:
            os.chdir(cwd)
            sys.argv = argv
            shutil.rmtree(tmp, ignore_errors=True)

    def script(self, cls, st, sim, sc, j, rank, cfg):
        """Make apply_noise of a class leave known bit values behind."""
        orig = getattr(cls, "apply_noise", None)

        def apply_noise(self_, *a, **k):
            if orig is not None:
                orig(self_, *a, **k)
            lat = pipe.lattice(cfg)
            s = st[j]
            s["calls"] += 1
            n = s["per_rank"][rank] = s["per_rank"].get(rank, 0) + 1
            bad = derive(sc["seed"], j, rank, n) % 3 == 0
            s["failed"] += bad
            line = lat.logical_line(lat.crossing[0]) if bad else []
            bits = {lat.qubits[q] for q in line}
            graph = getattr(self_, "reduced_graph", None) or self_.egraph
            for node, d in graph.nodes.data():
                d["bit_val"] = int(node in bits)
                d["state"] = "GKP"
            if sc["sleep"]:
                sim.sleep(sc["sleep"])
            else:
                sim.op("trial")
            s["last"] = sim.now

        cls.apply_noise = apply_noise
        return cls

    def _execute(self, sc, run, tmp):
        sim = Sim(run, preempt=sc["preempt"])
        cli = sc["mode"].startswith("cli")
        default = sc["mode"] == "cli-default"
        jobs = sc["jobs"]
        if default:
            jobs = [{"kind": "CVMacroLayer", "decoder": "MWPM", "trials": 100, "tuple": True,
                     "code": [["distance", 3], ["ec", "primal"], ["boundaries", "open"]],
                     "noise": [["delta", 0.09], ["p_swap", 0.25]], "same_file": True,
                     "dargs": [["weight_opts", {"method": "blueprint", "prob_precomputed": True}]]}]
            sc = {**sc, "sleep": 0.0}
        st = [{"calls": 0, "failed": 0, "per_rank": {}, "last": 0.0, "start": None, "end": None}
              for _ in jobs]
        real_jobs = [self.materialise(j) for j in jobs]
        paths = [DEFAULT if cli else os.path.join(tmp, "f0.csv" if j["same_file"] else f"f{i + 1}.csv")
                 for i, j in enumerate(jobs)]
        if sc.get("before") and jobs:
            with open(paths[0], "w", encoding="utf8") as f:
                f.write(",".join(self.header(real_jobs[0])) + "\n")
                f.write(",".join("x" for _ in self.header(real_jobs[0])) + "\n")
            run.probe("existing_file")

        def code_cfg(r):
            c = dict(r["code"])
            d = c["distance"]
            return {"distance": d if isinstance(d, int) else list(d), "ec": c.get("ec", "primal"),
                    "boundaries": c.get("boundaries", "open")}

        def api(rank, img):
            sims = img.get("flamingpy.simulations")
            code_cls = img.get("flamingpy.codes").SurfaceCode
            for i, r in enumerate(real_jobs):
                if r["kind"] == "custom":
                    class Noise:
                        def __init__(self, code, **kw):
                            self.code, self.egraph, self.kw = code, code.graph, kw
                    base = Noise
                else:
                    b = getattr(img.get("flamingpy.noise"), r["kind"])
                    base = type(r["kind"], (b,), {})
                cls = self.script(base, st, sim, sc, i, rank, code_cfg(r))
                cls.__name__ = "Noise, custom" if r["kind"] == "custom" and sc["seed"] % 2 else r["kind"]
                r["name"] = cls.__name__
                self.begin(st[i], rank, sim)
                sims.run_ec_simulation(r["trials"], code_cls, dict(r["code"]), cls, dict(r["noise"]),
                                       r["decoder"], dict(r["dargs"]), fname=paths[i])
                self.end(st[i], rank, sim)

        def main(rank, img):
            noise = img.get("flamingpy.noise")
            if not default:
                for k in ("IidNoise", "CVLayer", "CVMacroLayer"):
                    if k == real_jobs[0]["kind"]:
                        self.script(getattr(noise, k), st, sim, sc, 0, rank, code_cfg(real_jobs[0]))
            self.begin(st[0], rank, sim)
            img.run_main("flamingpy.simulations")
            self.end(st[0], rank, sim)

        if cli:
            r = real_jobs[0]
            r["name"] = r["kind"]
            word = sc["invalid"] if sc["mode"] == "cli-invalid" else jobs[0].get("spelling")
            args = ["simulations.py", "-code", "SurfaceCode", "-code_args", repr(dict(r["code"])), "-noise",
                    r["kind"], "-noise_args", repr(dict(r["noise"])), "-decoder", word,
                    "-decoder_args", repr(dict(r["dargs"])), "-trials", str(r["trials"])]
            sys.argv = args[:1] if default else args
        job = Job(sim, "job", sc["size"], main if cli else api, delays=delay_fn(run, sc["delays"]),
                  eager=sc["eager"], abort_on_error=False)
        for p in job.procs:
            p.skew = sc["skew"] if p.rank == 0 else 0.0
            p.steps = [tuple(s) for s in sc["steps"]]
        sim.run()
        if sim.deadlock:
            raise Violation("deadlock", f"{sim.deadlock}")
        errors = job.errors()
        if sc["mode"] == "cli-invalid":
            self.rejected(sc, job, st, run)
            return
        for e in errors:
            if isinstance(e, Violation):
                raise e
            if isinstance(e, (Exception, SystemExit)):
                raise unexpected(e, f"{sys.argv if cli else ''} ")
        for at, step in sc["steps"]:
            if st[0]["start"] is not None and at < sim.now:
                run.fault("clock_jump")
                if any(s["start"] < at < s["end"] for s in st):
                    run.probe("clock_jump_inside")
        before = {}
        for i, r in enumerate(real_jobs):
            self.judge(sc, r, st[i], paths[i], before, job.procs[0], run, default)
        if cli:
            run.probe("cli_defaults" if default else "cli")
        if sc["size"] > 1:
            run.probe("several_ranks")
        if sc["size"] > 8:
            run.probe("dozens_of_processes")
        run.signature = digest(sc["mode"], jobs, sc["size"], sc["steps"], sc["skew"],
                               [e for e in run.log.events if " trial" in e or "mpi" in e][:50])
        run.log.add("rows", [(s["calls"], s["failed"]) for s in st])
        run.sample = {"mode": sc["mode"], "jobs": [str(r)[:300] for r in real_jobs], "ranks": sc["size"],
                      "clock_steps": sc["steps"], "errors": [s["failed"] for s in st]}

    @staticmethod
    def begin(s, rank, sim):
        if rank == 0:
            s["start"] = sim.now
            s["reads"] = len(cur().wall_reads)

    @staticmethod
    def end(s, rank, sim):
        if rank == 0:
            s["end"] = sim.now
            s["reads_end"] = len(cur().wall_reads)

    @staticmethod
    def materialise(j):
        """JSON lists become tuples where the job asks for tuples."""
        def conv(v):
            return tuple(conv(x) for x in v) if isinstance(v, list) and j["tuple"] else v
        r = dict(j)
        r["code"] = [(k, tuple(v) if isinstance(v, list) else v) for k, v in j["code"]]
        r["noise"] = [(k, conv(v)) for k, v in j["noise"]]
        r["dargs"] = [(k, conv(v)) for k, v in j["dargs"]]
        return r

    @staticmethod
    def header(r):
        return ["code", *dict(r["code"]), "noise", *dict(r["noise"]), "decoder", *dict(r["dargs"]),
                "errors", "trials", "current_time", "simulation_time", "mpi_size"]

    def judge(self, sc, r, s, path, before, proc, run, default):
        head = self.header(r)
        if not os.path.exists(path):
            raise Violation("no-row", f"no results file {os.path.basename(path)}")
        with open(path, newline="", encoding="utf8") as f:
            records = list(csv.reader(f))
        if [] in records:
            raise Violation("blank-row", f"record {records.index([])} of {len(records)}")
        if path not in before:
            before[path] = 2 if sc.get("before") and path in (DEFAULT,) or (
                sc.get("before") and not before) else 1
            if records[0] != head:
                raise Violation("wrong-header", f"{records[0]} for {head}")
        k = before[path]
        before[path] += 1
        if len(records) <= k:
            raise Violation("no-row", f"{len(records)} records, expected more than {k}")
        row = records[k]
        values = [None, *[v for _, v in r["code"]], None, *[v for _, v in r["noise"]], None,
                  *[v for _, v in r["dargs"]]]
        if len(row) != len(head):
            raise Violation("wrong-columns", f"{len(row)} fields for {len(head)} columns: {row}")
        got = list(zip(head, row))
        names = iter(["SurfaceCode", r["name"], r["decoder"]])
        for i, v in enumerate(values):
            if v is None and head[i] in ("code", "noise", "decoder") and i in (
                    0, 1 + len(r["code"]), 2 + len(r["code"]) + len(r["noise"])):
                if row[i] != next(names):
                    raise Violation("wrong-name", f"{got[i]} of {r['name']}, {r['decoder']}")
            elif row[i] not in (str(v), repr(v)):
                raise Violation("wrong-value", f"{got[i]} instead of {v!r}")
            if isinstance(v, str) and "\n" in v:
                run.probe("newline_value")
            elif v is not None and "," in str(v):
                run.probe("comma_value")
        n = len(values)
        want = {"trials": r["trials"], "mpi_size": sc["size"]}
        if not default:
            want["errors"] = s["failed"]
            if s["calls"] != r["trials"]:
                raise Violation("trial-count", f"{s['calls']} of {r['trials']}")
        tail = dict(got[n:])
        for key, w in want.items():
            if tail[key] != str(w):
                raise Violation("wrong-" + key, f"{tail[key]!r} instead of {w}")
        if not tail["errors"].isdigit() or int(tail["errors"]) > r["trials"]:
            raise Violation("wrong-errors", f"{tail['errors']!r} of {r['trials']}")
        reads = proc.wall_reads[s["reads"]:s["reads_end"]]
        times = {hms(t) for t in reads}
        lo, hi = s["start"], s["end"]
        wall = {hms(_wall(proc, sc, lo)), hms(_wall(proc, sc, hi))}
        if tail["current_time"] not in times | wall:
            raise Violation("wrong-current_time", f"{tail['current_time']}; the clock read {sorted(times)[:20]} "
                            f"during the job, {sorted(wall)} at its ends")
        if any(x.startswith("00:00") for x in times):
            run.probe("midnight")
        try:
            t = float(tail["simulation_time"])
        except ValueError:
            raise Violation("wrong-simulation_time", tail["simulation_time"]) from None
        low = (s["last"] - lo) if s["calls"] else 0.0
        if not low - 0.01 <= t <= hi - lo + 1e-5:
            raise Violation("wrong-simulation_time", f"{t}; the job took {hi - lo:.6f} s, its trials ended "
                            f"after {low:.6f} s; clock steps {sc['steps']}")

    def rejected(self, sc, job, st, run):
        for t in job.tasks:
            if not isinstance(t.error, ValueError):
                raise Violation("not-rejected", f"decoder {sc['invalid']!r}: {t.error!r}")
        if os.path.exists(DEFAULT) and not sc.get("before"):
            raise Violation("rejected-but-written", f"decoder {sc['invalid']!r}")
        if sc.get("before"):
            with open(DEFAULT, encoding="utf8") as f:
                if len(f.readlines()) != 2:
                    raise Violation("rejected-but-written", f"decoder {sc['invalid']!r}")
        if st[0]["calls"]:
            raise Violation("rejected-but-run", f"decoder {sc['invalid']!r}: {st[0]['calls']} trials")
        run.probe("cli_rejected")
        run.signature = digest("rejected", sc["invalid"], sc["jobs"], sc["size"])

    def shrink(self, sc):
        for i in range(len(sc["jobs"])):
            if len(sc["jobs"]) > 1:
                yield {**sc, "jobs": sc["jobs"][:i] + sc["jobs"][i + 1:]}
        if sc["size"] > 1:
            yield {**sc, "size": 1}
        for key, v in (("steps", []), ("skew", 0.0), ("sleep", 0), ("before", False), ("delays", "none")):
            if sc.get(key) and sc[key] != v:
                yield {**sc, key: v}
        for i, j in enumerate(sc["jobs"]):
            for key in ("noise", "dargs", "code"):
                for k in range(len(j[key])):
                    if j[key][k][0] in ("weight_opts", "distance", "delta", "error_probability"):
                        continue
                    jobs = [dict(x) for x in sc["jobs"]]
                    jobs[i][key] = j[key][:k] + j[key][k + 1:]
                    yield {**sc, "jobs": jobs}
            if j["trials"]:
                jobs = [dict(x) for x in sc["jobs"]]
                jobs[i]["trials"] -= 1
                yield {**sc, "jobs": jobs}


def _wall(proc, sc, now):
    from ..kernel import BASE_TIME

    t = BASE_TIME + now + proc.skew
    for at, step in proc.steps:
        if now >= at:
            t += step
    return t


CHECK = C04()
