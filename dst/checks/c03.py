"""C03: the results file survives concurrent jobs, crashes and disk faults."""
import csv
import io
import os
import random
import shutil
import tempfile

from .. import pipe
from ..cluster import Job, delay_fn
from ..core import Violation, derive, digest
from ..fs import SimFS
from ..kernel import Sim
from ..runner import Check, unexpected

FIXED = ["errors", "trials", "current_time", "simulation_time", "mpi_size"]


def noise_class(sim, rec, lat):
    class TestNoise:
        """Applies nothing or a logical operator; counts its calls."""

        def __init__(self, code, tag, extra=None):
            self.code, self.tag = code, tag

        def apply_noise(self, *_, **__):
            r = rec.setdefault(self.tag, {"calls": 0, "failed": 0})
            r["calls"] += 1
            bad = derive(self.tag, r["calls"]) % 2
            r["failed"] += bad
            line = lat.logical_line(lat.crossing[0]) if bad else []
            pipe.set_bits(self.code, {lat.qubits[q] for q in line})
            sim.op("trial")

    return TestNoise


class C03(Check):
    id = "C03"
    runs = {"quick": 4000, "thorough": 120000}
    budget = {"quick": 180, "thorough": 2700}
    rule = ("digest of the sequence of file effects of all processes (who wrote, locked, failed or "
            "was killed, in order) with the state of the file before; nontrivial if two calls "
            "overlapped, a fault fired or the file was damaged before")
    real = ["flamingpy.simulations", "flamingpy.codes", "flamingpy.decoders", "file buffering of "
            "CPython", "files of the real kernel in a scratch directory"]
    stubs = ["mpi4py (simulated network)", "file locks", "disk faults", "clocks", "noise layer"]
    assumptions = ["single system calls are atomic with respect to other processes; appends go to "
                   "the end of the file", "a killed process loses its buffers and its locks",
                   "jobs that share a file have the same columns"]
    expected_probes = ["lock_contended", "two_new_file_jobs", "torn_row_before", "torn_header_before",
                       "failed_job", "killed_job", "row_of_failed_job", "sweep_job", "long_file_before", "dozens_of_processes"]

    def generate(self, rng, tier, idx):
        njobs = rng.choice([1, 2, 2, 2, 3, 3, 4])
        jobs = []
        for j in range(njobs):
            calls = [{"trials": rng.choice([0, 1, 1, 2, 3]), "tag": self.tag(rng, f"J{j}c{c}")}
                     for c in range(rng.choice([1, 1, 1, 2]))]
            jobs.append({"size": rng.choice([1, 1, 1, 2, 3]), "calls": calls,
                         "start": rng.choice([0, 0, 0, 1e-3, 0.05])})
        before = rng.choice(["absent", "absent", "absent", "empty", "rows", "rows", "torn-row",
                             "torn-row", "torn-header"])
        faults, kills, stalls = [], [], []
        if rng.random() < 0.75:
            for _ in range(rng.choice([1, 1, 1, 2, 2, 3])):
                j = rng.randrange(njobs)
                r = 0 if rng.random() < 0.75 else rng.randrange(jobs[j]["size"])
                name = f"J{j}.{r}"
                kind = rng.choice(["kill", "kill", "kill", "torn_kill", "torn_kill", "short", "eio",
                                   "eio", "diskfull", "diskfull", "stall"])
                if kind == "kill":
                    kills.append({"proc": name, "on": rng.choice(["fs", "fs", "fs", "mpi", "any"]),
                                  "at": rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 12])})
                elif kind == "stall":
                    stalls.append({"proc": name, "on": rng.choice(["fs", "any"]),
                                   "at": rng.randrange(12), "dur": rng.choice([0.01, 5.0])})
                elif kind == "diskfull":
                    faults.append({"kind": kind, "at": rng.randrange(4), "free": rng.choice(
                        [0, 1, 5, 40, 90, 130, 170, 220]), "dur": rng.choice([1e-4, 1e-3, 0.05, 10.0])})
                elif kind == "eio":
                    faults.append({"kind": kind, "proc": name, "at": rng.randrange(3), "on": rng.choice(
                        ["write", "write", "open", "truncate", "read", "lock", "fsync", "rename"])})
                else:
                    faults.append({"kind": kind, "proc": name, "at": rng.randrange(3),
                                   "frac": rng.choice([0.02, 0.2, 0.5, 0.8, 0.95, 0.999, rng.random()])})
        if idx % 50 == 31:
            # a job of dozens of processes
            jobs[0].update(size=rng.choice([8, 9, 16, 17, 32, 33, rng.randint(8, 40)]))
            jobs[0]["calls"][0]["trials"] = rng.randint(0, 40)
        old = rng.choice([70, 140, 270]) if rng.random() < 0.12 else 1100 if rng.random() < 0.004 else 0
        return {"jobs": jobs, "before": before, "old": old, "cut": rng.random(), "faults": faults,
                "kills": kills, "stalls": stalls, "preempt": rng.choice([0.05, 0.3, 0.3, 0.7, 0.95]),
                "delays": rng.choice(["none", "small", "wild"]), "eager": rng.random() < 0.7,
                "code": {"distance": 2, "ec": rng.choice(["primal", "dual"]), "boundaries": "open",
                         "backend": "rustworkx"}}

    @staticmethod
    def tag(rng, base):
        return base + rng.choice(["", "", "", ", x", ' "q"', "'", "-" * 60, "é", "|" * 9000 if
                                  rng.random() < 0.2 else ""])

    # ------------------------------------------------------------------------------ one run
    def execute(self, sc, run):
        lat = pipe.lattice(sc["code"])
        rec, self.filler = {}, b""
        tmp = os.path.realpath(tempfile.mkdtemp(prefix="dst-c03-"))
        path = os.path.join(tmp, "results.csv")
        try:
            self._execute(sc, run, lat, rec, tmp, path)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)

    def jobs(self, sim, fs, sc, jobs, rec, lat, path, run, prefix, done, started):
        out = []
        for j, spec in enumerate(jobs):
            def main(rank, img, spec=spec):
                sims = img.get("flamingpy.simulations")
                code_cls = img.get("flamingpy.codes").SurfaceCode
                cls = noise_class(sim, rec, lat)
                for c in spec["calls"]:
                    if rank == 0:
                        started.add(c["tag"])
                    sims.run_ec_simulation(
                        c["trials"], code_cls, dict(sc["code"]), cls,
                        {"tag": c["tag"], "extra": (1, 2)}, "UF",
                        {"weight_opts": {"method": "uniform", "integer": False}}, fname=path)
                    if rank == 0:
                        done.add(c["tag"])
            out.append(Job(sim, f"{prefix}{j}", spec["size"], main, fs=fs,
                           starts=[spec.get("start", 0)] * spec["size"],
                           delays=delay_fn(run, sc["delays"]), eager=sc["eager"]))
        return out

    def _execute(self, sc, run, lat, rec, tmp, path):
        done, started, spec_of = set(), set(), {}
        header = ["code", *sc["code"], "noise", "tag", "extra", "decoder", "weight_opts"] + FIXED

        def phase(jobs, prefix, plan=(), kills=(), stalls=(), preempt=0.0):
            sim = Sim(run, preempt=preempt)
            fs = SimFS(sim, tmp)
            fs.plan = [dict(f) for f in plan]
            js = self.jobs(sim, fs, sc, jobs, rec, lat, path, run, prefix, done, started)
            for j, spec in zip(js, jobs):
                for c in spec["calls"]:
                    spec_of[c["tag"]] = (c, spec)
            for p in sim.procs:
                mine = [dict(k) for k in kills if k["proc"] == p.name]
                slow = [dict(k) for k in stalls if k["proc"] == p.name]
                if mine:
                    p.killer = lambda p, label, m=mine: _due(m, label) and not run.fault("kill_" + label.split(".")[0])
                if slow:
                    def stall(p, label, m=slow):
                        d = _due(m, label)
                        if d:
                            run.fault("stalled_process")
                            return d["dur"]
                        return 0
                    p.staller = stall
            sim.run()
            if sim.deadlock:
                raise Violation("deadlock", f"jobs wait for ever: {sim.deadlock}")
            for j in js:
                for r, t in enumerate(j.tasks):
                    if isinstance(t.error, Violation):
                        raise t.error
                    if isinstance(t.error, Exception) and not isinstance(t.error, OSError):
                        raise unexpected(t.error, f"{t.name}: ")
                    if isinstance(t.error, OSError) and "injected" not in str(t.error):
                        raise unexpected(t.error, f"{t.name}: ")
            for name, what in fs.wrote:
                if name.split(".")[1] != "0":
                    raise Violation("non-root-write", f"{name}: {what}")
            return js

        # the file before
        kept, torn = set(), 0
        before = sc["before"]
        if before == "empty":
            open(path, "wb").close()
        elif before != "absent":
            phase([{"size": 1, "calls": [{"trials": 1, "tag": "old0, \"a\""}, {"trials": 2, "tag": "old1"}]}], "old")
            kept |= {"old0, \"a\"", "old1"}
            with open(path, "rb") as f:
                data = f.read()
            lines = data.splitlines(keepends=True)
            if sc.get("old") and before in ("rows", "torn-row"):
                self.filler = self.earlier(lines[1], sc["old"] * 1000, sc["cut"])
                data = lines[0] + self.filler + b"".join(lines[1:])
                lines[0] += self.filler
                run.probe("long_file_before")
            if before == "torn-header":
                n = 1 + int(sc["cut"] * (len(lines[0]) - 1))
                data, kept = lines[0][:n], set()
                run.fault("torn_header_left_behind")
                run.probe("torn_header_before")
                torn = 1
            elif before == "torn-row":
                i = 1 + (int(sc["cut"] * 1000) % 2)
                n = max(1, int(sc["cut"] * (len(lines[i]) - 1)))
                data = b"".join(lines[:i]) + lines[i][:n]
                kept = {"old0, \"a\""} if i == 2 else set()
                run.fault("torn_row_left_behind")
                run.probe("torn_row_before")
                torn = 1
            with open(path, "wb") as f:
                f.write(data)
            done -= {"old0, \"a\"", "old1"}
            done |= kept
        js = phase(sc["jobs"], "J", sc["faults"], sc["kills"], sc["stalls"], sc["preempt"])
        failed = [j for j in js if not j.ok]
        if any(j["size"] > 7 for j in sc["jobs"]):
            run.probe("dozens_of_processes")
        run.probe("failed_job", len(failed))
        run.probe("killed_job", sum(1 for j in failed if any(not p.alive for p in j.procs)))
        if any(len(s["calls"]) > 1 for s in sc["jobs"]):
            run.probe("sweep_job")
        if len(js) > 1 and before in ("absent", "empty", "torn-header"):
            run.probe("two_new_file_jobs")
        self.judge(path, header, done, started, spec_of, rec, len(failed) + torn, run,
                   none_ok=not done)
        # once the faults have stopped, a new job must get its row in
        last = {"size": 1, "calls": [{"trials": 1, "tag": "last"}]}
        js = phase([last], "L")
        if not js[0].ok:
            raise Violation("no-recovery", f"a job after the faults fails: {js[0].errors()}")
        records = self.judge(path, header, done, started, spec_of, rec, len(failed) + torn, run)
        run.nontrivial = len(sc["jobs"]) > 1 or bool(run.faults)
        run.signature = digest(before, [e for e in run.log.events if e.startswith(("fs ", "kill", "mpi"))])
        run.log.add("file", digest([[x[:8] for x in r] for r in records]), sorted(done))
        run.sample = {"before": before, "jobs": [[j["size"], [c["tag"][:12] for c in j["calls"]]] for j in sc["jobs"]],
                      "faults": run.faults, "file_effects": [e for e in run.log.events if e.startswith("fs ")][:40],
                      "successful_calls": sorted(t[:12] for t in done), "records_in_file": len(records)}

    @staticmethod
    def earlier(line, size, seed):
        """Many earlier rows of different lengths, some quoted."""
        r = random.Random(seed)
        out, n = [], 0
        while n < size:
            t = (f'"e{len(out)}, ""{"x" * r.randrange(60)}"""' if r.random() < 0.7 else f"e{len(out)}").encode()
            assert line.count(b'"old0, ""a"""') == 1
            out.append(line.replace(b'"old0, ""a"""', t))
            n += len(out[-1])
        return b"".join(out)

    def judge(self, path, header, done, started, spec_of, rec, n_failed, run, none_ok=False):
        if not os.path.exists(path):
            if done:
                raise Violation("file-missing", f"{sorted(done)} finished")
            return []
        with open(path, "rb") as f:
            data = f.read()
        if self.filler:
            first = data.find(b"\n") + 1
            if data[first:first + len(self.filler)] != self.filler:
                raise Violation("earlier-rows-altered", f"{len(self.filler)} bytes of rows that were there before")
            data = data[:first] + data[first + len(self.filler):]
        text = data.decode("utf8", errors="replace")
        records = [r for r in csv.reader(io.StringIO(text, newline="")) if r]
        if not done and n_failed and (not records or records[0] != header):
            # nothing was ever finished: the beginning may still be missing
            if len(records) > 1:
                raise Violation("bad-header", f"first record {records[0][:30]} of {len(records)}")
            return records
        if not records or records[0] != header:
            raise Violation("bad-header", f"first record {records[:1]}")
        if not text.startswith(",".join(header) + "\n") and not text.startswith(",".join(header) + "\r"):
            raise Violation("bad-header", f"the file starts with {text[:200]!r}")
        ti, ei, ri, mi = (header.index(x) for x in ("tag", "errors", "trials", "mpi_size"))
        seen, fragments = {}, 0
        for r in records[1:]:
            if r == header:
                raise Violation("second-header", f"record {records.index(r, 1)}")
            tag = r[ti] if len(r) > ti else None
            if tag in spec_of and len(r) > ri:
                c, spec = spec_of[tag]
                if rec.get(tag, {"calls": 0})["calls"] != c["trials"]:
                    raise Violation("row-without-trials", f"row of {tag} although "
                                    f"{rec.get(tag, {}).get('calls', 0)} of {c['trials']} trials ran")
            if len(r) == len(header) and tag in spec_of:
                seen.setdefault(tag, []).append(r)
            else:
                fragments += 1
                if r[0] and not "SurfaceCode".startswith(r[0]):
                    raise Violation("damaged-record", f"{r}"[:500])
        for tag in done:
            rows = seen.get(tag, [])
            if len(rows) != 1:
                raise Violation("row-lost" if not rows else "row-repeated",
                                f"{len(rows)} rows of the finished call {tag[:40]!r}; "
                                f"{len(records)} records, {fragments} fragments")
            r = rows[0]
            c, spec = spec_of[tag]
            want = {ei: rec.get(tag, {"failed": 0})["failed"], ri: c["trials"], mi: spec["size"],
                    0: "SurfaceCode"}
            for i, w in want.items():
                if r[i] != str(w):
                    raise Violation("row-altered", f"{header[i]} is {r[i]!r}, not {w!r}, in the row of {tag[:40]!r}")
        extra = sum(1 for t in seen if t not in done)
        if any(len(v) > 1 for v in seen.values()):
            raise Violation("row-repeated", f"{ {t[:20]: len(v) for t, v in seen.items()} }")
        run.probe("row_of_failed_job", extra)
        if extra + fragments > n_failed:
            raise Violation("extra-record", f"{extra} rows of unfinished calls and {fragments} fragments, "
                            f"but {n_failed} failures")
        for t in seen:
            if t not in started:
                raise Violation("extra-record", f"row of {t!r}, never started")
        return records

    def shrink(self, sc):
        for i in range(len(sc["jobs"])):
            if len(sc["jobs"]) > 1:
                jobs = sc["jobs"][:i] + sc["jobs"][i + 1:]
                ren = {f"J{k}": f"J{k - (k > i)}" for k in range(len(sc["jobs"])) if k != i}

                def fix(fs):
                    return [{**f, "proc": ren[f["proc"].split(".")[0]] + "." + f["proc"].split(".")[1]}
                            if "proc" in f else f for f in fs
                            if "proc" not in f or f["proc"].split(".")[0] in ren]
                yield {**sc, "jobs": jobs, "faults": fix(sc["faults"]), "kills": fix(sc["kills"]),
                       "stalls": fix(sc["stalls"])}
        for key in ("faults", "kills", "stalls"):
            for i in range(len(sc[key])):
                yield {**sc, key: sc[key][:i] + sc[key][i + 1:]}
        for i, j in enumerate(sc["jobs"]):
            if j["size"] > 1:
                jobs = [dict(x) for x in sc["jobs"]]
                jobs[i]["size"] = 1
                yield {**sc, "jobs": jobs}
            if len(j["calls"]) > 1:
                jobs = [dict(x) for x in sc["jobs"]]
                jobs[i]["calls"] = j["calls"][:1]
                yield {**sc, "jobs": jobs}
            for k, c in enumerate(j["calls"]):
                if c["trials"] > 0:
                    jobs = [dict(x) for x in sc["jobs"]]
                    jobs[i]["calls"] = [dict(x) for x in j["calls"]]
                    jobs[i]["calls"][k]["trials"] = 0
                    yield {**sc, "jobs": jobs}
        if sc.get("old"):
            yield {**sc, "old": 0}
        if sc["before"] != "absent":
            yield {**sc, "before": "absent"}
        if sc["delays"] != "none":
            yield {**sc, "delays": "none"}


def _due(plan, label):
    for k in plan:
        if k.get("done"):
            continue
        if k["on"] == "any" or label.startswith(k["on"] + "."):
            if k["at"] <= 0:
                k["done"] = True
                return k
            k["at"] -= 1
    return None


CHECK = C03()
