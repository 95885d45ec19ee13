"""Seeded search over many simulated runs; minimisation, replay files, evidence."""
import importlib
import json
import os
import pathlib
import select
import signal
import struct
import subprocess
import sys
import tempfile
import time
import traceback
import mmap
import random
import resource

from . import core, image, seams
from .core import Chooser, Discard, HarnessError, Run, Violation, derive, jsonable

VERIF = pathlib.Path(__file__).resolve().parent.parent
OUT = VERIF / "out"
EVIDENCE = VERIF / "evidence"
KNOWN = VERIF / "known_findings.json"
ALL = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13",
       "C14", "C15", "C16", "C17", "C18", "C23"]
mono = time.monotonic  # bound before the seams are installed
PYTHON = sys.executable


def load_check(pid):
    return importlib.import_module(f"dst.checks.{pid.lower()}").CHECK


# ---------------------------------------------------------------------------------- setup
def build_lemon():
    """Compile the matching extension from the current sources into a scratch directory."""
    import sysconfig

    d = tempfile.mkdtemp(prefix="dst-lemon-")
    out = os.path.join(d, "lemonpy.so")
    src = image.ROOT / "flamingpy" / "cpp" / "lemonpy.cpp"
    cmd = ["g++", "-O1", "-std=c++14", "-shared", "-fPIC", "-fvisibility=hidden",
           "-I" + sysconfig.get_paths()["include"], "-I/opt/vp/cmake/pybind11/include",
           str(src), "-o", out]
    for extra in (["-llemon"], []):
        r = subprocess.run(cmd + extra, capture_output=True, text=True)
        if r.returncode == 0:
            return d, out
    raise HarnessError("lemonpy.cpp does not compile:\n" + r.stderr[-2000:])


def prepare(check):
    """Load dependencies, sources and seams (before forking)."""
    os.environ.setdefault("MPLBACKEND", "Agg")
    proc = None
    if check.needs_lemon:
        if os.environ.get("DST_LEMON"):
            image.lemon_path = os.environ["DST_LEMON"]
        else:
            d, image.lemon_path = build_lemon()
            import atexit
            import shutil

            me = os.getpid()
            atexit.register(lambda: os.getpid() == me and shutil.rmtree(d, ignore_errors=True))
            os.environ["DST_LEMON"] = image.lemon_path
    import numpy  # noqa
    import scipy.sparse, scipy.linalg, scipy.special  # noqa
    import networkx, rustworkx  # noqa
    import thewalrus.symplectic  # noqa
    import csv, logging, argparse, uuid, secrets, tempfile as _t, io, pathlib as _p, shutil, platform  # noqa
    if check.needs_plot:
        import matplotlib
        import matplotlib.pyplot  # noqa
        import mpl_toolkits.mplot3d.art3d  # noqa
        try:
            import plotly.graph_objects  # noqa
        except ImportError:
            pass
    seams.install()
    seams.install_rx()
    image.install()
    image.load_sources()
    import warnings

    warnings.simplefilter("ignore")
    sys.setrecursionlimit(max(sys.getrecursionlimit(), 1000))


# ------------------------------------------------------------------------------- one run
def from_package(e):
    """Whether an exception was raised by (or below) code of the package."""
    pre = str(image.ROOT / "flamingpy")
    return any(f.filename.startswith(pre) for f in traceback.extract_tb(e.__traceback__))


def unexpected(e, where=""):
    """The violation 'the package raised where it must not'."""
    pre = str(image.ROOT / "flamingpy")
    last = [f for f in traceback.extract_tb(e.__traceback__) if f.filename.startswith(pre)]
    at = f"{last[-1].filename[len(str(image.ROOT)) + 1:]}:{last[-1].lineno}" if last else "?"
    return Violation(f"raised-{type(e).__name__}", f"{where}{e!r} at {at}")


class StepLimit(BaseException):
    pass


class Suspect(BaseException):
    """The run has used far more processor time than any run should."""


def _alarm(signum, frame):
    raise Suspect()


def run_once(check, scenario, chooser, steplimit=None):
    """Returns (run, violation or None)."""
    run = Run(chooser)
    limit = steplimit or scenario.get("_steplimit")
    if limit:
        _arm_steps(limit)
    try:
        check.execute(scenario, run)
        return run, None
    except Violation as v:
        return run, v
    except StepLimit:
        return run, Violation("no-termination", f"more than {limit} lines executed")
    except Exception as e:
        if isinstance(e, (Discard, HarnessError)) or not from_package(e):
            raise
        return run, unexpected(e)
    finally:
        if limit:
            sys.settrace(None)


def _arm_steps(limit):
    pre = str(image.ROOT / "flamingpy")
    left = [limit]

    def local(frame, event, arg):
        if event == "line":
            left[0] -= 1
            if left[0] < 0:
                raise StepLimit()
        return local

    def glob(frame, event, arg):
        if frame.f_code.co_filename.startswith(pre):
            return local
        return None

    sys.settrace(glob)


def case(check, tier, base_seed, idx):
    seed = derive(base_seed, check.id, idx)
    scenario = jsonable(check.generate(random.Random(seed), tier, idx))
    return seed, scenario


# ---------------------------------------------------------------------------------- worker
def worker(check, tier, base_seed, indices, wfd, best, deadline):
    out = os.fdopen(wfd, "wb", buffering=0)

    def send(msg):
        data = json.dumps(msg).encode()
        out.write(struct.pack(">I", len(data)) + data)

    agg = {"runs": 0, "nontrivial": 0, "sigs": [], "faults": {}, "probes": {}, "sim_time": 0.0,
           "samples": [], "discarded": 0, "known": {}, "log": [], "events": 0}
    known = known_keys(check.id)
    signal.signal(signal.SIGVTALRM, _alarm)
    resource.setrlimit(resource.RLIMIT_AS, (check.memory, check.memory))

    def flush():
        send({"t": "agg", **agg})
        agg.update(runs=0, nontrivial=0, sigs=[], faults={}, probes={}, sim_time=0.0, samples=[],
                   discarded=0, known={}, log=[], events=0)

    last = mono()
    for idx in indices:
        if idx > struct.unpack("q", best[:8])[0]:
            break
        if mono() > deadline:
            send({"t": "late", "idx": idx})
            break
        send({"t": "start", "idx": idx})
        try:
            seed, scenario = case(check, tier, base_seed, idx)
            slow = scenario.get("_slow", 1)  # a scenario may be known to take longer than most
            if slow > 1:
                send({"t": "slow", "factor": slow})
            signal.setitimer(signal.ITIMER_VIRTUAL, check.cpu * slow)
            try:
                run, v = run_once(check, scenario, Chooser(seed))
            finally:
                signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        except Discard:
            agg["discarded"] += 1
            continue
        except Suspect:
            send({"t": "suspect", "idx": idx})
            break
        except BaseException:
            send({"t": "error", "idx": idx, "tb": traceback.format_exc()[-6000:]})
            break
        agg["runs"] += 1
        agg["sim_time"] += run.sim_time
        agg["events"] += run.log.n
        agg["log"].append([idx, run.log.digest()])
        for k, n in run.faults.items():
            agg["faults"][k] = agg["faults"].get(k, 0) + n
        for k, n in run.probes.items():
            agg["probes"][k] = agg["probes"].get(k, 0) + n
        if run.nontrivial:
            agg["nontrivial"] += 1
            agg["sigs"].append(run.signature or run.log.digest())
        if run.sample is not None and idx < 40:
            agg["samples"].append([idx, run.sample])
        if v is not None:
            key = getattr(v, "key", v.kind)
            if key in known:
                agg["known"][key] = agg["known"].get(key, 0) + 1
            else:
                cur = struct.unpack("q", best[:8])[0]
                if idx < cur:
                    best[:8] = struct.pack("q", idx)
                send({"t": "viol", "idx": idx, "seed": seed, "scenario": scenario, "kind": v.kind,
                      "detail": v.detail, "choices": run.ch.trace, "digest": run.log.digest()})
                break
        if mono() - last > 1.0:
            flush()
            last = mono()
    flush()
    send({"t": "end"})
    os._exit(0)


def known_keys(pid):
    if not KNOWN.exists():
        return {}
    return {f["key"]: f["what"] for f in json.loads(KNOWN.read_text()).get("findings", [])
            if f["property"] == pid and f.get("status") == "known"}


class Explorer:
    def __init__(self, check, tier, seed, workers, runs=None, budget=None):
        self.check, self.tier, self.seed, self.workers = check, tier, seed, workers
        self.n = runs or check.runs[tier]
        self.budget = budget or check.budget[tier]
        self.tot = {"runs": 0, "nontrivial": 0, "sim_time": 0.0, "faults": {}, "probes": {},
                    "samples": [], "discarded": 0, "known": {}, "events": 0}
        self.sigs = set()
        self.logs = {}
        self.viol = None
        self.late = False
        self.hangs = []

    def explore(self):
        best = mmap.mmap(-1, 8)
        best[:8] = struct.pack("q", 2**62)
        self.best = best
        t0 = mono()
        deadline = t0 + self.budget
        live = {}
        for w in range(self.workers):
            self._spawn(live, list(range(w, self.n, self.workers)), deadline)
        while live:
            fds = list(live)
            r, _, _ = select.select(fds, [], [], 1.0)
            for fd in r:
                st = live[fd]
                chunk = os.read(fd, 1 << 20)
                if not chunk:
                    self._reap(live, fd)
                    continue
                st["buf"] += chunk
                st["seen"] = mono()
                self._drain(st)
            for fd in list(live):
                st = live[fd]
                if mono() - st["seen"] > self.check.hang * st["slow"]:
                    os.kill(st["pid"], signal.SIGKILL)
                    idx = st["idx"]
                    self.hangs.append(idx)
                    rest = [i for i in st["todo"] if idx is not None and i > idx]
                    st["done"] = True
                    self._reap(live, fd)
                    if rest and len(self.hangs) < 4:
                        self._spawn(live, rest, deadline)
        self.wall = mono() - t0

    def _spawn(self, live, todo, deadline):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            die_with_parent()
            os.close(r)
            for fd in live:
                os.close(fd)
            try:
                os.setpgid(0, 0)
            except OSError:
                pass
            try:
                worker(self.check, self.tier, self.seed, todo, w, self.best, deadline)
            finally:
                os._exit(3)
        os.close(w)
        live[r] = {"pid": pid, "buf": b"", "seen": mono(), "idx": None, "todo": todo, "done": False, "slow": 1}

    def _reap(self, live, fd):
        st = live.pop(fd)
        os.close(fd)
        _, status = os.waitpid(st["pid"], 0)
        if not st["done"]:
            raise HarnessError(f"worker died (status {status}) at run {st['idx']}")

    def _drain(self, st):
        while len(st["buf"]) >= 4:
            n = struct.unpack(">I", st["buf"][:4])[0]
            if len(st["buf"]) < 4 + n:
                return
            msg = json.loads(st["buf"][4:4 + n])
            st["buf"] = st["buf"][4 + n:]
            t = msg["t"]
            if t == "start":
                st["idx"], st["slow"] = msg["idx"], 1
            elif t == "slow":
                st["slow"] = msg["factor"]
            elif t == "agg":
                for k in ("runs", "nontrivial", "sim_time", "discarded", "events"):
                    self.tot[k] += msg[k]
                for k in ("faults", "probes", "known"):
                    for a, b in msg[k].items():
                        self.tot[k][a] = self.tot[k].get(a, 0) + b
                self.tot["samples"] += msg["samples"]
                self.sigs.update(msg["sigs"])
                self.logs.update({i: d for i, d in msg["log"]})
            elif t == "viol":
                if self.viol is None or msg["idx"] < self.viol["idx"]:
                    self.viol = msg
            elif t == "late":
                self.late = True
            elif t == "suspect":
                # decided by hang_cases; there is no need to explore further runs
                self.hangs.append(msg["idx"])
                self.best[:8] = struct.pack("q", -1)
            elif t == "error":
                raise HarnessError(f"run {msg['idx']}:\n{msg['tb']}")
            elif t == "end":
                st["done"] = True

    def hang_cases(self):
        """Decide suspected hangs in a child with a step budget."""
        for idx in sorted(self.hangs)[:2]:
            seed, scenario = case(self.check, self.tier, self.seed, idx)
            scenario["_steplimit"] = self.check.steplimit
            res = in_child(lambda: _outcome(self.check, scenario, Chooser(seed)), 240)
            if res is None:
                return {"idx": idx, "seed": seed, "scenario": scenario, "kind": "hang",
                        "detail": "no progress for 240 s", "choices": [],
                        "digest": ""}
            if res.get("error"):
                raise HarnessError(res["error"])
            if res["kind"]:
                return {"idx": idx, "seed": seed, "scenario": scenario, **res}
        return None


def _outcome(check, scenario, chooser):
    try:
        run, v = run_once(check, scenario, chooser)
    except Discard:
        return {"kind": None}
    except BaseException:
        return {"kind": None, "error": traceback.format_exc()[-6000:]}
    return {"kind": v.kind if v else None, "detail": v.detail if v else "",
            "key": getattr(v, "key", None) if v else None,
            "choices": run.ch.trace, "digest": run.log.digest(), "events": run.log.events[-200:],
            "faults": run.faults}


def die_with_parent():
    """A child does not outlive the process that explores (Linux; elsewhere nothing happens)."""
    try:
        import ctypes

        ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    except (OSError, AttributeError):
        pass


def in_child(fn, timeout):
    """Run fn in a forked child; its JSON result, or None if it exceeds the timeout."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        die_with_parent()
        os.close(r)
        try:
            data = json.dumps(fn()).encode()
            with os.fdopen(w, "wb") as f:
                f.write(data)
        finally:
            os._exit(0)
    os.close(w)
    buf = b""
    end = mono() + timeout
    ok = True
    while True:
        left = end - mono()
        if left <= 0:
            ok = False
            break
        if select.select([r], [], [], left)[0]:
            chunk = os.read(r, 1 << 20)
            if not chunk:
                break
            buf += chunk
    os.close(r)
    if not ok:
        os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    return json.loads(buf) if ok and buf else None


# ------------------------------------------------------------------------------ minimiser
def minimise(check, viol, budget):
    """Shrink scenario and schedule while the same violation class persists."""
    end = mono() + budget
    kind = viol["kind"]
    best = dict(viol)
    tries = 0
    if kind == "hang":
        return best, 0

    def attempt(scenario, choices):
        nonlocal tries
        tries += 1
        res = in_child(lambda: _outcome(check, scenario, Chooser(0, replay=choices)),
                       min(check.hang, max(1.0, end - mono())))
        if res and res.get("kind") == kind:
            best.update(scenario=scenario, choices=_trim(res["choices"]), detail=res["detail"],
                        digest=res["digest"])
            return True
        return False

    if not attempt(best["scenario"], best["choices"]):
        return best, -1
    progress = True
    while progress and mono() < end:
        progress = False
        for cand in check.shrink(best["scenario"]):
            if mono() > end:
                break
            if attempt(jsonable(cand), best["choices"]):
                progress = True
                break
        else:
            ch = best["choices"]
            if attempt(best["scenario"], []) and best["choices"] != ch:
                progress = bool(ch)
                continue
            size = len(ch) // 2
            while size >= 1 and mono() < end:
                i = 0
                while i < len(best["choices"]) and mono() < end:
                    ch = best["choices"]
                    if any(ch[i:i + size]):
                        new = ch[:i] + [0] * len(ch[i:i + size]) + ch[i + size:]
                        if attempt(best["scenario"], _trim(new)):
                            progress = True
                    i += size
                size //= 2
                if tries > 400:
                    break
            break
    return best, tries


def _trim(choices):
    c = list(choices)
    while c and c[-1] == 0:
        c.pop()
    return c


# --------------------------------------------------------------------------------- command
def write_replay(check, viol, base_seed, tier, tries):
    OUT.mkdir(exist_ok=True)
    path = OUT / f"{check.id}-seed{base_seed}-run{viol['idx']}.json"
    if viol["kind"] != "hang":
        res = in_child(lambda: _outcome(check, viol["scenario"], Chooser(0, replay=viol["choices"])),
                       check.hang * 4) or {}
    else:
        res = {}
    path.write_text(json.dumps({
        "property": check.id, "tier": tier, "verif_seed": base_seed, "run": viol["idx"],
        "run_seed": viol["seed"], "kind": viol["kind"], "detail": viol["detail"],
        "scenario": viol["scenario"], "choices": viol["choices"], "digest": viol["digest"],
        "minimiser_attempts": tries, "faults": res.get("faults"), "event_tail": res.get("events"),
    }, indent=1) + "\n")
    return path


def cmd_check(pid, tier, seed, workers, runs=None, budget=None, quiet=False):
    t0 = mono()
    check = load_check(pid)
    prepare(check)
    check.prepare()
    ex = Explorer(check, tier, seed, workers, runs, budget)
    ex.explore()
    viol = ex.viol
    if viol is None and ex.hangs:
        viol = ex.hang_cases()
    if viol is None and hasattr(check, "extra"):
        viol = check.extra(tier, seed, ex)
    path = None
    if viol is not None:
        if "scenario" in viol:
            try:
                viol, tries = minimise(check, viol, 60 if tier == "quick" else 180)
            except HarnessError:
                tries = -2
            path = write_replay(check, viol, seed, tier, tries)
        else:
            path = viol["path"]
    wall = mono() - t0
    write_evidence(check, tier, seed, ex, wall, viol)
    for key, n in ex.tot["known"].items():
        print(f"KNOWN-FINDING: property={pid} {known_keys(pid)[key]} ({n} runs)")
    if viol is not None:
        print(f"{viol['kind']}: {viol['detail']}"[:1500])
        try:
            rel = path.relative_to(VERIF)
        except ValueError:
            rel = path
        print(f"VIOLATION property={pid} replay={rel}", flush=True)
        return 1
    if ex.tot["runs"] < check.min_runs:
        print(f"only {ex.tot['runs']} runs finished in the time allowed", file=sys.stderr)
        return 2
    if not quiet:
        print(f"{pid} {tier}: {ex.tot['runs']} runs, {len(ex.sigs)} distinct, "
              f"{ex.tot['discarded']} discarded, {wall:.1f} s, faults {ex.tot['faults']}, "
              f"probes {ex.tot['probes']}")
    return 0


def write_evidence(check, tier, seed, ex, wall, viol):
    EVIDENCE.mkdir(exist_ok=True)
    tot = ex.tot
    samples = [s for _, s in sorted(tot["samples"], key=lambda x: x[0])][:3]
    samples = [s if len(json.dumps(s)) < 6000 else {"truncated": json.dumps(s)[:6000]} for s in samples]
    stuck = [p for p in check.expected_probes if not tot["probes"].get(p)]
    cov = {
        "evaluations": tot["runs"],
        "distinct_nontrivial": len(ex.sigs),
        "rule": check.rule,
        "samples": samples or ["none"],
        "simulated_runs": tot["runs"],
        "discarded_runs": tot["discarded"],
        "seeds_per_hour": round(tot["runs"] / max(ex.wall, 1e-9) * 3600),
        "simulated_seconds": round(tot["sim_time"], 6),
        "events_logged": tot["events"],
        "faults_fired": dict(sorted(tot["faults"].items())),
        "conditions_reached": dict(sorted(tot["probes"].items())),
        "conditions_never_reached": stuck,
        "real_components": check.real,
        "stub_components": check.stubs,
        "workers": ex.workers,
        "stopped_by_time_budget": ex.late,
        "suspected_hangs": len(ex.hangs),
        "log_digest": core.digest(sorted(ex.logs.items())),
    }
    cov.update(check.extra_coverage(ex))
    (EVIDENCE / f"{check.id}.json").write_text(json.dumps({
        "property": check.id, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
        "assumptions": check.assumptions, "wall_s": round(wall, 3),
        "violations": 0 if viol is None else 1,
    }, indent=1) + "\n")


def cmd_replay(path):
    data = json.loads(pathlib.Path(path).read_text())
    check = load_check(data["property"])
    prepare(check)
    check.prepare()
    if data.get("external"):
        return check.replay_external(data)
    res = in_child(lambda: _outcome(check, data["scenario"], Chooser(0, replay=data["choices"])), 600)
    if res is None:
        kind, digest, detail = "hang", "", "no progress"
    else:
        if res.get("error"):
            print(res["error"], file=sys.stderr)
            return 2
        kind, digest, detail = res["kind"], res.get("digest"), res.get("detail")
        for e in (res.get("events") or [])[-60:]:
            print("  ", e)
    if kind is None:
        print("the violation does not occur on this tree")
        return 0
    print(f"{kind}: {detail}")
    print("same violation" if kind == data["kind"] else f"expected {data['kind']}",
          "same event log" if digest == data["digest"] else "event log differs")
    print(f"VIOLATION property={data['property']} replay={path}")
    return 1


def cmd_selftest(pids, seed, runs):
    """Same seeds, other worker counts and hash seeds: the event logs must be identical."""
    bad = 0
    for pid in pids:
        outs = []
        for workers, hs in ((8, "0"), (3, "0"), (5, "12345")):
            env = dict(os.environ, PYTHONHASHSEED=hs, DST_SELF="1")
            r = subprocess.run([PYTHON, "-m", "dst", "digests", pid, "--seed", str(seed), "--runs",
                                str(runs), "--workers", str(workers)], env=env, cwd=VERIF,
                               capture_output=True, text=True)
            if r.returncode:
                print(pid, "selftest run failed", r.stderr[-2000:])
                bad += 1
                break
            outs.append(json.loads(r.stdout.splitlines()[-1]))
        else:
            diff = [i for i in outs[0] if any(o.get(i) != outs[0][i] for o in outs)]
            print(pid, f"{len(outs[0])} runs x {len(outs)}:", "identical" if not diff else f"DIFFER {diff[:10]}")
            bad += bool(diff)
    return 1 if bad else 0


def cmd_digests(pid, tier, seed, workers, runs):
    check = load_check(pid)
    prepare(check)
    check.prepare()
    ex = Explorer(check, tier, seed, workers, runs, 600)
    ex.explore()
    print(json.dumps({str(k): v for k, v in sorted(ex.logs.items())}))
    return 0


class Check:
    """Base of the checks; see checks/*.py."""

    id = ""
    needs_lemon = False
    needs_plot = False
    runs = {"quick": 100, "thorough": 1000}
    budget = {"quick": 240, "thorough": 3000}
    min_runs = 10
    hang = 60
    steplimit = 20_000_000  # executed lines of the package per run
    cpu = 30  # seconds of one run after which it is examined with the step limit
    memory = 6 << 30
    rule = ""
    real = []
    stubs = []
    assumptions = []
    expected_probes = []

    def prepare(self):
        pass

    def generate(self, rng, tier, idx):
        raise NotImplementedError

    def execute(self, scenario, run):
        raise NotImplementedError

    def shrink(self, scenario):
        return []

    def extra_coverage(self, ex):
        return {}
