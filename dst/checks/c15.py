"""C15: pipelines in concurrent threads do not interfere."""
import sys

import numpy as np

from .. import image, pipe
from ..core import Violation, digest
from ..image import Image
from ..inject import Injected, Places
from ..kernel import Sim
from ..runner import Check
from ..seams import Solo

MODULES = ("codes", "noise", "decoders.decoder", "decoders.mwpm", "decoders.unionfind", "utils.graph_states")


def pipeline(img, p, note=lambda *a: None):
    code = pipe.make_code(img, p["code"])
    noise = pipe.make_noise(img, code, p["noise"])
    gen = np.random.default_rng(p["seed"])
    out = []
    for k in range(p["trials"]):
        out.append(pipe.trial(img, code, noise, p["dec"], gen))
        note("trial", k)
    return out


class Preempt:
    """Hands the baton to the scheduler at seeded counts of executed lines, or of calls of library functions
    from package code (before and after them, in the middle of a line); one counter per thread."""

    def __init__(self, sim, mean, abort=None, places=None):
        self.places = Places(*places[:2]) if places else None
        self.limit = places[2] if places else 0
        self.hits = {}
        self.sim = sim
        self.mean = mean
        self.left = sim.ch.geometric(mean)
        self.abort = abort
        self.n = 0
        self.pre = str(image.ROOT / "flamingpy")
        self.in_op = False

    def start(self, calls):
        if calls:
            sys.setprofile(self._profile)
        else:
            sys.settrace(self._global)

    @staticmethod
    def stop():
        sys.setprofile(None)
        sys.settrace(None)

    def _profile(self, frame, event, arg):
        if event in ("c_call", "c_return") and frame.f_code.co_filename.startswith(self.pre):
            self._local(frame, "line", arg)

    def _local(self, frame, event, arg):
        if event == "line" and not self.in_op:
            self.n += 1
            if self.n == self.abort:
                self.abort = -1
                raise Injected("injected")
            self.left -= 1
            if self.places is not None:
                self.left = 1
                if frame in self.places:
                    key = (frame.f_code, frame.f_lineno)
                    self.hits[key] = self.hits.get(key, 0) + 1
                    self.left = 0 if self.hits[key] <= self.limit else 1
            if self.left == 0:
                self.left = self.sim.ch.geometric(self.mean)
                self.in_op = True
                try:
                    self.sim.op("line", f"{frame.f_code.co_filename[len(self.pre) + 1:]}:{frame.f_lineno}")
                finally:
                    self.in_op = False
        return self._local

    def _global(self, frame, event, arg):
        return self._local if frame.f_code.co_filename.startswith(self.pre) else None


class C15(Check):
    id = "C15"
    needs_lemon = True
    runs = {"quick": 1000, "thorough": 30000}
    budget = {"quick": 200, "thorough": 2700}
    rule = "digest of the event log (every preemption and its source line); nontrivial if a thread was preempted"
    real = ["flamingpy.codes", "flamingpy.noise", "flamingpy.decoders", "lemonpy (compiled from the current sources)"]
    stubs = ["the thread scheduler (preemption at any executed line of the package)", "identity hashes"]
    assumptions = ["a thread is preempted between lines of package code (in every third run at a few seeded places only), or (every fourth run) before and after the library "
                   "calls it makes, not inside a library call",
                   "the modules of the package have been imported before the threads start"]
    expected_probes = ["threads_2", "threads_3", "threads_4", "same_code_arguments", "aborted_thread", "preempted",
                       "iid", "cv", "macro", "UF", "MWPM", "dense_preemption",
                       "preempted_between_calls", "preempted_at_places"]

    def generate(self, rng, tier, idx):
        n = rng.choice([2, 2, 2, 3, 4])
        same = rng.random() < 0.5
        ps = []
        for k in range(n):
            p = pipe.gen_pipeline(rng, tier, cap=rng.choice([60, 110, 170]))
            if same and k and p["noise"]["kind"] != "macro":
                p["code"] = dict(ps[0]["code"])
                p["dec"] = pipe.gen_decoder(rng, p["noise"]["kind"], p["code"]["backend"], True,
                                            p["noise"]["args"].get("delta", 0.1))
            p["seed"] = ps[0]["seed"] if k and rng.random() < 0.2 else rng.getrandbits(40)
            p["trials"] = rng.choice([1, 1, 2])
            ps.append(p)
        return {"ps": ps, "same": same, "mean": rng.choice([3, 30, 300, 300, 3000, 10000]),
                "calls": rng.random() < 0.25,
                "places": [rng.getrandbits(30), rng.choice([10, 40, 40, 150]), rng.choice([1, 3, 10])]
                if rng.random() < 0.35 else None,
                "abort": rng.choice([0, 0, 0, 1]) * rng.randint(1, 20000), "hash": rng.getrandbits(30)}

    def prepare(self):
        pass

    def execute(self, sc, run):
        want = []
        for p in sc["ps"]:
            with Solo(image=Image(hash_seed=sc["hash"])) as proc:
                want.append(pipeline(proc.image, p))
        sim = Sim(run, preempt=0.9, max_ops=10**7)
        proc = sim.proc("process")
        proc.image = img = Image(hash_seed=sc["hash"])
        with Solo(image=img):
            for m in MODULES:
                img.get("flamingpy." + m)
        tasks = []
        for k, p in enumerate(sc["ps"]):
            def body(p=p, k=k):
                pre = Preempt(sim, sc["mean"], sc["abort"] if k == 0 else None, sc.get("places"))
                pre.start(sc.get("calls"))
                try:
                    return pipeline(img, p, lambda *a: sim.log.add(f"t{k}", *a))
                finally:
                    pre.stop()
            tasks.append(sim.spawn(f"t{k}", proc, body))
        sim.run()
        run.probe(f"threads_{len(tasks)}")
        if sc["same"]:
            run.probe("same_code_arguments")
        if sc["mean"] == 3:
            run.probe("dense_preemption")
        if sc.get("places"):
            run.probe("preempted_at_places")
        if sc.get("calls"):
            run.probe("preempted_between_calls")
        run.probe("preempted", sim.switches)
        run.fault("preemption", sim.switches)
        for k, (t, p) in enumerate(zip(tasks, sc["ps"])):
            run.probe(p["noise"]["kind"])
            run.probe(p["dec"]["decoder"])
            if isinstance(t.error, Injected):
                run.fault("aborted_thread")
                run.probe("aborted_thread")
                continue
            if t.error is not None:
                raise Violation("failed", f"thread {k} of {len(tasks)}, which succeeds alone: {t.error!r}")
            d = pipe.first_difference(want[k], t.result)
            if d:
                raise Violation("different", f"thread {k} of {len(tasks)} against the same pipeline alone: {d}")
        run.nontrivial = sim.switches > len(tasks)
        run.signature = run.log.digest()
        run.sample = {"pipelines": sc["ps"], "mean_lines_between_preemptions": sc["mean"], "switches": sim.switches}

    def shrink(self, sc):
        ps = sc["ps"]
        if len(ps) > 2:
            for i in range(len(ps)):
                yield {**sc, "ps": ps[:i] + ps[i + 1:]}
        if sc["abort"]:
            yield {**sc, "abort": 0}
        for i, p in enumerate(ps):
            if p["trials"] > 1:
                yield {**sc, "ps": ps[:i] + [{**p, "trials": 1}] + ps[i + 1:]}
            for q in pipe.shrink_pipeline(p):
                yield {**sc, "ps": ps[:i] + [{**p, **q}] + ps[i + 1:]}


CHECK = C15()
