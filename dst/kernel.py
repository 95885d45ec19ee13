"""Cooperative scheduler: simulated processes and threads, clock, timers, kills.

Every simulated thread is a real thread that only runs while it holds the baton; the seeded
chooser decides who gets it at every seam operation."""
import heapq
import threading

from . import seams
from .core import HarnessError

BASE_TIME = 1_700_000_000.0


class SimKilled(BaseException):
    """Unwinds the threads of a killed simulated process."""


class Deadlock(Exception):
    pass


class Proc:
    """A simulated process: pid, clocks, package image, entropy, working directory."""

    _n = 0

    def __init__(self, sim, name, pid, entropy=0, skew=0.0, rate=1.0):
        self.sim = sim
        self.name = name
        self.pid = pid
        self.skew = skew  # wall clock minus simulated time
        self.rate = rate
        self.alive = True
        self.image = None
        self.argv = ["sim"]
        self.entropy_seed = entropy
        self.entropy_count = 0
        self.ops = 0
        self.tasks = []
        self.fds = {}
        self.exit = None
        self.fs = None
        self.killer = None  # called at every seam operation, may kill
        self.staller = None  # called at every seam operation, may return a delay
        self.wall_reads = []
        self.frozen = None
        self.steps = []  # (simulated time, seconds): jumps of the wall clock

    # clocks as this process sees them
    def wall(self):
        if self.frozen is not None:  # a clock too coarse to advance during the run
            t = self.frozen
        else:
            t = BASE_TIME + self.sim.now * self.rate + self.skew
            for at, step in self.steps:
                if self.sim.now >= at:
                    t += step
        self.wall_reads.append(t)
        return t

    def mono(self):
        return 1000.0 + self.sim.now


class Task:
    def __init__(self, sim, name, proc, fn):
        self.sim = sim
        self.name = name
        self.proc = proc
        self.fn = fn
        self.go = threading.Semaphore(0)
        self.state = "ready"  # ready, blocked, done
        self.why = ""
        self.error = None
        self.result = None
        self.thread = None

    def _main(self):
        self.go.acquire()
        seams.tls.proc = self.proc
        seams.tls.task = self
        try:
            if self.proc.alive:
                self.result = self.fn()
        except SimKilled:
            pass
        except BaseException as e:  # noqa: a failing job is data for the checks
            self.error = e
        finally:
            seams.tls.proc = None
            seams.tls.task = None
            self.state = "done"
            self.sim._finished(self)


class Sim:
    """One simulated execution."""

    def __init__(self, run, preempt=0.3, max_ops=200_000):
        self.run_ = run
        self.ch = run.ch
        self.log = run.log
        self.now = 0.0
        self.seq = 0
        self.timers = []
        self.tasks = []
        self.procs = []
        self.current = None
        self.done = threading.Semaphore(0)
        self.preempt = preempt
        self.ops = 0
        self.max_ops = max_ops
        self.active_image = None
        self.deadlock = None
        self.on_deadlock = None
        self.switches = 0
        self.failure = None

    def proc(self, name, **kw):
        p = Proc(self, name, 100 + len(self.procs), **kw)
        self.procs.append(p)
        return p

    def spawn(self, name, proc, fn):
        t = Task(self, name, proc, fn)
        proc.tasks.append(t)
        self.tasks.append(t)
        t.thread = threading.Thread(target=t._main, name=name, daemon=True)
        t.thread.start()
        return t

    def at(self, delay, fn):
        self.seq += 1
        heapq.heappush(self.timers, (self.now + delay, self.seq, fn))

    def run(self):
        """Run until every task is done (or deadlocked)."""
        self._dispatch(None)
        self.done.acquire()
        for t in self.tasks:
            t.thread.join(timeout=30)
        if self.active_image is not None:
            self.active_image.deactivate()
            self.active_image = None
        if self.failure:
            raise HarnessError(self.failure)
        self.run_.sim_time += self.now

    # -- called with the baton held ------------------------------------------------------
    def op(self, label, detail="", cost=1e-5):
        """A seam operation of the current task: time passes, others may run, faults strike."""
        t = seams.tls.task
        p = t.proc
        if not p.alive:
            raise SimKilled()
        self.ops += 1
        p.ops += 1
        self.log.add("op", t.name, label, detail)
        if self.ops > self.max_ops:
            self.failure = "too many simulated operations"
            for q in self.procs:
                q.alive = False
            raise SimKilled()
        self.now += cost
        self._fire()
        if p.killer and p.killer(p, label):
            self.kill(p)
        if not p.alive:
            raise SimKilled()
        if p.staller:
            d = p.staller(p, label)
            if d:
                self.sleep(d)
        self._switch(t)
        if not p.alive:
            raise SimKilled()

    def block(self, why, ready):
        """Block the current task until ready() (checked whenever the scheduler looks)."""
        t = seams.tls.task
        t.ready = ready
        t.why = why
        t.state = "blocked"
        self.log.add("block", t.name, why)
        self._switch(t)
        if not t.proc.alive:
            raise SimKilled()

    def sleep(self, dt):
        flag = []
        self.at(max(dt, 0.0), lambda: flag.append(1))
        self.block("sleep", lambda: bool(flag))

    def kill(self, proc):
        if not proc.alive:
            return
        proc.alive = False
        self.log.add("kill", proc.name)
        if proc.fs is not None:
            proc.fs.release_all(proc)
        for hook in getattr(proc, "on_kill", []):
            hook(proc)

    def _fire(self):
        while self.timers and self.timers[0][0] <= self.now:
            _, _, fn = heapq.heappop(self.timers)
            fn()

    def _runnable(self):
        out = []
        for t in self.tasks:
            if t.state == "ready":
                out.append(t)
            elif t.state == "blocked" and (not t.proc.alive or t.ready()):
                out.append(t)
        return out

    def _pick(self, cur):
        while True:
            cand = self._runnable()
            if cand:
                break
            if self.timers:
                self.now = max(self.now, self.timers[0][0])
                self._fire()
                continue
            return None
        if cur in cand:  # index 0 = carry on
            cand.remove(cur)
            cand.insert(0, cur)
            i = self.ch.choose(len(cand), p_zero=1 - self.preempt)
        else:
            i = self.ch.choose(len(cand))
        return cand[i]

    def _switch(self, t):
        nxt = self._pick(t)
        if nxt is None:
            self._deadlock()
            nxt = self._pick(t)
            if nxt is None:
                raise HarnessError("deadlock not resolved")
        if nxt is t:
            t.state = "ready"
            return
        self._hand(nxt)
        t.go.acquire()
        self._activate(t)

    def _activate(self, t):
        self.current = t
        img = t.proc.image
        if img is not self.active_image:
            if self.active_image is not None:
                self.active_image.deactivate()
            if img is not None:
                img.activate()
            self.active_image = img

    def _hand(self, nxt):
        nxt.state = "ready"
        self.switches += 1
        self.log.add("run", nxt.name)
        self._activate(nxt)
        nxt.go.release()

    def _dispatch(self, t):
        nxt = self._pick(t)
        if nxt is None and any(x.state != "done" for x in self.tasks):
            self._deadlock()
            nxt = self._pick(t)
        if nxt is None:
            self.done.release()
            return
        self._hand(nxt)

    def _finished(self, t):
        self.log.add("exit", t.name, type(t.error).__name__ if t.error else "ok")
        if all(x.state == "done" for x in t.proc.tasks) and t.proc.alive:
            t.proc.exit = "error" if t.error else "ok"
            for hook in getattr(t.proc, "on_exit", []):
                hook(t.proc)
        try:
            self._dispatch(None)
        except BaseException as e:  # pragma: no cover
            self.failure = repr(e)
            self.done.release()

    def _deadlock(self):
        """Nothing can run any more: the operator ends the blocked processes."""
        blocked = [t for t in self.tasks if t.state == "blocked"]
        self.deadlock = [(t.name, t.why) for t in blocked]
        self.log.add("deadlock", self.deadlock)
        if self.on_deadlock:
            self.on_deadlock(blocked)
        for t in blocked:
            self.kill(t.proc)
