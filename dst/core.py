"""Seeded choices, violations and small helpers shared by all checks."""
import hashlib
import json
import random


class Violation(Exception):
    """The property is broken.  `kind` is the violation class kept by minimisation."""

    def __init__(self, kind, detail=""):
        super().__init__(f"{kind}: {detail}")
        self.kind = kind
        self.detail = str(detail)


class HarnessError(Exception):
    """The machinery itself failed; never reported as a violation."""


class Discard(Exception):
    """The generated case does not meet the premise of the property."""


def derive(*parts):
    """A 63-bit integer derived from parts (stable across processes)."""
    h = hashlib.sha256("\x1f".join(map(str, parts)).encode()).digest()
    return int.from_bytes(h[:8], "big") >> 1


class Chooser:
    """The only source of scheduling choices of a run.

    In exploration the choices come from a PRNG and are recorded; in replay they come from the
    recorded list, and 0 (the default: no preemption, shortest delay) once it is exhausted."""

    def __init__(self, seed=0, replay=None):
        self.rng = random.Random(seed)
        self.replay = replay
        self.pos = 0
        self.trace = []

    def choose(self, n, p_zero=None):
        """An integer in range(n); with p_zero, 0 is taken with at least that probability."""
        if n <= 1:
            return 0
        if self.replay is not None:
            c = self.replay[self.pos] if self.pos < len(self.replay) else 0
            self.pos += 1
            c = c if 0 <= c < n else 0
        elif p_zero is not None and self.rng.random() < p_zero:
            c = 0
        else:
            c = self.rng.randrange(n)
        self.trace.append(c)
        return c

    def geometric(self, mean, cap=10**6):
        """Number of steps until the next preemption; 0 in replay means 'never again'."""
        if self.replay is not None:
            c = self.replay[self.pos] if self.pos < len(self.replay) else 0
            self.pos += 1
        else:
            c = 1 + min(cap, int(self.rng.expovariate(1.0 / mean)))
        self.trace.append(c)
        return c


class Log:
    """Event log of a run; never draws random numbers and never reads a clock."""

    def __init__(self, keep=4000):
        self.h = hashlib.sha256()
        self.n = 0
        self.events = []
        self.keep = keep

    def add(self, *parts):
        line = " ".join(map(str, parts))
        self.h.update(line.encode() + b"\n")
        self.n += 1
        if len(self.events) < self.keep:
            self.events.append(line)

    def digest(self):
        return self.h.hexdigest()[:16]


def jsonable(x):
    """Lists instead of tuples, so that a scenario is the same before and after a file."""
    return json.loads(json.dumps(x, default=_default))


def _default(x):
    import numpy as np

    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, np.floating):
        return float(x)
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, (set, frozenset)):
        return sorted(x)
    raise TypeError(type(x))


class Run:
    """What one simulated run hands back."""

    def __init__(self, chooser=None):
        self.ch = chooser or Chooser()
        self.log = Log()
        self.faults = {}  # kind -> number of times it actually fired
        self.probes = {}  # rare conditions reached
        self.sim_time = 0.0
        self.signature = None  # distinctness measure of this run
        self.nontrivial = True
        self.sample = None

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, kind, n=1):
        self.probes[kind] = self.probes.get(kind, 0) + n


def digest(*parts):
    return hashlib.sha256(repr(parts).encode()).hexdigest()[:16]
