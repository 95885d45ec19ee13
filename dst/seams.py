"""Process-wide interposition, installed once per worker process.

Every patched function asks which simulated process the calling thread belongs to; outside of a
simulated process the original function is called.  Nothing in /repo is changed."""
import builtins
import datetime as _dt
import hashlib
import io
import os
import random
import threading
import time as _time

tls = threading.local()
tls.proc = None
tls.task = None


def cur():
    return getattr(tls, "proc", None)


class Solo:
    """A simulated process without a scheduler, for checks that run one thread only."""

    def __init__(self, entropy=0, wall=1_700_000_000.0, image=None):
        self.entropy_seed = entropy
        self.entropy_count = 0
        self.t0 = wall
        self.now = 0.0
        self.tick = 1e-6
        self.image = image
        self.alive = True
        self.pid = 77
        self.fs = None
        self.sim = None
        self.wall_reads = []

    def wall(self):
        self.now += self.tick
        return self.t0 + self.now

    def mono(self):
        self.now += self.tick
        return 1000.0 + self.now

    def __enter__(self):
        self._old = getattr(tls, "proc", None), getattr(tls, "task", None)
        tls.proc, tls.task = self, None
        if self.image is not None:
            self.image.activate()
        return self

    def __exit__(self, *exc):
        if self.image is not None:
            self.image.deactivate()
        tls.proc, tls.task = self._old


real = {}
_installed = False


def _entropy(n):
    p = cur()
    if p is None:
        return real["urandom"](n)
    out = b""
    while len(out) < n:
        p.entropy_count += 1
        out += hashlib.sha256(f"{p.entropy_seed}/{p.entropy_count}".encode()).digest()
    return out[:n]


def _clock(name, which, scale=1):
    orig = getattr(_time, name)
    real[name] = orig

    def clock():
        p = cur()
        if p is None:
            return orig()
        if p.sim is not None and getattr(tls, "task", None) is not None:
            p.sim.op("clock", name, cost=1e-6)
        t = p.wall() if which == "wall" else p.mono()
        return int(t * scale) if scale != 1 else t

    clock.__name__ = name
    return clock


def _now_arg(name, pos):
    """Functions of the time module whose time argument defaults to now."""
    orig = getattr(_time, name)
    real[name] = orig
    def call(*a):
        if cur() is None or len(a) > pos:
            return orig(*a)
        t = _time.time()
        return orig(*a, real["localtime"](t) if name in ("strftime", "asctime") else t)

    call.__name__ = name
    return call


def _make_datetime():
    orig = _dt.datetime

    class Meta(type(orig)):
        def __instancecheck__(cls, obj):
            return isinstance(obj, orig)

        def __subclasscheck__(cls, sub):
            return issubclass(sub, orig)

    class datetime(orig, metaclass=Meta):
        @classmethod
        def now(cls, tz=None):
            p = cur()
            if p is None:
                return orig.now(tz)
            # like the real clock, with microsecond resolution
            return orig.fromtimestamp(round(_time.time(), 6), tz)

        @classmethod
        def today(cls):
            return cls.now()

        @classmethod
        def utcnow(cls):
            p = cur()
            if p is None:
                return orig.utcnow()
            return orig.fromtimestamp(round(_time.time(), 6), _dt.timezone.utc).replace(tzinfo=None)

    return datetime


def _fs_call(name):
    orig = getattr(os, name)
    real[name] = orig

    def call(*a, **k):
        p = cur()
        if p is None or p.fs is None:
            return orig(*a, **k)
        return p.fs.oscall(name, orig, a, k)

    call.__name__ = name
    return call


OS_CALLS = ["open", "close", "write", "read", "link", "unlink", "remove", "rename", "replace",
            "mkdir", "rmdir", "stat", "lstat", "ftruncate", "truncate", "fsync", "fdatasync",
            "access", "listdir", "symlink", "lseek", "pwrite", "sendfile", "fstat"]


def install():
    global _installed
    if _installed:
        return
    _installed = True
    import secrets  # noqa: bound before patching, uses random._urandom
    import tempfile  # noqa
    import uuid  # noqa
    import fcntl

    os.environ.setdefault("TZ", "UTC")
    _time.tzset()
    real["urandom"] = os.urandom
    os.urandom = _entropy
    random._urandom = _entropy
    for name, which, scale in [
        ("time", "wall", 1), ("time_ns", "wall", 10**9), ("perf_counter", "mono", 1),
        ("perf_counter_ns", "mono", 10**9), ("monotonic", "mono", 1),
        ("monotonic_ns", "mono", 10**9), ("process_time", "mono", 1),
    ]:
        setattr(_time, name, _clock(name, which, scale))
    for name, nargs in (("localtime", 0), ("gmtime", 0), ("ctime", 0), ("strftime", 1), ("asctime", 0)):
        setattr(_time, name, _now_arg(name, nargs))
    real["sleep"] = _time.sleep

    def sleep(dt):
        p = cur()
        if p is None:
            return real["sleep"](dt)
        if p.sim is None:
            p.now += dt
            return None
        return p.sim.sleep(dt)

    _time.sleep = sleep
    _dt.datetime = _make_datetime()
    for n in OS_CALLS:
        setattr(os, n, _fs_call(n))
    real["getpid"] = os.getpid
    os.getpid = lambda: cur().pid if cur() is not None else real["getpid"]()
    real["io_open"] = io.open

    def sim_open(file, mode="r", *a, **k):
        p = cur()
        if p is None or p.fs is None or not p.fs.owns(file):
            return real["io_open"](file, mode, *a, **k)
        return p.fs.open(file, mode, *a, **k)

    io.open = sim_open
    builtins.open = sim_open
    for n in ("flock", "lockf"):
        def lock(fd, op, *a, _o=getattr(fcntl, n), _n=n):
            p = cur()
            if p is None or p.fs is None:
                return _o(fd, op, *a)
            return p.fs.lock(_n, fd, op)
        setattr(fcntl, n, lock)


class SeededSet(set):
    """A set whose iteration and pop order are a seeded permutation."""

    def __iter__(self):
        return iter(sorted(set.__iter__(self), key=self._key))

    def pop(self):
        for x in self:
            self.discard(x)
            return x
        return set.pop(self)

    def _key(self, x):
        return hashlib.blake2b(f"{self.salt}/{x!r}".encode(), digest_size=8).digest()


def _seeded(s, img, pairs=False):
    """The same set, in an order drawn from the seed of the image; unordered pairs get a seeded direction too."""
    img.rx_count += 1
    out = SeededSet()
    out.salt = f"{img.hash_seed}/{img.rx_count}"
    if pairs:
        s = [p if out._key(p)[0] % 2 else p[::-1] for p in map(tuple, map(sorted, s))]
    for x in sorted(s, key=out._key):
        out.add(x)
    return out


RX_SETS = ["connected_components", "weakly_connected_components", "node_connected_component",
           "max_weight_matching", "ancestors", "descendants", "isolates"]


def install_rx():
    """rustworkx fills the sets it returns from randomly seeded Rust hash tables: the order in which
    Python then finds their elements is a choice of the environment, and is made by the image here."""
    import rustworkx as rx
    from . import image

    for name in RX_SETS:
        orig = getattr(rx, name, None)
        if orig is None:
            continue

        def call(*a, _o=orig, **k):
            out = _o(*a, **k)
            img = image.FINDER.active if cur() is not None else None
            if img is None:
                return out
            if isinstance(out, set):
                return _seeded(out, img, _o.__name__ == "max_weight_matching")
            if isinstance(out, list):
                return [_seeded(s, img) if isinstance(s, set) else s for s in out]
            return out

        call.__name__ = name
        setattr(rx, name, call)


def real_time():
    return real.get("time", _time.time)()


def real_mono():
    return real.get("monotonic", _time.monotonic)()
