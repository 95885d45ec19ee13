"""Simulated disk: a real scratch directory behind interposed calls.

Every call of a simulated process is a scheduling point; writes can fail or be cut short, locks
are simulated, and a killed process has no further effect on the files."""
import io
import os

from . import seams
from .kernel import SimKilled

O = {}  # original os functions


def _orig(name):
    return seams.real.get(name) or getattr(os, name)


class SimFileIO(io.FileIO):
    def __init__(self, fs, proc, path, mode):
        self.fs = fs
        self.proc = proc
        super().__init__(path, mode)
        proc.fds[self.fileno()] = self
        fs.open_fds[self.fileno()] = self
        self.key = fs.key_fd(self.fileno())

    def write(self, b):
        if not self.proc.alive:
            return len(b)
        data = bytes(b)
        # a write of a file object that is flushed by garbage collection in another thread
        if seams.cur() is not self.proc:
            return super().write(data)
        return self.fs.do_write(self.proc, len(data), lambda n: io.FileIO.write(self, data[:n]),
                                os.path.basename(str(self.name)))

    def _step(self, label):
        if seams.cur() is self.proc:
            self.fs.step(self.proc, label)

    def readinto(self, b):
        self._step("read")
        return super().readinto(b)

    def readall(self):
        self._step("read")
        return super().readall()

    def read(self, n=-1):
        self._step("read")
        return super().read(n)

    def truncate(self, size=None):
        if not self.proc.alive:
            return size
        self._step("truncate")
        self.fs.maybe_fail(self.proc, "truncate")
        self.fs.log_effect(self.proc, "truncate", size)
        return super().truncate(size)

    def close(self):
        if self.closed:
            return
        fd = self.fileno()
        try:
            if self.proc.alive and seams.cur() is self.proc:
                self.fs.step(self.proc, "close")
        finally:
            self.fs.forget(fd, self.proc)
            super().close()


class SimFS:
    def __init__(self, sim, root):
        self.sim = sim
        self.root = os.path.realpath(root)
        self.open_fds = {}
        self.locks = {}  # inode key -> list of (kind, owner, exclusive)
        self.free = None  # bytes left on the disk; None = plenty
        self.free_until = 0
        self.plan = []  # io faults: dicts with kind, at (n-th write), ...
        self.writes = 0
        self.cut = 0
        self.wrote = []  # (proc, bytes written) history

    # -- helpers
    def owns(self, file):
        if isinstance(file, int):
            return file in self.open_fds
        try:
            p = os.path.abspath(os.fspath(file))
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return p.startswith(self.root + os.sep) or p == self.root

    def key_fd(self, fd):
        st = _orig("fstat")(fd)
        return (st.st_dev, st.st_ino)

    def step(self, proc, label, detail=""):
        if not proc.alive:
            raise SimKilled()
        if seams.tls.task is not None:
            self.sim.op("fs." + label, detail, cost=2e-5)

    def log_effect(self, proc, what, detail=""):
        if what in ("wrote", "truncate", "create", "link", "rename", "replace", "unlink", "remove",
                    "short", "torn_kill"):
            self.wrote.append((proc.name, what))
        self.sim.log.add("fs", proc.name, what, detail)

    def maybe_fail(self, proc, label):
        for f in self.plan:
            if f["kind"] == "eio" and not f.get("done") and f.get("proc", proc.name) == proc.name \
                    and f.get("on", "write") == label:
                f["seen"] = f.get("seen", 0) + 1
                if f["seen"] > f["at"]:
                    f["done"] = True
                    self.sim.run_.fault("eio_" + label)
                    self.log_effect(proc, "EIO", label)
                    raise OSError(5, "Input/output error (injected)")

    def do_write(self, proc, n, write, name):
        self.step(proc, "write", f"{name} {n}")
        self.maybe_fail(proc, "write")
        self.writes += 1
        for f in self.plan:
            if f.get("done") or f.get("proc", proc.name) != proc.name:
                continue
            if f["kind"] in ("torn_kill", "short"):
                f["seen"] = f.get("seen", 0) + 1
                if f["seen"] > f["at"] and n > 1:
                    f["done"] = True
                    k = max(1, min(n - 1, int(n * f["frac"])))
                    self.sim.run_.fault(f["kind"])
                    done = write(k)
                    self.log_effect(proc, f["kind"], f"{done}/{n}")
                    if f["kind"] == "torn_kill":
                        self.sim.kill(proc)
                        raise SimKilled()
                    return done
            elif f["kind"] == "diskfull" and self.free is None:
                f["seen"] = f.get("seen", 0) + 1
                if f["seen"] > f["at"]:
                    f["done"] = True
                    self.free = f["free"]
                    self.free_until = self.sim.now + f["dur"]
        if self.free is not None and self.sim.now > self.free_until:
            self.free = None
            self.log_effect(proc, "space freed")
        if self.free is not None:
            if self.free <= 0:
                self.sim.run_.fault("enospc")
                self.log_effect(proc, "ENOSPC")
                raise OSError(28, "No space left on device (injected)")
            if n > self.free:
                k, self.free = self.free, 0
                self.sim.run_.fault("enospc_short")
                self.log_effect(proc, "short", f"{k}/{n}")
                return write(k)
            self.free -= n
        done = write(n)
        self.log_effect(proc, "wrote", done)
        return done

    # -- interposed calls
    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
             closefd=True, opener=None):
        proc = seams.cur()
        if opener is not None or isinstance(file, int):
            if isinstance(file, int):
                raw_mode = "".join(c for c in mode if c not in "bt")
                raw = SimFdIO(self, proc, file, raw_mode, closefd)
                return self._wrap(raw, mode, buffering, encoding, errors, newline)
            fd = opener(file, _flags(mode))
            return self.open(fd, mode, buffering, encoding, errors, newline)
        self.step(proc, "open", f"{os.path.basename(os.fspath(file))} {mode}")
        self.maybe_fail(proc, "open")
        raw_mode = "".join(c for c in mode if c not in "bt")
        if "w" in mode or ("x" in mode and not _exists(file)):
            self.log_effect(proc, "create")
        raw = SimFileIO(self, proc, file, raw_mode)
        return self._wrap(raw, mode, buffering, encoding, errors, newline)

    @staticmethod
    def _wrap(raw, mode, buffering, encoding, errors, newline):
        binary = "b" in mode
        if binary and buffering == 0:
            return raw
        line = buffering == 1 and not binary
        size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
        if "+" in mode:
            buf = io.BufferedRandom(raw, size)
        elif any(c in mode for c in "wax"):
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if binary:
            return buf
        text = io.TextIOWrapper(buf, encoding, errors, newline, line)
        text.mode = mode
        return text

    def oscall(self, name, orig, a, k):
        proc = seams.cur()
        if not proc.alive:
            if name == "close":
                return None
            raise SimKilled()
        if name in ("write", "pwrite", "ftruncate", "fsync", "fdatasync", "read", "close", "lseek",
                    "sendfile", "fstat"):
            fd = a[0]
            if fd not in self.open_fds:
                return orig(*a, **k)
            if name in ("lseek", "fstat"):
                return orig(*a, **k)
            if name in ("write", "pwrite"):
                data = bytes(a[1])
                return self.do_write(proc, len(data), lambda n: orig(fd, data[:n], *a[2:]), "fd")
            self.step(proc, name)
            if name == "close":
                self.forget(fd, proc)
            else:
                self.maybe_fail(proc, {"ftruncate": "truncate"}.get(name, name))
            return orig(*a, **k)
        paths = [x for x in a if isinstance(x, (str, bytes, os.PathLike))]
        if not any(self.owns(x) for x in paths):
            return orig(*a, **k)
        self.step(proc, name, " ".join(os.path.basename(os.fsdecode(x)) for x in paths)
                  if name in ("stat", "access") else "")
        if name == "open":
            self.maybe_fail(proc, "open")
            fd = orig(*a, **k)
            proc.fds[fd] = self.open_fds[fd] = RawFd(self, proc, fd)
            return fd
        if name in ("link", "rename", "replace", "truncate", "unlink", "remove", "mkdir"):
            self.maybe_fail(proc, name)
            self.log_effect(proc, name)
        return orig(*a, **k)

    def lock(self, kind, fd, op):
        proc = seams.cur()
        if not isinstance(fd, int):
            fd = fd.fileno()
        if fd not in self.open_fds:
            return None
        self.step(proc, kind, op)
        self.maybe_fail(proc, "lock")
        import fcntl

        key = self.key_fd(fd)
        owner = ("fd", fd) if kind == "flock" else ("proc", proc.pid)
        held = self.locks.setdefault((kind, key), [])
        held[:] = [h for h in held if h[0] != owner]
        if op & fcntl.LOCK_UN:
            return None
        ex = bool(op & fcntl.LOCK_EX)

        def free():
            return not any(ex or h[1] for h in held)

        if not free():
            if op & fcntl.LOCK_NB:
                raise BlockingIOError(11, "Resource temporarily unavailable")
            self.sim.run_.probe("lock_contended")
            if seams.tls.task is not None:
                self.sim.block(kind, free)
        held.append((owner, ex, proc))
        self.log_effect(proc, "locked", kind)
        return None

    def forget(self, fd, proc):
        """The descriptor is being closed: its locks are released, and with any descriptor of a
        file also the record locks of the process on that file."""
        try:
            key = self.key_fd(fd)
        except OSError:
            key = None
        self.open_fds.pop(fd, None)
        proc.fds.pop(fd, None)
        for (kind, k), held in self.locks.items():
            held[:] = [h for h in held if h[0] != ("fd", fd)
                       and not (kind == "lockf" and k == key and h[2] is proc)]

    def release_all(self, proc):
        for fd in list(proc.fds):
            self.forget(fd, proc)
        for held in self.locks.values():
            held[:] = [h for h in held if h[2] is not proc]

    def close_raw(self):
        for fd, f in list(self.open_fds.items()):
            self.open_fds.pop(fd, None)


class RawFd:
    def __init__(self, fs, proc, fd):
        self.fs, self.proc, self.fd = fs, proc, fd


class SimFdIO(SimFileIO):
    """A file object over a descriptor obtained from os.open."""

    def __init__(self, fs, proc, fd, mode, closefd):
        self.fs, self.proc = fs, proc
        io.FileIO.__init__(self, fd, mode, closefd)
        proc.fds[fd] = self
        fs.open_fds[fd] = self
        self.key = fs.key_fd(fd)


def _exists(path):
    try:
        _orig("lstat")(path)
        return True
    except OSError:
        return False


def _flags(mode):
    f = os.O_CLOEXEC
    if "+" in mode:
        f |= os.O_RDWR
    elif "r" in mode:
        f |= os.O_RDONLY
    else:
        f |= os.O_WRONLY
    if "x" in mode:
        f |= os.O_CREAT | os.O_EXCL
    elif "w" in mode:
        f |= os.O_CREAT | os.O_TRUNC
    elif "a" in mode:
        f |= os.O_CREAT | os.O_APPEND
    return f
