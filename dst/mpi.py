"""Fake mpi4py over the simulated network: messages with seeded delays, ranks as processes.

Collectives follow MPI semantics: every rank must call the same collectives in the same order;
the root waits for all contributions, other ranks may return early (eager) or late."""
import copy
import types

import numpy as np

from . import seams
from .core import Violation


class World:
    def __init__(self, sim, size, name, delays=None, eager=True):
        self.sim = sim
        self.size = size
        self.name = name
        self.slots = {}  # collective number -> dict
        self.count = {}
        self.boxes = {}  # (dst) -> list of delivered messages
        self.delays = delays or (lambda: 1e-4)
        self.eager = eager
        self.procs = []
        self.contributed = {}  # rank -> collectives contributed to
        self.aborted = False
        self.history = []

    def send(self, deliver):
        d = self.delays()
        self.sim.run_.fault("message_delay") if d > 1e-3 else None
        self.sim.at(d, deliver)

    def collective(self, comm, kind, data, root=None, op=None):
        """Deposit data; return the list of all contributions if this rank needs them."""
        rank = comm.rank
        k = self.count.get(rank, 0)
        self.count[rank] = k + 1
        self.sim.op("mpi." + kind, f"rank={rank} n={k}", cost=5e-5)
        slot = self.slots.setdefault(k, {"kind": kind, "root": root, "op": op, "data": {}, "in": {}})
        if slot["kind"] != kind or slot["root"] != root:
            raise Violation("mpi-mismatch", f"{slot['kind']}/{kind} root {slot['root']}/{root}")
        slot["data"][rank] = copy.deepcopy(data)
        self.contributed[rank] = self.contributed.get(rank, 0) + 1
        self.history.append((k, kind, rank))
        needs = root is None or rank == root or kind in ("bcast", "scatter")
        dsts = range(self.size) if root is None else [root]
        if kind in ("bcast", "scatter"):
            dsts = range(self.size) if rank == root else []
        for d in dsts:
            def deliver(d=d, rank=rank):
                slot["in"].setdefault(d, set()).add(rank)
            self.send(deliver)
        if not needs:
            if not self.eager:
                self.sim.block(f"{kind} completion", lambda: root in slot["in"] and rank in slot["in"][root])
            return None
        want = {root} if kind in ("bcast", "scatter") else set(range(self.size))
        self.sim.block(f"{kind} rank={rank}", lambda: slot["in"].get(rank, set()) >= want)
        return slot["data"]

    def abort(self, why):
        self.aborted = True
        self.sim.log.add("mpi-abort", self.name, why)
        for p in self.procs:
            self.sim.kill(p)


def _buf(x):
    """The array behind a buffer argument ([array, type], (array, count, type), array)."""
    if isinstance(x, (list, tuple)) and x and isinstance(x[0], np.ndarray):
        return x[0]
    return x


def _reduce(op, items):
    out = None
    for x in items:
        out = x if out is None else op.fn(out, x)
    return out


class Op:
    def __init__(self, name, fn):
        self.name = name
        self.fn = fn

    def __call__(self, a, b):
        return self.fn(a, b)


IN_PLACE = "<IN_PLACE>"


class Request:
    def __init__(self, fn):
        self.fn = fn
        self.done = False
        self.value = None

    def wait(self, status=None):
        if not self.done:
            self.value = self.fn()
            self.done = True
        return self.value

    Wait = wait

    def test(self):
        return True, self.wait()

    @staticmethod
    def Waitall(reqs, statuses=None):
        for r in reqs:
            r.wait()

    waitall = Waitall


class Comm:
    def __init__(self, world, rank):
        self.world = world
        self.rank = rank
        self.size = world.size if world else 1

    def Get_size(self):
        return self.size

    def Get_rank(self):
        return self.rank

    def _data(self, sendbuf, recvbuf):
        s = _buf(sendbuf)
        if isinstance(s, str) and s == IN_PLACE:
            s = _buf(recvbuf)
        return np.array(s, copy=True)

    @staticmethod
    def _distinct(sendbuf, recvbuf):
        s, r = _buf(sendbuf), _buf(recvbuf)
        if isinstance(s, np.ndarray) and isinstance(r, np.ndarray) and np.shares_memory(s, r):
            raise RuntimeError("MPI_ERR_BUFFER: invalid buffer pointer (buffers must not be aliased)")

    # reductions
    def Reduce(self, sendbuf, recvbuf, op=None, root=0):
        if self.rank == root:
            self._distinct(sendbuf, recvbuf)
        d = self.world.collective(self, "reduce", self._data(sendbuf, recvbuf), root, (op or MPI_SUM).name)
        if d is not None:
            _buf(recvbuf)[...] = _reduce(op or MPI_SUM, [d[r] for r in range(self.size)])

    def Allreduce(self, sendbuf, recvbuf, op=None):
        self._distinct(sendbuf, recvbuf)
        d = self.world.collective(self, "allreduce", self._data(sendbuf, recvbuf), None, (op or MPI_SUM).name)
        _buf(recvbuf)[...] = _reduce(op or MPI_SUM, [d[r] for r in range(self.size)])

    def reduce(self, sendobj, op=None, root=0):
        d = self.world.collective(self, "reduce", sendobj, root, (op or MPI_SUM).name)
        return None if d is None else _reduce(op or MPI_SUM, [d[r] for r in range(self.size)])

    def allreduce(self, sendobj, op=None):
        d = self.world.collective(self, "allreduce", sendobj, None, (op or MPI_SUM).name)
        return _reduce(op or MPI_SUM, [d[r] for r in range(self.size)])

    def Ireduce(self, *a, **k):
        return Request(lambda: self.Reduce(*a, **k))

    def gather(self, sendobj, root=0):
        d = self.world.collective(self, "gather", sendobj, root)
        return None if d is None else [d[r] for r in range(self.size)]

    def allgather(self, sendobj):
        d = self.world.collective(self, "allgather", sendobj)
        return [d[r] for r in range(self.size)]

    def Gather(self, sendbuf, recvbuf, root=0):
        d = self.world.collective(self, "gather", self._data(sendbuf, recvbuf), root)
        if d is not None:
            out = _buf(recvbuf)
            out[...] = np.concatenate([np.ravel(d[r]) for r in range(self.size)]).reshape(out.shape)

    def Allgather(self, sendbuf, recvbuf):
        d = self.world.collective(self, "allgather", self._data(sendbuf, recvbuf))
        out = _buf(recvbuf)
        out[...] = np.concatenate([np.ravel(d[r]) for r in range(self.size)]).reshape(out.shape)

    def bcast(self, obj=None, root=0):
        d = self.world.collective(self, "bcast", obj if self.rank == root else None, root)
        return copy.deepcopy(d[root])

    def Bcast(self, buf, root=0):
        d = self.world.collective(self, "bcast", np.array(_buf(buf), copy=True), root)
        _buf(buf)[...] = d[root]

    def scatter(self, sendobj=None, root=0):
        d = self.world.collective(self, "scatter", sendobj if self.rank == root else None, root)
        return copy.deepcopy(d[root][self.rank])

    def Scatter(self, sendbuf, recvbuf, root=0):
        d = self.world.collective(self, "scatter", None if self.rank != root else np.array(_buf(sendbuf)), root)
        out = _buf(recvbuf)
        out[...] = np.ravel(d[root]).reshape((self.size,) + out.shape)[self.rank]

    def Barrier(self):
        self.world.collective(self, "barrier", None)

    barrier = Barrier

    # point to point
    def send(self, obj, dest, tag=0):
        self.world.sim.op("mpi.send", f"{self.rank}->{dest}", cost=5e-5)
        obj = copy.deepcopy(obj)
        box = self.world.boxes.setdefault((self.rank, dest), [])
        item = [tag, obj, False]
        box.append(item)  # MPI messages between two ranks do not overtake each other

        def deliver():
            item[2] = True
        self.world.send(deliver)

    isend = lambda self, obj, dest, tag=0: (self.send(obj, dest, tag), Request(lambda: None))[1]
    ssend = send

    def recv(self, buf=None, source=-1, tag=-1, status=None):
        sim = self.world.sim
        sim.op("mpi.recv", f"{self.rank}<-{source}", cost=5e-5)
        found = []

        def look():
            found.clear()
            for src in (range(self.size) if source == -1 else [source]):
                for it in self.world.boxes.get((src, self.rank), []):
                    if tag in (-1, it[0]):
                        if it[2]:
                            found.append((src, it))
                        break
            return bool(found)

        sim.block(f"recv rank={self.rank}", look)
        src, it = found[sim.ch.choose(len(found))]
        self.world.boxes[(src, self.rank)].remove(it)
        if status is not None:
            status.source, status.tag = src, it[0]
        return it[1]

    irecv = lambda self, buf=None, source=-1, tag=-1: Request(lambda: self.recv(buf, source, tag))

    def Send(self, buf, dest, tag=0):
        self.send(np.array(_buf(buf), copy=True), dest, tag)

    def Recv(self, buf, source=-1, tag=-1, status=None):
        _buf(buf)[...] = self.recv(None, source, tag, status)

    def Abort(self, errorcode=0):
        self.world.abort(f"Abort({errorcode})")
        self.world.sim.op("mpi.abort")

    def Clone(self):
        return self

    Dup = Clone

    def Free(self):
        pass


def _elem(np_fn):
    def fn(a, b):
        r = np_fn(a, b)
        return r if isinstance(a, np.ndarray) or isinstance(b, np.ndarray) else type(a)(r)
    return fn


MPI_SUM = Op("SUM", lambda a, b: a + b)
OPS = {
    "SUM": MPI_SUM, "PROD": Op("PROD", lambda a, b: a * b), "MAX": Op("MAX", _elem(np.maximum)),
    "MIN": Op("MIN", _elem(np.minimum)), "LOR": Op("LOR", _elem(np.logical_or)),
    "LAND": Op("LAND", _elem(np.logical_and)), "BOR": Op("BOR", lambda a, b: a | b),
    "BAND": Op("BAND", lambda a, b: a & b),
}


class MpiLib:
    """The mpi4py package as one rank sees it."""

    def __init__(self, world, rank):
        self.comm = Comm(world, rank)
        self.mods = {}

    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        m = self.mods[name] = types.ModuleType(name)
        if name == "mpi4py.rc":
            m.threads = True
            m.initialize = True
            m.finalize = None
        elif name == "mpi4py.MPI":
            m.COMM_WORLD = self.comm
            m.COMM_SELF = Comm(None, 0)
            m.IN_PLACE = IN_PLACE
            m.ANY_SOURCE = m.ANY_TAG = -1
            m.Comm = m.Intracomm = Comm
            m.Op = Op
            m.Request = Request
            m.Status = type("Status", (), {"source": -1, "tag": -1,
                                           "Get_source": lambda s: s.source, "Get_tag": lambda s: s.tag})
            for k, v in OPS.items():
                setattr(m, k, v)
            for t in ("INT", "DOUBLE", "FLOAT", "LONG", "INT64_T", "BOOL", "BYTE"):
                setattr(m, t, t)
            m.Wtime = lambda: seams.cur().mono()
            m.Get_processor_name = lambda: "sim"
            m.Is_initialized = lambda: True
            m.Finalize = lambda: None
        return m
