"""Simulated jobs: MPI ranks as simulated processes with their own package image."""
from . import seams
from .image import Image
from .mpi import MpiLib, World


class Job:
    """One job: `size` ranks, each running main(rank, image) in its own process."""

    def __init__(self, sim, name, size, main, mpi=True, skews=None, rates=None, entropy=None,
                 delays=None, eager=True, starts=None, hash_seeds=None, fs=None,
                 abort_on_error=True, mpi_error=None, lemon_error=None, wall_quantum=None):
        self.sim, self.name, self.size = sim, name, size
        self.world = World(sim, size, name, delays, eager) if mpi else None
        self.procs, self.tasks = [], []
        for r in range(size):
            p = sim.proc(f"{name}.{r}", skew=(skews or [0.0] * size)[r],
                         rate=(rates or [1.0] * size)[r],
                         entropy=f"{name}/{r}" if entropy is None else entropy[r])
            p.job, p.rank = self, r
            p.image = Image(mpi=MpiLib(self.world, r) if mpi else None, mpi_error=mpi_error,
                            lemon_error=lemon_error, hash_seed=(hash_seeds or [0] * size)[r])
            p.fs = fs
            p.on_kill = [self._killed]
            p.on_exit = [self._exited] if abort_on_error else []
            self.procs.append(p)
            delay = (starts or [0.0] * size)[r]

            def body(p=p, r=r, delay=delay):
                if delay:
                    sim.sleep(delay)
                return main(r, p.image)

            self.tasks.append(sim.spawn(f"{name}.{r}", p, body))
        if self.world:
            self.world.procs = self.procs

    def _killed(self, proc):
        if self.world and not self.world.aborted and self.size > 1:
            self.world.abort(f"{proc.name} died")

    def _exited(self, proc):
        if self.world and proc.exit == "error" and not self.world.aborted and self.size > 1:
            self.world.abort(f"{proc.name} failed")

    @property
    def ok(self):
        return all(t.error is None and t.proc.alive for t in self.tasks)

    def errors(self):
        return [t.error for t in self.tasks if t.error is not None]


def delay_fn(run, profile):
    """Message delays: 'none', 'small', 'wild' (reorders contributions, up to seconds)."""
    ch = run.ch

    def delay():
        if profile == "none":
            return 1e-5
        if profile == "small":
            return 1e-5 * (1 + ch.choose(20))
        k = ch.choose(8)
        return [1e-5, 1e-4, 1e-3, 1e-2, 0.1, 1.0, 3.0, 10.0][k]

    return delay


def here():
    return seams.cur()
