"""Exceptions raised at the n-th executed line of the package."""
import sys

from . import image
from .core import derive


class Injected(Exception):
    """Stands for whatever may interrupt a computation: Ctrl-C, memory, time-outs."""


class Places:
    """A seeded choice of places in the package, so that lines which are executed rarely count as much as loops."""

    def __init__(self, seed, one_in):
        self.seed = seed
        self.one_in = one_in
        self.memo = {}
        self.pre = str(image.ROOT / "flamingpy")

    def __contains__(self, frame):
        key = (frame.f_code.co_filename, frame.f_lineno)
        got = self.memo.get(key)
        if got is None:
            got = derive(self.seed, key[0][len(self.pre) + 1:], key[1]) % self.one_in == 0
            self.memo[key] = got
        return got


class LineTrace:
    """Counts executed lines of the package; optionally raises at line `at`."""

    def __init__(self, at=None, exc=Injected, places=False, spots=None):
        self.at = at
        self.spots = spots
        self.places = {} if places else None
        self.exc = exc
        self.n = 0
        self.where = None
        self.pre = str(image.ROOT / "flamingpy")

    @classmethod
    def scripted(cls, frac, lines=3000):
        """An abort at the n-th executed line, mostly an early one, or at the first of some places."""
        n = int(frac * 10**6)
        if n % 2:
            return cls(spots=Places(n, 40 if n % 4 == 1 else 150))
        return cls(1 + int(frac**2 * lines))

    def _local(self, frame, event, arg):
        if event == "line":
            self.n += 1
            if self.places is not None:
                key = (frame.f_code.co_filename, frame.f_lineno)
                hit = self.places.get(key)
                if hit is None:
                    self.places[key] = [self.n, self.n]
                else:
                    hit[1] = self.n
            if self.at is not None and self.n == self.at or (
                    self.spots is not None and self.where is None and frame in self.spots):
                self.where = f"{frame.f_code.co_filename[len(self.pre) + 1:]}:{frame.f_lineno}"
                raise self.exc("injected")
        return self._local

    def _global(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(self.pre):
            return self._local
        return None

    def pick(self, frac, how):
        """The number of an executed line: any of them, or the first or last execution of one of the
        places in the code (so that lines which are executed rarely are hit as often as loops)."""
        if how == "any" or not self.places:
            return 1 + int(frac * max(self.n - 1, 0))
        keys = sorted(self.places)
        return self.places[keys[int(frac * len(keys))]][0 if how == "first" else 1]

    def __enter__(self):
        self._old = sys.gettrace()
        sys.settrace(self._global)
        return self

    def __exit__(self, *exc):
        sys.settrace(self._old)
