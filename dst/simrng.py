"""A scripted random generator: the random source of a noise layer behind a seam.

Draws come from independent channels (gaussian, uniform, integer, label draws), each value being a
function of the channel and its running number; single draws can be replaced, so that the response
of the system to one draw is observable whatever the order in which the code draws."""
import random

import numpy as np


class SimRNG(np.random.Generator):
    def __init__(self, seed, zero=(), extreme=0.0, replace=None, binomial=None):
        super().__init__(np.random.PCG64(seed % 2**63))
        self.seed = seed
        self.zero = set(zero)
        self.extreme = extreme
        self.replace = dict(replace or {})
        self.force_binomial = binomial
        self.count = {"g": 0, "u": 0, "i": 0, "l": 0}
        self.calls = []
        self.unmodelled = False

    # ------------------------------------------------------------------ single values
    def _one(self, ch):
        k = self.count[ch]
        self.count[ch] += 1
        return self._at(ch, k)

    def _at(self, ch, k):
        if (ch, k) in self.replace:
            return self.replace[(ch, k)]
        if ch in self.zero:
            return 0.0
        r = random.Random(f"{self.seed}/{ch}/{k}")
        if ch == "g":
            v = r.gauss(0, 1)
            return v * 1e3 if self.extreme and r.random() < self.extreme else v
        if self.extreme and r.random() < self.extreme:
            return r.choice([0.0, 1 - 2**-53])
        return r.random()

    def _many(self, ch, size):
        if size is None:
            return self._one(ch)
        n = int(np.prod(size))
        return np.array([self._one(ch) for _ in range(n)], dtype=float).reshape(size)

    @staticmethod
    def _shape(size, *args):
        if size is not None:
            return size
        s = np.broadcast(*[np.asarray(a) for a in args]).shape
        return s if s else None

    # ------------------------------------------------------------------ generator methods
    def normal(self, loc=0.0, scale=1.0, size=None):
        self.calls.append("normal")
        s = self._shape(size, loc, scale)
        return np.asarray(loc) + np.asarray(scale) * self._many("g", s) if s is not None \
            else float(loc) + float(scale) * self._one("g")

    def standard_normal(self, size=None, dtype=np.float64, out=None):
        if out is not None:
            out[...] = self._many("g", out.shape)
            return out
        v = self._many("g", size)
        return v if size is None else v.astype(dtype)

    def random(self, size=None, dtype=np.float64, out=None):
        self.calls.append("random")
        if out is not None:
            out[...] = self._many("u", out.shape)
            return out
        return self._many("u", size)

    def uniform(self, low=0.0, high=1.0, size=None):
        s = self._shape(size, low, high)
        return np.asarray(low) + (np.asarray(high) - np.asarray(low)) * self._many("u", s)

    def integers(self, low, high=None, size=None, dtype=np.int64, endpoint=False):
        self.calls.append("integers")
        if high is None:
            low, high = 0, low
        if endpoint:
            high = high + 1
        if np.ndim(low) or np.ndim(high):
            return self._other("integers", low, high, size, dtype, endpoint)
        v = np.floor(self._many("i", size) * (high - low)) + low
        return int(v) if size is None else v.astype(dtype)

    def binomial(self, n, p, size=None):
        self.calls.append("binomial")
        if size is not None or np.ndim(n) or np.ndim(p):
            s = self._shape(size, n, p)
            return (self._many("l", s) < p).astype(int) if np.all(np.asarray(n) == 1) \
                else self._other("binomial", n, p, size)
        if self.force_binomial is not None:
            return int(round(self.force_binomial * n))
        r = random.Random(f"{self.seed}/b/{self.count['l']}")
        self.count["l"] += 1
        return sum(r.random() < p for _ in range(int(n)))

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        self.calls.append("choice")
        if p is not None or axis != 0:
            return self._other("choice", a, size, replace, p, axis, shuffle)
        a = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
        if replace:
            # Independent picks: the same draws as integers(len(a)).
            idx = np.floor(self._many("i", size) * len(a))
            return a[int(idx) if size is None else idx.astype(int)]
        r = random.Random(f"{self.seed}/c/{self.count['l']}")
        self.count["l"] += 1
        if size is None:
            return a[r.randrange(len(a))]
        n = int(np.prod(size))
        idx = r.sample(range(len(a)), n)
        return a[np.array(idx, dtype=int)].reshape(size if np.ndim(size) else (size,))

    def permutation(self, x, axis=0):
        x = np.arange(x) if np.ndim(x) == 0 else np.asarray(x)
        idx = list(range(len(x)))
        random.Random(f"{self.seed}/p/{self.count['l']}").shuffle(idx)
        self.count["l"] += 1
        return x[idx]

    def shuffle(self, x, axis=0):
        idx = list(range(len(x)))
        random.Random(f"{self.seed}/s/{self.count['l']}").shuffle(idx)
        self.count["l"] += 1
        x[:] = np.asarray(x)[idx] if isinstance(x, np.ndarray) else [x[i] for i in idx]

    def _other(self, name, *a):
        self.unmodelled = True
        return getattr(super(), name)(*a)


def _unmodelled(name):
    orig = getattr(np.random.Generator, name)

    def call(self, *a, **k):
        self.unmodelled = True
        return orig(self, *a, **k)

    call.__name__ = name
    return call


for _n in ("multivariate_normal", "bytes", "beta", "poisson", "exponential", "lognormal", "laplace",
           "multinomial", "permuted", "standard_t", "gamma", "logistic", "vonmises", "triangular"):
    setattr(SimRNG, _n, _unmodelled(_n))
