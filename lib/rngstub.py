"""Random generator whose 0/1 vectors are prescribed; serves the usual ways of sampling independent bits."""
import numpy as np


class BitRng:
    def __init__(self, script, prob=None):
        self.script, self.pos, self.probs, self.prob = script, 0, [], prob

    def _next(self, size):
        n = int(np.prod(size)) if size is not None else 1
        v = self.script[self.pos]
        self.pos += 1
        assert len(v) == n, (len(v), n)
        return np.array(v)

    def choice(self, a, size=None, replace=True, p=None, **_):
        a = list(range(a)) if isinstance(a, (int, np.integer)) else list(a)
        p = [1 / len(a)] * len(a) if p is None else list(p)
        self.probs.append(sum(q for x, q in zip(a, p) if x == 1))
        return self._next(size).astype(int)

    def binomial(self, n, p, size=None):
        self.probs.append(p)
        return self._next(size).astype(int)

    def random(self, size=None, **_):
        v = self._next(size)
        return np.where(v == 1, 0.0, 1.0 - 1e-12)

    def uniform(self, low=0.0, high=1.0, size=None):
        return self.random(size)
