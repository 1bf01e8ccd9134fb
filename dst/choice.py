"""The one source of nondeterminism of a simulated run.

Every decision of a run -- workload, schedule, fault, random seed -- is an
integer drawn here.  The sequence of drawn integers *is* the run: feeding it
back replays the run exactly, and editing it (delete, zero, lower) is how a
failing run is minimised.  By convention 0 is always the tamest outcome.
"""
import random


class Source:
    __slots__ = ('rng', 'replay', 'pos', 'out', 'limit')

    def __init__(self, seed=None, replay=None):
        self.rng = random.Random(seed) if replay is None else None
        self.replay = replay
        self.pos = 0
        self.out = []

    def draw(self, n):
        """An integer in [0, n)."""
        if n <= 1:
            return 0
        if self.replay is None:
            v = self.rng.randrange(n)
        else:
            v = self.replay[self.pos] if self.pos < len(self.replay) else 0
            self.pos += 1
            if v >= n:
                v = n - 1
        self.out.append(v)
        return v

    def int(self, lo, hi):
        """lo..hi inclusive, lo is the tamest."""
        return lo + self.draw(hi - lo + 1)

    def size(self, lo, hi, big):
        """lo..hi, but now and then up to big."""
        if self.draw(12) == 11:
            return lo + self.draw(big - lo + 1)
        return lo + self.draw(hi - lo + 1)

    def bool(self, p=0.5):
        """True with probability p; False is the tamest."""
        if p <= 0:
            return False
        return self.draw(1000) >= 1000 - int(round(1000 * p))

    def pick(self, seq):
        return seq[self.draw(len(seq))]

    def weighted(self, pairs):
        """pairs: [(weight, value), ...]; the first is the tamest."""
        total = sum(w for w, _ in pairs)
        v = self.draw(total)
        for w, x in pairs:
            if v < w:
                return x
            v -= w
        return pairs[-1][1]

    def shuffle(self, xs):
        xs = list(xs)
        for i in range(len(xs) - 1):
            j = i + self.draw(len(xs) - i)
            xs[i], xs[j] = xs[j], xs[i]
        return xs

    def subset(self, xs, p=0.5):
        return [x for x in xs if self.bool(p)]

    def frac(self, steps=1000):
        """A float in [0, 1)."""
        return self.draw(steps) / steps

    def seed32(self):
        return self.draw(1 << 31)
