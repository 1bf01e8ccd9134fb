"""Randomness as a fault domain: every draw the library makes may come out as
an extreme but legal value of its distribution.

`Extreme(sim, p)` wraps the module-level functions of `random` and
`numpy.random` while it is active.  Each element of each draw is, with
probability p, replaced by an edge of the support of what was asked for (the
closed or half-open end, the most distant quantile, the first or last
candidate).  Decisions come from the run's own choice source.
"""
import random

import numpy as np

ONE = 1.0 - 2.0 ** -53


class Extreme:
    def __init__(self, sim, p):
        self.sim, self.src, self.p = sim, sim.src, p
        self.saved = []
        self.depth = 0

    # -- helpers ---------------------------------------------------------
    def hit(self):
        if self.src.bool(self.p):
            self.sim.fault('extreme_random_draw')
            return True
        return False

    def edit(self, value, edges):
        """value: scalar or array; edges(k) -> tuple of legal extremes of element k"""
        if np.ndim(value) == 0:
            if self.hit():
                return type(value)(self.src.pick(edges(0))) if isinstance(value, np.generic) \
                    else self.src.pick(edges(0))
            return value
        flat = value.reshape(-1)
        for k in range(flat.size):
            if self.hit():
                flat[k] = self.src.pick(edges(k))
        return flat.reshape(value.shape)

    def patch(self, mod, name, make):
        real = getattr(mod, name)

        def f(*a, **k):
            if self.depth:
                return real(*a, **k)
            self.depth += 1
            try:
                return make(real, *a, **k)
            finally:
                self.depth -= 1
        self.saved.append((mod, name, real))
        setattr(mod, name, f)

    def __enter__(self):
        src, R, N = self.src, random, np.random

        def flat(x, like):
            return np.broadcast_to(np.asarray(x), np.shape(like)).reshape(-1) if np.ndim(like) \
                else [np.asarray(x).item() if np.ndim(x) == 0 else np.asarray(x).reshape(-1)[0]]

        def uniform(real, low=0.0, high=1.0, size=None):
            v = real(low, high, size)
            lo, hi = flat(low, v), flat(high, v)

            def edges(k):
                top = np.nextafter(hi[k], lo[k])
                return (lo[k], top, (lo[k] + hi[k]) / 2)
            return self.edit(v, edges)

        def unit(real, *a, **k):
            return self.edit(real(*a, **k), lambda k: (0.0, ONE, 0.5))

        def normal(real, loc=0.0, scale=1.0, size=None):
            v = real(loc, scale, size)
            m, s = flat(loc, v), flat(scale, v)
            return self.edit(v, lambda k: tuple(m[k] + s[k] * q for q in (8.0, -8.0, 0.0, 37.0, -37.0)))

        def stdnormal(real, *a, **k):
            return self.edit(real(*a, **k), lambda k: (8.0, -8.0, 0.0, 37.0, -37.0))

        def randint(real, low, high=None, size=None, dtype=int):
            v = real(low, high, size, dtype)
            if high is None:
                low, high = 0, low
            lo, hi = flat(low, v), flat(high, v)
            return self.edit(v, lambda k: (int(lo[k]), int(hi[k]) - 1))

        def binomial(real, n, p, size=None):
            v = real(n, p, size)
            nn, pp = flat(n, v), flat(p, v)
            return self.edit(v, lambda k: (0, int(nn[k])) if 0 < pp[k] < 1 else (int(nn[k] * pp[k]),))

        def npchoice(real, a, size=None, replace=True, p=None):
            v = real(a, size, replace, p)
            pool = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
            if p is None and np.ndim(pool) == 1 and self.hit():
                end = src.bool(0.5)
                if size is None:
                    return pool[-1 if end else 0]
                if not replace:
                    m = int(np.prod(size))
                    w = pool[len(pool) - m:] if end else pool[:m]
                    return np.array(w).reshape(size)
                return np.full(size, pool[-1 if end else 0])
            return v

        def rnd(real):
            return self.edit(real(), lambda k: (0.0, ONE))

        def randrange(real, *a):
            r = range(*a)
            return r[src.pick((0, -1))] if len(r) and self.hit() else real(*a)

        def pyint(real, a, b):
            return src.pick((a, b)) if self.hit() else real(a, b)

        def choice(real, seq):
            return seq[src.pick((0, -1))] if len(seq) and self.hit() else real(seq)

        def choices(real, population, weights=None, *, cum_weights=None, k=1):
            v = real(population, weights, cum_weights=cum_weights, k=k)
            if cum_weights is not None:
                return v
            ok = [i for i in range(len(population)) if weights is None or weights[i] > 0]
            return [population[src.pick((ok[0], ok[-1]))] if ok and self.hit() else x for x in v]

        def shuffle(real, xs):
            real(xs)
            if self.hit():
                xs.reverse()

        self.patch(N, 'uniform', uniform)
        self.patch(N, 'normal', normal)
        self.patch(N, 'randint', randint)
        self.patch(N, 'binomial', binomial)
        self.patch(N, 'choice', npchoice)
        for n in ('rand', 'random', 'random_sample'):
            self.patch(N, n, unit)
        for n in ('randn', 'standard_normal'):
            self.patch(N, n, stdnormal)
        self.patch(R, 'random', rnd)
        self.patch(R, 'randrange', randrange)
        self.patch(R, 'randint', pyint)
        self.patch(R, 'choice', choice)
        self.patch(R, 'choices', choices)
        self.patch(R, 'shuffle', shuffle)
        return self

    def __exit__(self, *a):
        for mod, name, real in reversed(self.saved):
            setattr(mod, name, real)
        return False
