"""Reference model of nondominated sorting and crowding (independent of the library)."""
import itertools
import math

import numpy as np

from . import world as W

from leap_ec.multiobjective.problems import MultiObjectiveProblem


class SimMulti(MultiObjectiveProblem):
    """The application's vector-valued fitness function, with fault points."""

    def __init__(self, directions, coeffs, grid, shift=0.0, scale=None):
        super().__init__(maximize=tuple(directions))
        self.directions, self.coeffs, self.grid = tuple(directions), coeffs, grid
        self.shift = shift
        self.scale = scale or [1.0] * len(directions)      # objectives in different units

    def pure(self, phenome):
        a = np.asarray(phenome, dtype=float).ravel()
        out = []
        for c, u in zip(self.coeffs, self.scale):
            v = float(sum(c[i % len(c)] * x for i, x in enumerate(a)))
            out.append((math.floor(v) % self.grid + self.shift) * u)
        return np.array(out, dtype=float)

    def evaluate(self, phenome, *args, **kwargs):
        led = W.ledger()
        if led is not None:
            led.visit('problem', None)
        v = self.pure(phenome)
        if led is not None:
            led.value(np.array(phenome, copy=True), tuple(v))
        return v


def draw_problem(src):
    m = src.weighted([(4, 2), (2, 3), (1, 1), (1, 4)])
    return SimMulti([src.bool(0.5) for _ in range(m)],
                    [[src.int(1, 13) for _ in range(src.int(1, 4))] for _ in range(m)],
                    src.pick([7, 3, 101, 1]), src.pick([0.0, -3.0]),
                    [src.pick([1e-12, 1e12, 1.0, 1e-6]) for _ in range(m)] if src.bool(0.25) else None)


def failed(fitness):
    return bool(np.any(np.isnan(np.asarray(fitness, dtype=float))))


def key(problem, fitness):
    """Larger is better in every coordinate; None = failed."""
    if failed(fitness):
        return None
    f = np.asarray(fitness, dtype=float).ravel()
    return tuple(float(x) if up else -float(x) for x, up in zip(f, problem.directions))


def dominates(a, b):
    if a is None:
        return False
    if b is None:
        return True
    return all(x >= y for x, y in zip(a, b)) and any(x > y for x, y in zip(a, b))


def ranks(keys):
    """1 for the nondominated ones, 2 for those nondominated without them, ..."""
    left = set(range(len(keys)))
    out = [0] * len(keys)
    r = 0
    while left:
        r += 1
        front = [i for i in left if not any(dominates(keys[j], keys[i]) for j in left)]
        for i in front:
            out[i] = r
        left -= set(front)
    return out


def distances(keys):
    """For each member of one front, the set of crowding distances that some
    order among equal values gives it."""
    n = len(keys)
    if any(k is None for k in keys):
        return [None] * n
    m = len(keys[0])
    per = []
    for j in range(m):
        vals = sorted(k[j] for k in keys)
        lo, hi = vals[0], vals[-1]
        if hi == lo:
            per.append([{0.0}] * n)
            continue
        col = []
        for i in range(n):
            v = keys[i][j]
            poss = set()
            first = vals.index(v)
            last = n - 1 - vals[::-1].index(v)
            for p in range(first, last + 1):
                if p == 0 or p == n - 1:
                    poss.add(math.inf)
                else:
                    poss.add((vals[p + 1] - vals[p - 1]) / (hi - lo))
            col.append(poss)
        per.append(col)
    return [{sum(c) for c in itertools.product(*(per[j][i] for j in range(m)))}
            for i in range(n)]


def has(dset, d):
    return dset is None or any(x == d or abs(x - d) <= 1e-9 * max(1.0, abs(x)) for x in dset
                               if not (math.isinf(x) and not math.isinf(d)))
