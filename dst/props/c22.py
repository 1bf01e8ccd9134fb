"""C22: the one-call optimiser returns the best point it ever evaluated."""
import csv
import io
import zlib

import numpy as np

from .. import world as W
from ..cluster import Cluster
from ..rng import Extreme
from ..steady import TappedClient, History
from ..storage import SimFile

import matplotlib
matplotlib.use('agg')
from matplotlib import pyplot as plt                            # noqa: E402
from matplotlib.backends.backend_agg import FigureCanvasAgg     # noqa: E402

from leap_ec.simple import ea_solve

RUNS = dict(quick=5000, thorough=60000)
RULE = ('one call of the one-call optimiser, serial or on the faulty simulated cluster, with '
        'failing evaluations, extreme random draws and failing log streams; non-trivial: at '
        'least one fault, distinct by the hash of its event sequence')
REAL = W.SEAMS_REAL
STUB = W.SEAMS_STUB + ['the drawing of a matplotlib canvas']
ASSUMPTIONS = ['a point whose evaluation fails always fails']
MUST_REACH = ['best_in_initial_population', 'distributed', 'failed_evaluations', 'no_generations',
              'stream_error', 'best_found_late', 'soft_bounds', 'at_bound', 'viz']


def objective(x):
    """Runs in the client or in a simulated worker; the same points always fail."""
    sim = W.core.CURRENT
    calls, fail_p, remote = sim.c22
    remote[0] += sim.machine is not None
    x = np.array(x, copy=True)
    v = float(sum((k + 1) * y for k, y in enumerate(x)))
    h = zlib.crc32(x.tobytes())
    if h % 1000 < 1000 * fail_p:
        sim.fault('evaluation_error')
        sim.reach('failed_evaluations')
        calls.append((x, None))
        raise W.EXCEPTIONS[h % len(W.EXCEPTIONS)]()
    calls.append((x, v))
    return v


def run(sim, src):
    n = src.size(1, 5, 14)
    lo, wid = src.pick([0.0, -5.0]), src.pick([1.0, 10.0])
    style = src.draw(3)
    if style == 0:
        bounds = [(lo - i, lo + i + wid) for i in range(n)]
    elif style == 1:
        some = [(lo, lo + wid), (lo + 3.0, lo + 3.0 + wid), (lo - 100.0, lo)]
        bounds = [some[src.draw(3)] for _ in range(n)]
    else:
        bounds = [(lo, lo + wid)] * n
        if src.bool(0.5):
            bounds[src.draw(n)] = (lo + 50.0, lo + 50.0 + wid)
    gens, size = src.size(0, 5, 20), src.size(1, 6, 25)
    hard = not src.bool(0.3)
    maximize = src.bool(0.5)
    fail_p = src.pick([0.0, 0.0, 0.3])
    calls = []                    # (point, value or None if it failed)
    W.reset_global_context()

    stream = SimFile(sim)
    broken = src.bool(0.1)
    if broken:
        stream.faults = {'write': 0.15}
    client = None
    kw = {}
    if maximize or src.bool(0.5):
        kw['maximize'] = maximize
    if not hard or src.bool(0.5):
        kw['hard_bounds'] = hard
    if src.bool(0.05):
        FigureCanvasAgg.draw = lambda canvas, *a, **k: None
        plt.close('all')
        kw['viz'] = True
        sim.reach('viz')
    if src.bool(0.4):
        sim.reach('distributed')
        cl = Cluster(sim, workers=src.int(1, 4), per_host=2, faults=W.cluster_faults(src))
        client = TappedClient(cl, History())
        kw['dask_client'] = client
    sim.c22 = (calls, fail_p, remote) = (calls, fail_p, [0])
    sim.event(f'{n} {bounds} {gens} {size} {hard} {maximize} {fail_p} {client is not None}')
    error = None
    with Extreme(sim, src.pick([0.0, 0.1])):
        try:
            best = ea_solve(objective, bounds, generations=gens, pop_size=size,
                            mutation_std=src.pick([1.0, 0.1, 20.0, 0.0]), stream=stream, **kw)
        except OSError as e:
            error = e
            sim.check(any(e is x for x in stream.raised), 'unexpected-exception', repr(e))
            sim.reach('stream_error')
    sim.check(error is not None or not stream.raised, 'error-hidden', 'a write error disappeared')
    for x, v in calls:
        sim.event(f'{v}')
    if hard:
        for x, _ in calls:
            for y, (a, b) in zip(x, bounds):
                sim.check(a <= y <= b, 'out-of-bounds', f'{y} outside [{a}, {b}]')
                if y in (a, b):
                    sim.reach('at_bound')
    else:
        sim.reach('soft_bounds')
    sim.sample = dict(bounds=bounds, generations=gens, pop=size, calls=len(calls), maximize=maximize,
                      faults=dict(sim.faults), error=repr(error))
    if error is not None:
        return
    if gens == 0:
        sim.reach('no_generations')
    if client is None:
        sim.check(len(calls) == size * (gens + 1), 'evaluations', f'{len(calls)} evaluations instead of '
                  f'{size} x ({gens} + 1)')
    else:
        sim.check(len(calls) >= size * (gens + 1), 'evaluations', f'only {len(calls)} evaluations')
        sim.check(remote[0] >= size * gens, 'client-not-used', f'{remote[0]} evaluations on the cluster')
    ok = [(x, v) for x, v in calls if v is not None]
    if not ok:
        return
    top = max(v for _, v in ok) if maximize else min(v for _, v in ok)
    sim.check(isinstance(best, np.ndarray) and best.shape == (n,), 'not-a-point', f'{best!r}')
    got = float(sum((k + 1) * y for k, y in enumerate(best)))
    sim.check(any(np.array_equal(best, x) for x, _ in ok), 'not-evaluated', f'{best} was never evaluated')
    sim.check(W.close(got, top), 'not-the-best', f'returned a point of value {got}, but {top} was found '
              f'({"maximising" if maximize else "minimising"})')
    first = [v for _, v in calls[:size] if v is not None]
    if top in first:
        sim.reach('best_in_initial_population')
    else:
        sim.reach('best_found_late')
    # the log: one line per generation, never getting worse
    rows = list(csv.reader(io.StringIO(stream.everything())))
    if gens:
        sim.check(rows[0] == ['step', 'bsf'] and [r[0] for r in rows[1:]] == [str(g) for g in range(gens)],
                  'log-rows', f'{rows}')
        vals = [float(r[1]) for r in rows[1:]]
        for a, b in zip(vals, vals[1:]):
            if not (W.isnan(a) or W.isnan(b)):
                sim.check((b >= a) if maximize else (b <= a), 'best-got-worse', f'{vals}')
