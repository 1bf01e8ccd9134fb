"""C26: the analysis of recorded runs reports what the runs recorded."""
import math
import os
import random
import shutil
import tempfile

import numpy as np

from .. import gen, world as W
from ..storage import Disk, Crash

import matplotlib
matplotlib.use('agg')
from matplotlib import pyplot as plt                            # noqa: E402
from matplotlib.backends.backend_agg import FigureCanvasAgg     # noqa: E402
import pandas as pd                                             # noqa: E402

from leap_ec import ops, probe
from leap_ec.algorithm import generational_ea
from leap_ec.contrib import analysis
from leap_ec.individual import Individual, RobustIndividual

RUNS = dict(quick=3500, thorough=40000)
RULE = ('several recorded runs of several experiments, of drawn lengths, intervals and starts, some cut off '
        'by a crash between rows, analysed from their files in drawn order with failing opens and writes; '
        'non-trivial: two runs or a fault, distinct by the hash of its event sequence')
REAL = ['leap_ec.contrib.analysis, leap_ec.probe, leap_ec.algorithm and below', 'pandas, numpy, click']
STUB = ['the disk (simulated files with fault points)', 'the fitness function',
        'the drawing of a matplotlib canvas']
ASSUMPTIONS = ['a crash happens between rows (a row is written by one step of the run)',
               'a run is identified by its job and experiment']
MUST_REACH = ['cut_off', 'shared_file', 'same_job_twice', 'commented', 'io_error', 'analysed', 'plotted', 'gaps',
              'empty_file', 'max_value', 'resumed', 'two_columns', 'extra_column', 'analysed_before', 'repeated', 'failed_evaluations']
METRICS = ['bsf', 'mean_fitness', 'std_fitness', 'min_fitness', 'max_fitness']


class Scratch(Disk):
    """The simulated disk also holds every file named relative to the working directory."""

    def name(self, path):
        if isinstance(path, (str, os.PathLike)):
            path = os.fspath(path)
            if isinstance(path, str) and not os.path.isabs(path):
                path = self.PREFIX + os.path.normpath(path)
        return path

    def open(self, path, mode='r', *a, **kw):
        return super().open(self.name(path), mode, *a, **kw)


class Tap(ops.Operator):
    """Just before the probe: what it is about to record."""

    def __init__(self, ctx, modulo, rows, who, maximize):
        self.ctx, self.modulo, self.rows, self.who, self.maximize = ctx, modulo, rows, who, maximize
        self.best = None

    def __call__(self, population):
        f = [float(i.fitness) for i in population]
        ok = [x for x in f if not math.isnan(x)]
        b = (max(ok) if self.maximize else min(ok)) if ok else math.nan
        if self.best is None or math.isnan(self.best) or (b > self.best if self.maximize else b < self.best):
            self.best = b
        g = self.ctx['leap']['generation']
        if g % self.modulo == 0:
            self.rows.append((*self.who, g, [self.best, float(np.mean(f)), float(np.std(f)),
                              float(np.min(f)), float(np.max(f))]))
        return population


class Failing(W.SimProblem):
    def __init__(self, sim, p, **kw):
        super().__init__(**kw)
        self.sim, self.p = sim, p

    def evaluate(self, phenome, *a, **k):
        if self.sim.src.bool(self.p):
            self.sim.fault('evaluation_error')
            self.sim.reach('failed_evaluations')
            raise ValueError('simulated')
        return super().evaluate(phenome, *a, **k)


class Dies:
    def __init__(self, sim, at):
        self.sim, self.left = sim, at

    def __call__(self, population):
        if self.left == 0:
            self.sim.fault('crash_between_rows')
            self.sim.reach('cut_off')
            raise Crash()
        self.left -= 1
        return population


def near(a, b):
    a, b = float(a), float(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    return abs(a - b) <= 1e-9 * max(1.0, abs(b))


def std(xs):
    if len(xs) < 2:
        return float('nan')
    m = sum(xs) / len(xs)
    return math.sqrt(sum((x - m) ** 2 for x in xs) / (len(xs) - 1))


def auc(points):
    """Each value counts for the time since the one before it."""
    points = sorted(points)
    if any(math.isnan(v) for _, v in points):
        return None
    return sum((t - s) * v for (s, _), (t, v) in zip(points, points[1:]))


def average(v):
    return [None, None] if None in v else [sum(v) / len(v), std(v)]


def frame(df, keys, cols):
    """A table as {key: values}, each key once."""
    out = {}
    for _, r in df.iterrows():
        k = tuple(r[c] for c in keys)
        if k in out:
            return None
        out[k] = [float(r[c]) for c in cols]
    return out


def same_rows(sim, what, df, ecols, rows):
    """Every recorded row, as often as it was recorded."""
    keys = ecols + ['job', 'step']
    sim.check(set(keys + METRICS) <= set(df.columns), 'wrong-columns', f'{what}: {list(df.columns)}')
    got, want = {}, {}
    for _, r in df.iterrows():
        got.setdefault(tuple(r[c] for c in keys), []).append([float(r[c]) for c in METRICS])
    for exp, job, g, m in rows:
        want.setdefault((*key(exp), job, g), []).append(m)
    count = {k: len(v) for k, v in want.items()}
    sim.check({k: len(v) for k, v in got.items()} == count, 'wrong-rows',
              f'{what}: {[(k, len(v)) for k, v in got.items() if count.get(k) != len(v)][:4]}, missing '
              f'{sorted(set(want) - set(got))[:4]}')
    for k, v in want.items():
        for a, b in zip(got[k], v):
            sim.check(all(near(x, y) for x, y in zip(a, b)), 'wrong-value', f'{what} {k}: {a}, should be {b}')


def compare(sim, what, df, keys, cols, want):
    sim.check(set(keys + cols) <= set(df.columns), 'wrong-columns', f'{what}: {list(df.columns)}')
    got = frame(df, keys, cols)
    sim.check(got is not None, 'row-twice', f'{what}: a key appears twice')
    sim.check(set(got) == set(want), 'wrong-rows',
              f'{what}: missing {sorted(set(want) - set(got))[:4]}, extra {sorted(set(got) - set(want))[:4]}')
    for k, v in want.items():
        # None: not judged; a tuple: any of these
        sim.check(all(b is None or any(near(a, c) for c in (b if isinstance(b, tuple) else (b,)))
                      for a, b in zip(got[k], v)), 'wrong-value', f'{what} {k}: {got[k]}, should be {v}')


def run(sim, src):
    FigureCanvasAgg.draw = lambda canvas, *a, **k: None
    here = os.getcwd()
    cwd = tempfile.mkdtemp(prefix='dst-c26-')
    os.chdir(cwd)
    try:
        with Scratch(sim) as disk:
            body(sim, src, disk, cwd)
    finally:
        os.chdir(here)
        shutil.rmtree(cwd, ignore_errors=True)


def body(sim, src, disk, cwd):
    rows = []
    wrote = {}
    extra = False
    files = []
    n_exp = src.int(1, 3)
    shared = src.bool(0.3)
    text = src.bool(0.5)
    two = src.bool(0.25)             # experiments told apart by two columns
    if two:
        sim.reach('two_columns')
    for e in range(n_exp):
        exp = f'exp{e}' if text else 10 + e
        if two:
            exp = (exp[:3] if text else 10, 0.5 * e) if e < 2 else (exp, 0.5)
        jobs = src.shuffle(range(src.int(1, 4)))
        if e:
            sim.reach('same_job_twice')
        comment = 'a comment\nof two lines' if src.bool(0.3) else None
        more = src.bool(0.15)            # a column the other experiments may not have
        extra |= more
        stream = None
        todo = [(job, src.pick([0, 0, 5]), 0) for job in jobs]
        while todo:
            job, start, part = todo.pop(0)
            head = stream is None or not shared
            if head:
                name = Disk.PREFIX + f'run-{e}-{job}-{part}.csv'
                stream = open(name, 'w')
                files.append(name)
            else:
                sim.reach('shared_file')
            before = len(rows)
            end = one(sim, src, stream, rows, exp, job, head, comment, start, more)
            sim.event(f'run {exp} {job} from {start}: {len(rows) - before} rows')
            if end is not None and src.bool(0.6):
                # started again from where it was cut off, into a file of its own or the shared one
                sim.reach('resumed')
                todo.append((job, end + 1, part + 1))
            if not shared:
                wrote[name] = rows[before:]
                stream.close()
                if len(rows) == before:
                    sim.reach('empty_file')
        stream.close()
    files = src.shuffle(files)
    if len({r[:2] for r in rows}) > 1:
        sim.nontrivial = True
    if not rows:
        sim.sample = dict(rows=0)
        return
    if not two and src.bool(0.2):
        # some of it has been analysed before
        try:
            analysis.analyze.main([f for f in files if src.bool(0.5)] or files[:1], standalone_mode=False)
            sim.reach('analysed_before')
        except ValueError:
            pass                         # nothing but empty files
    if not shared and src.bool(0.1):
        # the same run all over again, recorded in another file
        f = src.pick(files)
        again = f[:-4] + '-again.csv'
        disk.files[again] = disk.files[f]
        files = src.shuffle(files + [again])
        rows += [r for r in wrote[f]]
        sim.reach('repeated')
    faulty = src.bool(0.25)
    if faulty:
        disk.faults = {src.pick(['open', 'write', 'flush']): src.pick([0.1, 0.5])}
    disk.raised.clear()
    try:
        if not two:                  # the command knows one column
            analysis.analyze.main(list(files), standalone_mode=False)
    except (Exception, SystemExit) as e:
        # the command line turns a broken pipe into an exit code
        sim.check(disk.raised and (e in disk.raised or isinstance(e, OSError) or
                                   isinstance(e, SystemExit) and e.code),
                  f'unexpected-exception {type(e).__name__} in analysis', repr(e))
        sim.reach('io_error')
        sim.event('analysis failed')
    else:
        disk.faults = {}
        sim.check(not disk.raised, 'error-hidden', f'{disk.raised} and the analysis went on')
        if not two:
            check_files(sim, src, disk, cwd, rows)
    disk.faults = {}
    # by hand, also after a failure
    df = analysis.cat_csv_files(files)
    ecols = ['experiment', 'setting'] if two else ['experiment']
    same_rows(sim, 'combined', df, ecols, rows)
    if extra and rows:
        sim.check('size' in df.columns, 'wrong-columns', f'combined: {list(df.columns)}')
        sim.reach('extra_column')
    a = analysis.CurveAnalyzer(df=df, experiment_cols=ecols)
    col = src.draw(len(METRICS))
    areas = per_run(sim, a.scalar_metrics_per_run(metric_col=METRICS[col]), rows, col, ecols)
    if src.bool(0.3):
        sim.reach('max_value')
        by = {}
        for exp, job, g, m in rows:
            by.setdefault((*key(exp), job), []).append(m[col])
        # a value that is no number has no place in a maximum, or spoils it
        want = {k: [max(v)] if not any(map(math.isnan, v)) else
                [(math.nan, max([x for x in v if not math.isnan(x)] or [math.nan]))] for k, v in by.items()}
        compare(sim, 'max per run', a.scalar_metrics_per_run(METRICS[col], analysis.max_value),
                ecols + ['job'], ['max_value'], want)
    if two or src.bool(0.2):
        compare(sim, 'mean curves', a.avg_curves(), ['step'] + ecols,
                [f'{m}_{s}' for m in METRICS for s in ('mean', 'std')], curves(rows))
        by = {}
        for k, v in areas.items():
            by.setdefault(k[:-1], []).append(v)
        compare(sim, 'mean areas', a.avg_scalar_metrics(METRICS[col]), ecols, ['auc_mean', 'auc_std'],
                {k: average(v) for k, v in by.items()})
    if src.bool(0.08) and not two and not any(math.isnan(r[3][col]) for r in rows):
        plotted(sim, a, rows, col)
    sim.sample = dict(experiments=n_exp, files=len(files), rows=len(rows), faults=dict(sim.faults))


def one(sim, src, stream, rows, exp, job, head, comment, start, more):
    """One run; the generation it was cut off at, if it was."""
    d = gen.draw(src, pop=(1, 4), gens=(0, 4))
    d['infinite'] = False
    ctx = W.new_context()
    ctx['leap']['generation'] = start
    modulo = src.pick([1, 1, 2, 3])
    if modulo > 1:
        sim.reach('gaps')
    if comment and head:
        sim.reach('commented')
    cls, prob = Individual, gen.problem(d)
    if src.bool(0.2):
        d['sel'] = src.draw(5)
        cls, prob = RobustIndividual, Failing(sim, src.pick([0.2, 0.6]), maximize=prob.maximize, mode=prob.mode)
    p = probe.FitnessStatsCSVProbe(stream=stream, job=job, notes=dict(zip(['experiment', 'setting'], key(exp))), header=head,
                                   modulo=modulo, context=ctx, comment=comment if head else None,
                                   extra_metrics={'size': len} if more else None)
    pipeline = gen.breeding(d) + [ops.evaluate, ops.pool(size=d['offspring']),
                                  Tap(ctx, modulo, rows, (exp, job), d['maximize']), p]
    if src.bool(0.3):
        pipeline.append(Dies(sim, src.draw(4)))
    try:
        generational_ea(max_generations=start + d['gens'], pop_size=d['pop'], problem=prob,
                        representation=gen.representation(d, cls), pipeline=pipeline,
                        k_elites=d['k'], context=ctx, start_generation=start)
    except Crash:
        return ctx['leap']['generation']
    return None


def key(exp):
    return exp if isinstance(exp, tuple) else (exp,)


def curves(rows):
    by = {}
    for exp, job, g, m in rows:
        by.setdefault((g, *key(exp)), []).append(m)
    want = {}
    for k, ms in by.items():
        v = []
        for c in range(len(METRICS)):
            xs = [m[c] for m in ms]
            v += [None, None] if any(math.isnan(x) for x in xs) else [sum(xs) / len(xs), std(xs)]
        want[k] = v
    return want


def per_run(sim, df, rows, col, ecols=['experiment']):
    by = {}
    for exp, job, g, m in rows:
        by.setdefault((*key(exp), job), []).append((g, m[col]))
    compare(sim, f'area of {METRICS[col]} per run', df, ecols + ['job'], ['auc'],
            {k: [auc(v)] for k, v in by.items()})
    return {k: auc(v) for k, v in by.items()}


def check_files(sim, src, disk, cwd, rows):
    sim.reach('analysed')

    def read(name):
        p = Disk.PREFIX + name
        sim.check(p in disk.files or os.path.exists(os.path.join(cwd, name)), 'missing-file', name)
        return pd.read_csv(p if p in disk.files else os.path.join(cwd, name), skipinitialspace=True)
    same_rows(sim, 'curves_combined.csv', read('curves_combined.csv'), ['experiment'], rows)
    compare(sim, 'avg_curves_by_experiment.csv', read('avg_curves_by_experiment.csv'), ['step', 'experiment'],
            [f'{m}_{s}' for m in METRICS for s in ('mean', 'std')], curves(rows))
    areas = per_run(sim, read('scalars_by_run.csv'), rows, 0)
    by = {}
    for (exp, job), v in areas.items():
        by.setdefault((exp,), []).append(v)
    compare(sim, 'avg_scalars_by_experiment.csv', read('avg_scalars_by_experiment.csv'), ['experiment'],
            ['auc_mean', 'auc_std'], {k: average(v) for k, v in by.items()})


def plotted(sim, a, rows, col):
    sim.reach('plotted')
    ax = plt.figure().add_subplot()
    analysis.CurvePlotter(a).plot_curves(METRICS[col], 'title', ax=ax)
    got = sorted(sorted([(round(float(x), 9), round(float(y), 6)) for x, y in zip(ln.get_xdata(), ln.get_ydata())])
                 for ln in ax.lines)
    by = {}
    for exp, job, g, m in rows:
        by.setdefault((exp, job), []).append((round(float(g), 9), round(m[col], 6)))
    sim.check(got == sorted(sorted(v) for v in by.values()), 'wrong-plot',
              f'{got} instead of {sorted(by.values())}')
    plt.close('all')
