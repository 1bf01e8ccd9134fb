"""C15: pipeline probes only watch, record what was there, and fail cleanly."""
import csv
import io
import itertools
import random

import numpy as np

from .. import gen, world as W
from ..storage import SimFile, Crash

import matplotlib
matplotlib.use('agg')
from matplotlib import pyplot as plt                            # noqa: E402
from matplotlib.backends.backend_agg import FigureCanvasAgg     # noqa: E402

from leap_ec import ops, probe
from leap_ec.algorithm import generational_ea
from leap_ec.individual import Individual, RobustIndividual
from leap_ec.executable_rep.cgp import CGPDecoder, NAND
from leap_ec.executable_rep.neural_network import GraphPhenotypeProbe, SimpleNeuralNetworkDecoder
from leap_ec.executable_rep.rules import PittRulesDecoder, PlotPittRuleProbe
from leap_ec.multiobjective.probe import ParetoPlotProbe2D
from leap_ec.distrib.individual import DistributedIndividual

RUNS = dict(quick=5000, thorough=100000)
RULE = ('one generational run with drawn probes at drawn places of its pipeline, compared with '
        'the same run without them, with failing evaluations, failing streams, failing metrics '
        'and interruptions at drawn points; non-trivial: at least one fault or two probes, '
        'distinct by the hash of its event sequence')
REAL = W.SEAMS_REAL
STUB = ['the fitness function, the streams and the metrics (simulated, with fault points)',
        'the drawing of a matplotlib canvas (simulated, may fail; figures, axes and artists are real)']
PLOTS = ('metrics', 'fitness_plot', 'cartesian', 'sum_plot', 'hist', 'heat')
ASSUMPTIONS = ['numpy array printing has its default settings before the run',
               'phenomes shown in a histogram are numbers (numpy has no histogram of truth values)']
MUST_REACH = ['stream_error', 'metric_error', 'interrupted', 'bsf_improved', 'bsf_kept', 'modulo',
              'iterator_probe', 'attributes', 'dataframe', 'changed_after_probe', 'failed_evaluations',
              'long_genome', 'best_only', 'missing_attribute', 'plot', 'draw_error', 'diversity', 'pareto_plot', 'rules_plot', 'graph_plot',
              'segments', 'by_hand']


class MetricError(Exception):
    pass


ERRORS = [MetricError, OSError, RuntimeError, ValueError, TypeError, KeyError, ZeroDivisionError, AttributeError]
NOTES = {'note': 'x', 'zeta': 'y', 'alpha': 'z'}      # not in the order of their names
COMMENT = ['made by', 'a simulation', '', 'of runs', 'with probes']


def notes(s):
    return {k: NOTES[k] for k in list(NOTES)[:s['notes']]}


def numpy_default(sim, when):
    a = np.arange(2000)
    sim.check('...' in str(a) and repr(np.array([1, 2])) == 'array([1, 2])' and
              str(np.array([1, 2])) == '[1 2]', 'numpy-printing-changed',
              f'numpy prints arrays differently {when}: {np.array([1, 2])!r}')


def key(p, f):
    return (0, 0.0) if W.isnan(f) else (1, float(f) if p.maximize else -float(f))


def num(text):
    return float(text)


def equal(text, value):
    """A printed number, up to rounding in its last digits."""
    v, t = float(value), num(text)
    if np.isnan(v) or np.isnan(t):
        return bool(np.isnan(v) and np.isnan(t))
    return abs(v - t) <= 1e-6 * max(1.0, abs(v))


def run(sim, src):
    FigureCanvasAgg.draw = lambda canvas, *a, **k: Tapped.drawing(canvas)
    Tapped.draw_p = 0.0
    if src.bool(0.04):
        return pareto_plot(sim, src)
    if src.bool(0.04):
        return program_plot(sim, src)
    if src.bool(0.05):
        return segments(sim, src)
    if src.bool(0.2):
        return by_hand(sim, src)
    d = gen.draw(src, pop=(1, 6), gens=(0, 6))
    if src.bool(0.15):
        d['n'] = 1500 if src.bool(0.3) else 40       # long enough for numpy to wrap or shorten
        d['num_points'] = 1
        sim.reach('long_genome')
    cls = src.pick([Individual, RobustIndividual, DistributedIndividual])
    problem = gen.problem(d)
    seed = src.seed32()
    fail_at = set()
    if cls is not Individual and d['sel'] < 5 and src.bool(0.5):
        total = d['pop'] + d['offspring'] * d['gens'] * 2
        fail_at = {src.draw(total) for _ in range(src.int(1, 6))}
        sim.reach('failed_evaluations')
    twice = src.bool(0.25)           # evaluated, probed, changed again, evaluated again
    n_probes = src.int(1, 3)
    specs = [draw_probe(sim, src, d, twice) for _ in range(n_probes)]
    if any(s['kind'] in PLOTS for s in specs):
        d['infinite'] = False
        problem = gen.problem(d)
    faulty = src.bool(0.35)
    sim.event(f'{sorted(d.items())} {[s["kind"] + str(s["place"]) for s in specs]} {twice} {faulty}')
    if n_probes > 1:
        sim.nontrivial = True

    def go(with_probes):
        arg, ctx = W.fresh_context(Tame())
        random.seed(seed)
        np.random.seed(seed)
        counter = [0]
        led = W.Ledger(sim)
        real = problem.evaluate

        class P(W.SimProblem):
            def evaluate(self, phenome, *a, **k):
                counter[0] += 1
                if counter[0] - 1 in fail_at:
                    raise ValueError('simulated')
                return super().evaluate(phenome, *a, **k)
        prob = P(maximize=problem.maximize, mode=problem.mode)
        breed = gen.breeding(d)
        parts = {0: [], 1: [], 2: []}
        live = []
        if with_probes:
            for s in specs:
                o = Tapped(sim, src, s, ctx, prob, faulty)
                live.append(o)
                parts[s['place']].append(o)
        pipeline = list(breed)
        # place 0: lists and iterators of evaluated individuals before breeding;
        # place 1: evaluated offspring that change again; place 2: the end
        pipeline = parts[0] + pipeline + [ops.evaluate]
        if twice:
            pipeline += [ops.pool(size=d['offspring'])] + parts[1] + \
                [ops.naive_cyclic_selection, gen.mutator(d), ops.evaluate]
        pipeline += [o for o in parts[2] if o.s['kind'].endswith('iter')]
        pipeline += [ops.pool(size=d['offspring'])]
        pipeline += [o for o in parts[2] if not o.s['kind'].endswith('iter')]
        final = generational_ea(max_generations=d['gens'], pop_size=d['pop'], problem=prob,
                                representation=gen.representation(d, cls), pipeline=pipeline,
                                k_elites=d['k'])
        return final, live, ctx
    plain, _, ctx0 = go(False)
    want = gen.digest(plain)
    state0 = {k: v for k, v in ctx0['leap'].items() if k != 'distrib'}
    rng0 = (random.getstate(), np.random.get_state()[1].tolist())
    numpy_default(sim, 'after a run without probes')
    Tapped.raised = None
    try:
        final, live, ctx = go(True)
    except (Exception, Crash) as e:
        sim.check(Tapped.raised is not None and (e is Tapped.raised or e.__cause__ is Tapped.raised
                  or e.__context__ is Tapped.raised or isinstance(e, type(Tapped.raised))),
                  f'unexpected-exception {type(e).__name__} in probe', repr(e))
        numpy_default(sim, f'after {type(e).__name__} in a probe')
        sim.sample = dict(plan=d, probes=[s['kind'] for s in specs], error=repr(e))
        return
    sim.check(Tapped.raised is None, 'error-hidden', f'{Tapped.raised!r} was raised to a probe and the run went on')
    numpy_default(sim, 'after the run')
    # comparing two failed individuals flips a (documented) coin, so a probe that
    # looks for the best may then shift the random numbers of the run
    sim.check(fail_at or gen.digest(final) == want, 'probe-changes-run',
              f'the run with probes {[s["kind"] for s in specs]} ends differently')
    sim.check(fail_at or (random.getstate(), np.random.get_state()[1].tolist()) == rng0, 'probe-consumes-randomness',
              f'probes {[s["kind"] for s in specs]}')
    sim.check({k: v for k, v in ctx['leap'].items() if k != 'distrib'} == state0, 'probe-changes-state',
              f'{ctx["leap"]} instead of {state0}')
    for o in live:
        o.judge()
    sim.sample = dict(plan=d, probes=[s['kind'] for s in specs], faults=dict(sim.faults))


DIVERSITY = dict(pairwise=probe.pairwise_squared_distance_metric,
                 variances=probe.sum_of_variances_metric, fixated=probe.num_fixated_metric)


def segments(sim, src):
    """What is remembered of individuals with segmented genomes that change in place afterwards."""
    ctx = {'leap': {'generation': 0}}
    prob = W.SimProblem(maximize=src.bool(0.5))
    files = [io.StringIO() for _ in range(3)]
    bsf = probe.BestSoFarProbe(stream=files[0], context=ctx)
    bsf_iter = probe.BestSoFarIterProbe(stream=files[1], context=ctx)
    as_list = src.bool(0.7)
    attr = probe.AttributesCSVProbe(stream=files[2], do_fitness=True, do_genome=True, do_dataframe=True,
                                    numpy_as_list=as_list, context=ctx)
    pop = []
    for _ in range(src.int(1, 4)):
        g = [np.array([src.draw(9) for _ in range(src.int(1, 3))]) for _ in range(src.int(1, 3))]
        pop.append(Individual(g, problem=prob))
    best, ok, rows = None, [], []
    for t in range(src.int(1, 6)):
        ctx['leap']['generation'] = t
        for i in pop:
            i.fitness = float(src.draw(12))
        sim.event(f'{t} {[(W.freeze(i.genome), i.fitness) for i in pop]}')
        for i in pop:
            rows.append((i.fitness, [list(map(int, x)) for x in i.genome], str(i.genome)))
            if best is None or key(prob, i.fitness) > key(prob, best):
                best, ok = i.fitness, []
            if i.fitness == best:
                ok.append(W.freeze(i.genome))
        bsf(pop)
        list(itertools.islice(bsf_iter(iter(pop)), len(pop)))
        attr(pop)
        for i in pop:                # changed in place, one segment or all of it
            if src.bool(0.7):
                s = src.pick(i.genome)
                s[src.draw(len(s))] += 1
                if src.bool(0.2):
                    i.genome.append(np.array([3]))
        for p in (bsf, bsf_iter):
            sim.check(p.bsf.fitness == best and W.freeze(p.bsf.genome) in ok, 'wrong-best',
                      f'best so far is {W.freeze(p.bsf.genome)} with {p.bsf.fitness}; {ok} had {best}')
    sim.reach('segments')
    got = list(csv.DictReader(io.StringIO(files[2].getvalue()), skipinitialspace=True))
    sim.check(len(got) == len(rows) and all(float(a['fitness']) == f for a, (f, *_) in zip(got, rows)),
              'wrong-value', f'{len(got)} rows: {got}, should be {rows}')
    for a, (_, g, text) in zip(got, rows):
        text = str(g) if as_list else text
        sim.check(a['genome'].split() == text.split(), 'wrong-value', f'genome {a["genome"]!r}, should be {text!r}')
    df = attr.dataframe
    sim.check(len(df) == len(rows) and all(f == w and [list(map(int, x)) for x in g] == h for f, g, (w, h, _) in
                                           zip(df['fitness'], df['genome'], rows)), 'wrong-dataframe',
              f'{df.to_dict("records")}, should be {rows}')
    numpy_default(sim, 'after segments')
    sim.nontrivial = True
    sim.sample = dict(mode='segments', rows=len(rows))


def by_hand(sim, src):
    """Probes with a run state of their own, called outside of any run: the generation they
    are told is the one they record, whatever the default run state says."""
    sim.reach('by_hand')
    d = gen.draw(src, pop=(1, 6), gens=(0, 6))
    d['infinite'] = False
    problem = gen.problem(d)
    arg, shared = W.fresh_context(Tame())
    shared['leap']['generation'] = src.pick([0, 3, 1000])
    ctx = {'leap': {'generation': 0}}
    specs = [draw_probe(sim, src, d, False) for _ in range(src.int(1, 3))]
    faulty = src.bool(0.3)
    Tapped.raised = None
    live = [Tapped(sim, src, s, ctx, problem, faulty, own=True) for s in specs]
    make = gen.representation(d, Individual)
    g = src.pick([0, 0, 2])
    for _ in range(src.size(1, 5, 20)):
        ctx['leap']['generation'] = g
        g += src.pick([1, 1, 1, 0, 2])
        pop = make.create_population(src.size(1, 5, 30), problem=problem)
        for i in pop:
            i.fitness = float(src.draw(40)) / 4 - 5
        sim.event(f'{ctx["leap"]["generation"]} {[i.fitness for i in pop]}')
        for o in live:
            try:
                if o.s['kind'].endswith('iter'):
                    list(itertools.islice(o(iter(pop)), len(pop)))
                else:
                    o(pop)
            except (Exception, Crash) as e:
                sim.check(Tapped.raised is not None and isinstance(e, type(Tapped.raised)),
                          f'unexpected-exception {type(e).__name__} in probe', repr(e))
                sim.sample = dict(probes=[s['kind'] for s in specs], error=repr(e))
                return
            sim.check(Tapped.raised is None, 'error-hidden', repr(Tapped.raised))
        if src.bool(0.3):                # what passed goes its own way
            for i in pop:
                i.genome[:] = i.genome[::-1].copy()
                i.fitness = -i.fitness
    for o in live:
        o.judge()
    sim.nontrivial = True
    sim.sample = dict(mode='by hand', probes=[s['kind'] for s in specs])


def diversity(name, inds):
    """The metrics by their definitions, one pair or gene at a time."""
    g = [np.asarray(i[3], float) for i in inds]
    if name == 'pairwise':
        return sum(float(((a - b) ** 2).sum()) for a in g for b in g)
    if name == 'variances':
        return sum(float(np.mean([(a[j] - np.mean([b[j] for b in g])) ** 2 for a in g]))
                   for j in range(len(g[0])))
    if name == 'fixated':
        return sum(bool(np.var([a[j] for a in g]) < 1e-8) for j in range(len(g[0])))
    return weighted([i[0] for i in inds])


def weighted(fs):
    """A metric for which the order matters."""
    return float(sum((j + 1) * float(f) for j, f in enumerate(fs)))


def pareto_plot(sim, src):
    """The plot of the first two objectives, fed by generations or by births."""
    sim.nontrivial = True
    sim.reach('pareto_plot')
    ctx = {'leap': {}}
    what = src.pick(['generation', 'births'])
    step = src.int(1, 3)
    Tapped.draw_p = src.pick([0.0, 0.0, 0.2])
    Tapped.sim_, Tapped.src_, Tapped.raised = sim, src, None
    kw = {} if src.bool(0.3) else dict(ax=plt.figure().add_subplot())
    armed, Tapped.draw_p = Tapped.draw_p, 0.0
    p = ParetoPlotProbe2D(step=step, context=ctx, **kw)
    Tapped.draw_p = armed
    m = src.int(2, 3)
    shown = None
    for t in range(src.int(1, 7)):
        ctx['leap'][what] = t + src.draw(2)
        pop = []
        for _ in range(src.int(1, 6)):
            i = Individual(np.array([src.draw(5)]))
            i.fitness = np.array([src.draw(9) / 2 - 1 for _ in range(m)])
            pop.append(i)
        before = [(i, W.snap(i)) for i in pop]
        sim.event(f'{what} {ctx["leap"][what]} of {step}: {[list(i.fitness) for i in pop]}')
        try:
            out = p(pop)
        except Exception as e:
            sim.check(e is Tapped.raised, f'unexpected-exception {type(e).__name__} in probe', repr(e))
            return
        sim.check(Tapped.raised is None, 'error-hidden', repr(Tapped.raised))
        sim.check([id(i) for i in out] == [id(i) for i, _ in before] and
                  all(np.array_equal(i.fitness, s['fitness']) for i, s in before), 'probe-changes-population', 'pareto')
        if ctx['leap'][what] % step == 0:
            shown = [tuple(i.fitness[:2]) for i in pop]
        if shown is not None:
            got = [tuple(float(v) for v in o) for o in p.ax.collections[-1].get_offsets()]
            sim.check(got == shown, 'wrong-plot', f'pareto: shows {got}, last due population {shown}')
    sim.sample = dict(mode='pareto plot', by=what, step=step)


class Box:
    def __init__(self, n):
        self.shape, self.low, self.high = (n,), np.zeros(n), np.ones(n)


class Discrete:
    shape, n = (), 3


def program_plot(sim, src):
    """The rule boxes, or the graph, of the best individual of the last due generation."""
    sim.nontrivial = True
    kind = src.pick(['rules_plot', 'graph_plot'])
    sim.reach(kind)
    ctx = {'leap': {}}
    modulo = src.int(1, 3)
    kw = {} if src.bool(0.5) else dict(ax=plt.figure().add_subplot())
    kw.update(modulo=modulo, context=ctx)
    Tapped.sim_, Tapped.src_, Tapped.raised, Tapped.draw_p = sim, src, None, 0.0
    n = src.int(2, 4)
    dims, weights = (0, 1), False
    if kind == 'rules_plot':
        dec = PittRulesDecoder(input_space=Box(n), output_space=Discrete())
        if src.bool(0.5):
            dims = kw['plot_dimensions'] = (src.draw(n), src.draw(n))
        p = PlotPittRuleProbe(dec, **kw)
    elif src.bool(0.5):
        dec = CGPDecoder([NAND()], 2, 1, 2, 2, 2, prune=src.bool(0.5))
        p = GraphPhenotypeProbe(**kw)
    else:
        dec = SimpleNeuralNetworkDecoder((n, 2))
        weights = src.bool(0.7)
        if weights:
            kw.update(weights=True, weight_multiplier=src.pick([1.0, 2.5]))
        p = GraphPhenotypeProbe(**kw)
    Tapped.draw_p = src.pick([0.0, 0.0, 0.2])
    prob = W.SimProblem(maximize=src.bool(0.5))

    def genome():
        if kind == 'rules_plot':
            return [np.array([src.draw(9) / 8 for _ in range(2 * n)] + [src.draw(3)]) for _ in range(src.size(1, 3, 12))]
        if isinstance(dec, CGPDecoder):
            return np.array([src.int(a, b) for a, b in dec.bounds()])
        return np.array([src.draw(50) / 10 for _ in range((n + 1) * 2)])
    best = None
    for t in range(src.int(1, 6)):
        g = ctx['leap']['generation'] = t + src.draw(2)
        pop = []
        for f in src.shuffle(range(src.int(1, 5))):
            i = Individual(genome(), decoder=dec, problem=prob)
            i.fitness = float(f)
            pop.append(i)
        before = [(i, repr(i.genome), i.fitness) for i in pop]
        sim.event(f'{kind} {g} of {modulo}: {[i.fitness for i in pop]}')
        try:
            out = p(pop)
        except Exception as e:
            sim.check(e is Tapped.raised, f'unexpected-exception {type(e).__name__} in probe', repr(e))
            return
        sim.check(Tapped.raised is None, 'error-hidden', repr(Tapped.raised))
        sim.check(out is not None and [id(i) for i in out] == [id(i) for i, *_ in before] and
                  all(repr(i.genome) == r and i.fitness == f for i, r, f in before),
                  'probe-changes-population', f'{kind} returns {out!r}')
        if g % modulo == 0:
            best = max(pop, key=lambda i: key(prob, i.fitness))
        if best is None:
            sim.check(not p.ax.patches, 'wrong-plot', f'{kind}: something is shown before any generation was due')
        elif kind == 'rules_plot':
            got = sorted((round(b.get_x(), 6), round(b.get_y(), 6), round(b.get_width(), 6),
                          round(b.get_height(), 6)) for b in p.ax.patches)
            want = []
            for r in best.genome:
                box = [(r[2 * d], r[2 * d + 1]) for d in dims]
                box = [(0.0, 1.0) if lo > hi else (lo, hi) for lo, hi in box]
                want.append((round(box[0][0], 6), round(box[1][0], 6), round(box[0][1] - box[0][0], 6),
                             round(box[1][1] - box[1][0], 6)))
            sim.check(got == sorted(want), 'wrong-plot', f'{kind}: shows {got}, the best rules are {sorted(want)}')
        else:
            graph = best.decode().graph
            names = sorted(x.get_text() for x in p.ax.texts)
            sim.check(names == sorted(str(x) for x in graph.nodes), 'wrong-plot', f'{kind}: shows nodes {names}')
            arrows = [a for a in p.ax.patches]
            sim.check(len(arrows) == graph.number_of_edges(), 'wrong-plot',
                      f'{kind}: {len(arrows)} edges are shown, the best has {graph.number_of_edges()}')
            if weights:
                got = sorted(round(float(a.get_linewidth()), 6) for a in arrows)
                want = sorted(round(float(w * kw['weight_multiplier']), 6) for w in best.genome)
                sim.check(got == want, 'wrong-plot', f'{kind}: widths {got}, the best has {want}')
    sim.sample = dict(mode=kind, modulo=modulo, dims=dims)


class Tame:
    """Draws nothing: always the shared context."""

    def bool(self, p):
        return False


def draw_probe(sim, src, d, twice):
    kind = src.pick(['bsf', 'stats', 'attr', 'print', 'bsf_iter', 'print_iter'])
    if src.bool(0.2):
        kind = src.pick(PLOTS[:4] if d['kind'] == 'binary' else PLOTS)
    place = 2 if kind.endswith('iter') else src.pick([2, 2, 0, 1 if twice else 2])
    s = dict(kind=kind, place=place, header=src.bool(0.7), defaults=src.bool(0.5))
    if place == 1:
        sim.reach('changed_after_probe')
    if kind.endswith('iter'):
        sim.reach('iterator_probe')
    if kind == 'stats':
        s.update(modulo=src.int(1, 3), job=src.pick([None, 3, 0]), notes=src.pick([0, 0, 1, 3]),
                 extra=src.bool(0.4), comment=src.pick([0, 0, 0, 2, 5]), as_list=src.bool(0.8))
        if s['modulo'] > 1:
            sim.reach('modulo')
    if kind in PLOTS:
        sim.reach('plot')
        s.update(modulo=src.int(1, 3), ax=src.bool(0.5), xlim=src.pick([None, (0.0, 1.0), (-20.0, 30.0)]),
                 ylim=src.pick([None, (0.0, 1.0), (-20.0, 30.0)]), lines=src.int(0, 2), x=src.bool(0.3), n_metrics=src.int(1, 3), landscape=src.bool(0.3))
    if kind == 'stats' and not s['extra'] and src.bool(0.3):
        s['extra'] = src.pick(['pairwise', 'variances', 'fixated'])
        sim.reach('diversity')
    if kind == 'attr':
        sim.reach('attributes')
        s.update(frame=src.bool(0.5), best=src.bool(0.3), fitness=src.bool(0.8), genome=src.bool(0.6),
                 attrs=src.bool(0.4), missing=src.bool(0.05), job=src.pick([None, 3, 0]),
                 notes=src.pick([0, 0, 1, 3]), extra=src.bool(0.4), as_list=src.bool(0.8))
        if s['frame']:
            sim.reach('dataframe')
        s['stream'] = src.bool(0.7) or not s['frame']
        if s['best']:
            sim.reach('best_only')
    return s


class Tapped(ops.Operator):
    """One real probe, with what it saw."""
    raised = None

    def __init__(self, sim, src, s, ctx, problem, faulty, own=False):
        self.sim, self.src, self.s, self.ctx, self.problem = sim, src, s, ctx, problem
        self.file = SimFile(sim)
        self.seen = []               # (generation, [(fitness, genome, uuid)]) per call
        self.calls = 0
        metric_p = 0.0
        if faulty:
            k = src.pick(['metric', 'draw'] if s['kind'] in PLOTS else ['write', 'full', 'crash', 'metric'])
            if k == 'draw':
                self.armed = {}
                Tapped.draw_p = src.pick([0.3, 0.9])
            elif k == 'write':
                self.armed = {'write': src.pick([0.05, 0.3])}
            elif k == 'full':
                self.armed = {}
                self.file.capacity = src.int(200, 3000)
            elif k == 'crash':
                self.armed = {}
                self.file.crash_at = src.int(5, 80)
            else:
                self.armed = {}
                metric_p = src.pick([0.1, 0.4])
        else:
            self.armed = {}

        def metric(x):
            if metric_p and src.bool(metric_p):
                sim.fault('metric_error')
                sim.reach('metric_error')
                Tapped.raised = src.pick(ERRORS)('simulated')
                raise Tapped.raised
            return weighted([i.fitness for i in x]) if isinstance(x, list) else len(x)
        kw = dict(stream=self.file)
        self.own = own
        if own or src.bool(0.3):
            kw['context'] = ctx

        def given(**opts):
            """what differs from the documented defaults, or all of it"""
            std = dict(header=True, modulo=1, job=None, notes=None, extra_metrics=None, comment=None,
                       numpy_as_list=True, attributes=(), do_dataframe=False, best_only=False,
                       do_fitness=False, do_genome=False)
            return {k: v for k, v in opts.items() if not s['defaults'] or v != std[k]}
        self.results = []

        def row_metric(x):
            metric(x)
            self.results.append(src.draw(1000))
            return self.results[-1]
        k = s['kind']
        if k in ('bsf', 'bsf_iter'):
            self.p = (probe.BestSoFarProbe if k == 'bsf' else probe.BestSoFarIterProbe)(
                **given(header=s['header']), **kw)
        elif k == 'stats':
            self.p = probe.FitnessStatsCSVProbe(**given(
                header=s['header'], modulo=s['modulo'], job=s['job'], notes=notes(s) or None,
                extra_metrics={'count': DIVERSITY.get(s['extra'], metric)} if s['extra'] else None,
                comment='\n'.join(COMMENT[:s['comment']]) or None,
                numpy_as_list=s['as_list']), **kw)
        elif k == 'attr':
            attrs = ['uuid'] if s['attrs'] else []
            if s['missing']:
                attrs.append('no_such_thing')
            self.attrs = attrs
            if not s['stream']:
                kw['stream'] = None
            self.p = probe.AttributesCSVProbe(**given(
                attributes=attrs, do_dataframe=s['frame'], best_only=s['best'], header=s['header'],
                do_fitness=s['fitness'], do_genome=s['genome'], job=s['job'], notes=notes(s) or None,
                extra_metrics={'count': row_metric} if s['extra'] else None,
                numpy_as_list=s['as_list']), **kw)
        elif k in PLOTS:
            self.plot(metric)
        elif k == 'print':
            self.p = probe.print_probe(probe=lambda pop: len(pop), prefix='n=', stream=self.file)
        else:
            self.p = probe.print_individual(prefix='>', stream=self.file)
        if k in ('bsf', 'bsf_iter', 'stats', 'attr') and self.file.capacity and \
                self.file.capacity < len(self.file.everything()) + 50:
            self.file.capacity += len(self.file.everything()) + 50
        self.file.faults = self.armed

    # -- plots -----------------------------------------------------------
    draw_p = 0.0
    sim_ = src_ = None

    @staticmethod
    def drawing(canvas):
        if Tapped.draw_p and Tapped.src_.bool(Tapped.draw_p):
            Tapped.sim_.fault('draw_error')
            Tapped.sim_.reach('draw_error')
            Tapped.raised = Tapped.src_.pick(ERRORS)('simulated: the display is gone')
            raise Tapped.raised

    def plot(self, metric):
        s, ctx = self.s, self.ctx
        Tapped.sim_, Tapped.src_ = self.sim, self.src
        armed, Tapped.draw_p = Tapped.draw_p, 0.0
        kw = dict(modulo=s['modulo']) if s['modulo'] > 1 or not s['defaults'] else {}
        if self.own or self.src.bool(0.2):
            kw['context'] = ctx
        self.ax = None
        self.others = []                 # what else is in the same axes
        if s['ax']:
            self.ax = kw['ax'] = plt.figure().add_subplot()
            if s['kind'] in ('metrics', 'fitness_plot'):
                for j in range(s['lines']):
                    self.others.append(self.ax.plot([-1, j], [2, 3 + j])[0])
            plt.figure()                 # another figure is the current one
        if s['kind'] in ('metrics', 'fitness_plot'):
            self.x = []
            if s['x']:
                def axis():
                    self.x.append(100.0 + 3 * ctx['leap']['generation'])
                    return self.x[-1]
                kw['x_axis_value'] = axis
            kw.update(xlim=s['xlim'], ylim=s['ylim'])
        elif s['kind'] in ('cartesian', 'sum_plot') and not s['landscape']:
            kw.update({a: s[a] for a in ('xlim', 'ylim') if s[a] is not None})
        if s['kind'] == 'metrics':
            self.names = ['pairwise', 'variances', 'fixated', 'count'][-s['n_metrics']:]
            self.p = probe.PopulationMetricsPlotProbe(
                metrics=[DIVERSITY.get(m, metric) for m in self.names], **kw)
            self.sim.reach('diversity')
        elif s['kind'] == 'fitness_plot':
            self.p = probe.FitnessPlotProbe(**kw)
        elif s['kind'] == 'cartesian':
            if s['landscape']:
                from leap_ec.real_rep.problems import SpheroidProblem
                kw.update(contours=SpheroidProblem(), granularity=2.0)
            self.p = probe.CartesianPhenotypePlotProbe(**kw)
        elif s['kind'] == 'sum_plot':
            if s['landscape']:
                from leap_ec.binary_rep.problems import MaxOnes
                kw.update(problem=MaxOnes(), xlim=(0, 5), ylim=(0, 5))
            self.p = probe.SumPhenotypePlotProbe(**kw)
        elif s['kind'] == 'hist':
            self.p = probe.HistPhenotypePlotProbe(**kw)
        else:
            self.p = probe.HeatMapPhenotypeProbe(**kw)
        Tapped.draw_p = armed

    def shown(self):
        """What the plot shows is the population of the last generation that was due."""
        sim, s = self.sim, self.s
        due = [(g, inds) for g, inds in self.seen if g % s['modulo'] == 0]
        ax, k = self.ax or self.p.ax, s['kind']
        if k in ('metrics', 'fitness_plot'):
            xs = [100.0 + 3 * g for g, _ in due] if s['x'] else [float(g) for g, _ in due]
            for j, line in enumerate(self.others):
                sim.check(list(line.get_xdata()) == [-1, j] and list(line.get_ydata()) == [2, 3 + j], 'wrong-plot',
                          f'{k}: drew over a line that was there before')
            lines = [ln for ln in ax.lines if ln not in self.others]
            want = self.names if k == 'metrics' else ['best']
            sim.check(len(lines) >= len(want), 'wrong-plot', f'{len(lines)} lines for {len(want)} metrics')
            for m, line in zip(want, lines):
                sim.check([float(v) for v in line.get_xdata()] == xs, 'wrong-plot',
                          f'{k}: x is {list(line.get_xdata())}, should be {xs}')
                ys = [max((f for f, *_ in inds), key=lambda f: key(self.problem, f)) if m == 'best'
                      else diversity(m, inds) for _, inds in due]
                got = list(line.get_ydata())
                sim.check(len(got) == len(ys) and all(equal(a, b) for a, b in zip(got, ys)), 'wrong-plot',
                          f'{k} {m}: y is {got}, should be {ys}')
                for v, (lo, hi), asked in ((xs, ax.get_xlim(), s['xlim']), (got, ax.get_ylim(), s['ylim'])):
                    if due and all(map(np.isfinite, itertools.chain(xs, *(ln.get_ydata() for ln in lines)))):
                        v = list(v) + list(asked or [])
                        sim.check(lo <= min(v) and max(v) <= hi, 'wrong-plot',
                                  f'{k}: {v} does not lie in the limits {lo, hi}')
        elif not due:
            return
        elif k in ('cartesian', 'sum_plot'):
            _, inds = due[-1]
            pts = [(float(a[5][0]), float(a[5][1])) if k == 'cartesian' else
                   (float(np.sum(a[5])), float(a[0])) for a in inds]
            got = [tuple(float(v) for v in np.ma.filled(np.ma.asarray(o, float), np.nan))
                   for o in ax.collections[-1].get_offsets()]
            ok = len(got) == len(pts) and all(equal(a, b) for g, w in zip(got, pts) for a, b in zip(g, w))
            sim.check(ok, 'wrong-plot', f'{k}: shows {got}, the population is {pts}')
            for v, (lo, hi), asked in zip(zip(*pts), (ax.get_xlim(), ax.get_ylim()), (s['xlim'], s['ylim'])):
                if not any(np.isnan(v)):
                    v = list(v) + list(asked if asked and not s['landscape'] else [])
                    sim.check(lo <= min(v) and max(v) <= hi, 'wrong-plot',
                              f'{k}: {v} does not lie in the limits {lo, hi}')
        else:
            _, inds = due[-1]
            n = sum(np.size(a[5]) for a in inds)
            got = sum(p.get_height() for p in ax.patches)
            sim.check(got == n, 'wrong-plot', f'{k}: the bars show {got} values instead of {n}')
            ref = matplotlib.figure.Figure().add_subplot()
            ref.hist([a[5] for a in inds])
            got, want = (sorted((round(float(b.get_x()), 6), float(b.get_height())) for b in x.patches) for x in (ax, ref))
            sim.check(got == want, 'wrong-plot', f'{k}: the bars are {got}, should be {want}')

    def note(self, inds):
        self.seen.append((self.ctx['leap']['generation'],
                          [(i.fitness, W.freeze(i.genome), str(i.uuid), np.array(i.genome, copy=True),
                            str(i), np.array(i.decode(), copy=True)) for i in inds]))

    def __call__(self, arg):
        return self.iterate(arg) if self.s['kind'].endswith('iter') else self.listing(arg)

    def after_error(self, e):
        if isinstance(e, Crash):
            self.sim.reach('interrupted')
            Tapped.raised = e
        elif self.file.raised and e is self.file.raised[-1]:
            self.sim.reach('stream_error')
            Tapped.raised = e
        elif self.s['kind'] == 'attr' and self.s['missing'] and isinstance(e, ValueError):
            self.sim.reach('missing_attribute')
            Tapped.raised = e
        numpy_default(self.sim, f'right after a probe raised {type(e).__name__}')

    def listing(self, pop):
        before = [(i, W.snap(i), dict(i.__dict__)) for i in pop]
        self.note(pop)
        n = len(self.file.raised)
        try:
            out = self.p(pop)
        except BaseException as e:
            self.after_error(e)
            raise
        self.sim.check(len(self.file.raised) == n, 'error-hidden', f'{self.s["kind"]}: a write error was swallowed')
        self.sim.check([id(i) for i in out] == [id(i) for i, _, _ in before], 'probe-changes-population',
                       f'{self.s["kind"]} passed on other individuals')
        for i, s, att in before:
            self.sim.check(W.freeze(i.genome) == s['genome'] and W.same_number(i.fitness, s['fitness'])
                           and i.uuid == s['uuid'] and i.__dict__.keys() == att.keys(),
                           'probe-changes-individual', self.s['kind'])
        numpy_default(self.sim, f'after {self.s["kind"]}')
        if self.s['kind'] in PLOTS:
            self.shown()
        return out

    def iterate(self, it):
        fed = []

        def feed():
            for i in it:
                self.note([i])
                fed.append((i, W.snap(i)))
                yield i
        g = self.p(feed())
        while True:
            try:
                x = next(g)
            except StopIteration:
                return
            except BaseException as e:
                self.after_error(e)
                raise
            i, s = fed[-1]
            self.sim.check(x is i, 'probe-changes-population', 'an iterator probe passed on another individual')
            self.sim.check(len(fed) == len(self.seen) or True, '', '')
            self.sim.check(W.freeze(i.genome) == s['genome'] and W.same_number(i.fitness, s['fitness']),
                           'probe-changes-individual', self.s['kind'])
            yield x

    # -- what was recorded ------------------------------------------------
    def judge(self):
        sim, s, text = self.sim, self.s, self.file.everything()
        k = s['kind']
        if k in PLOTS:
            return
        if k == 'print':
            want = ''.join(f'n={len(inds)}' for _, inds in self.seen)
            sim.check(text == want, 'wrong-output', f'{text!r} instead of {want!r}')
            return
        if k == 'print_iter':
            want = [f'>{inds[0][4]}' for _, inds in self.seen]
            sim.check(text == ''.join(w + '\n' for w in want), 'wrong-output',
                      f'{text[-300:]!r} does not show the individuals that passed')
            return
        if k in ('bsf', 'bsf_iter', 'stats'):
            lines = [x for x in text.splitlines() if x]
            if k == 'stats' and s['header'] and s['comment']:
                n = s['comment']
                sim.check([x.strip() for x in lines[:n]] == [f'# {c}'.strip() for c in COMMENT[:n]], 'wrong-output',
                          f'{lines[:n]}')
                lines = lines[n:]
            rows = [[c.strip() for c in r] for r in csv.reader(lines)]
            if k == 'stats':
                cols = (['job'] if s['job'] is not None else []) + list(notes(s)) + \
                    ['step', 'bsf', 'mean_fitness', 'std_fitness', 'min_fitness', 'max_fitness'] + \
                    (['count'] if s['extra'] else [])
            else:
                cols = ['step', 'bsf']
            if s['header']:
                sim.check(rows[:1] == [cols], 'wrong-header', f'{rows[:1]} instead of {cols}')
                rows = rows[1:]
            best = None
            want = []
            for g, inds in self.seen:
                top = max((f for f, *_ in inds), key=lambda f: key(self.problem, f))
                if best is None or key(self.problem, top) > key(self.problem, best):
                    if best is not None:
                        sim.reach('bsf_improved')
                    best = top
                else:
                    sim.reach('bsf_kept')
                if k == 'stats' and g % s['modulo']:
                    continue
                w = dict(step=g, bsf=best)
                if k == 'stats':
                    fs = np.array([float(f) for f, *_ in inds])
                    w.update(mean_fitness=fs.mean(), std_fitness=fs.std(), min_fitness=fs.min(),
                             max_fitness=fs.max())
                    if s['job'] is not None:
                        w['job'] = s['job']
                    if s['extra']:
                        w['count'] = diversity(s['extra'], inds)
                want.append(w)
            sim.check(len(rows) == len(want), 'wrong-number-of-rows', f'{k}: {len(rows)} instead of {len(want)}')
            for r, w in zip(rows, want):
                sim.check(len(r) == len(cols), 'wrong-row', f'{k}: {r} for columns {cols}')
                for c, t in zip(cols, r):
                    if c in NOTES:
                        sim.check(t == NOTES[c], 'wrong-value', f'{k}: {c} is {t}')
                    else:
                        sim.check(equal(t, w[c]), 'wrong-value', f'{k}: {c} is {t}, should be {w[c]} ({r})')
            if best is not None and k != 'stats':
                sim.check(W.same_number(self.p.bsf.fitness, best), 'wrong-best',
                          f'best so far {self.p.bsf.fitness}, should be {best}')
                ok = [g for _, inds in self.seen for f, g, *_ in inds if W.same_number(f, best)]
                sim.check(W.freeze(self.p.bsf.genome) in ok, 'wrong-best',
                          f'the best so far has a genome that never had fitness {best}')
            return
        # -- attributes --------------------------------------------------
        want = []
        for g, inds in self.seen:
            if s['best']:
                top = max((key(self.problem, f) for f, *_ in inds))
                want.append((g, [x for x in inds if key(self.problem, x[0]) == top]))
            else:
                want += [(g, [x]) for x in inds]
        cols = (['job'] if s['job'] is not None else []) + list(notes(s)) + ['step'] + \
            self.attrs + (['fitness'] if s['fitness'] else []) + (['genome'] if s['genome'] else []) + \
            (['count'] if s['extra'] else [])

        sim.check(not s['missing'] or not want, 'error-hidden', 'an attribute that is not there was accepted')
        sim.check(not s['extra'] or len(self.results) == len(want), 'wrong-number-of-rows',
                  f'{len(self.results)} metrics for {len(want)} rows')

        def matches(get, g, opts, numeric_genome, j):
            if not equal(get('step'), g) or (s['job'] is not None and not equal(get('job'), s['job'])) or \
                    any(get(c) != v for c, v in notes(s).items()) or \
                    (s['extra'] and not equal(get('count'), self.results[j])):
                return False
            for f, fz, u, arr, *_ in opts:
                if s['attrs'] and str(get('uuid')) != u:
                    continue
                if s['fitness'] and not equal(get('fitness'), f):
                    continue
                if s['genome'] and not numeric_genome(get('genome'), arr):
                    continue
                return True
            return False

        def text_genome(t, arr):
            if not s['as_list']:
                return ' '.join(t.split()) == ' '.join(str(arr).split())
            try:
                return np.allclose(np.array([{'False': 0.0, 'True': 1.0}.get(x.strip()) if x.strip() in ('False', 'True')
                                             else float(x) for x in t.strip('[]').split(',')]), arr)
            except ValueError:
                return False
        if s['stream']:
            rows = list(csv.reader(io.StringIO(text)))
            if s['header']:
                sim.check(rows[:1] == [cols], 'wrong-header', f'{rows[:1]} instead of {cols}')
                rows = rows[1:]
            sim.check(len(rows) == len(want), 'wrong-number-of-rows', f'{len(rows)} instead of {len(want)}')
            for j, (r, (g, opts)) in enumerate(zip(rows, want)):
                sim.check(len(r) == len(cols), 'wrong-row', f'{r} for columns {cols}')
                rd = dict(zip(cols, r))
                sim.check(matches(rd.get, g, opts, text_genome, j), 'wrong-value',
                          f'row {str(rd)[:300]} for generation {g} {str([o[0] for o in opts])}')
        if s['frame']:
            df = self.p.dataframe
            sim.check(list(df.columns) == cols and len(df) == len(want), 'wrong-dataframe',
                      f'{list(df.columns)} x {len(df)}, expected {cols} x {len(want)}')
            for j, (g, opts) in enumerate(want):
                row = df.iloc[j]
                sim.check(matches(lambda c: row[c], g, opts,
                                  lambda v, arr: np.array_equal(np.asarray(v), arr), j),
                          'wrong-dataframe', f'row {j}: {str(dict(row))[:300]}, generation {g}')
