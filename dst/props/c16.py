"""C16: fitness from an external program is right or refused."""
import numpy as np

from .. import world as W
from ..process import Program
from ..cluster import Cluster
from ..steady import TappedClient, History

from leap_ec import ops
from leap_ec.distrib import synchronous
from leap_ec.distrib.individual import DistributedIndividual
from leap_ec.individual import Individual, RobustIndividual
from leap_ec.problem import ExternalProcessProblem, AverageFitnessProblem, FitnessOffsetProblem
from leap_ec.representation import Representation

RUNS = dict(quick=14000, thorough=120000)
RULE = ('one population evaluated by a simulated external program (one by one, in groups, '
        'averaged, or on the faulty simulated cluster) that fails to start, dies, writes torn, '
        'short, long or garbage output at drawn points; non-trivial: at least one fault, '
        'distinct by the hash of its event sequence')
REAL = W.SEAMS_REAL
STUB = ['the external program and subprocess.Popen (simulated, with fault points)'] + W.SEAMS_STUB[:2]
ASSUMPTIONS = ['the program does not print plausible but wrong numbers']
MUST_REACH = ['raised', 'all_right', 'contained', 'grouped', 'several_chunks', 'averaged', 'distributed',
              'torn_refused', 'noise', 'noisy_runs', 'printed_nan']


def run(sim, src):
    genomes = W.Genomes(src, kinds=('real', 'int', 'binary'))
    noise = src.pick([False, False, 'rows', 'runs'])
    unit = src.pick([1.0, 1.0, 1e-30, 1e30])
    prog = Program(sim, 0.0 if noise == 'runs' else src.pick([0.0, 0.15, 0.5]), src.int(1, 6), noise=noise,
                   unit=unit, nans=src.bool(0.15))
    led = W.Ledger(sim)
    args = src.pick([None, ['-a'], ['-a', 'b c']])
    inner = ExternalProcessProblem('/nowhere/simulated', maximize=src.bool(0.5),
                                   **({} if args is None else {'args': args}))
    reps = 1
    problem = inner
    wrap = src.pick(['none', 'none', 'average', 'offset'])
    offset = 0.0
    if wrap == 'average':
        reps = src.size(1, 4, 12)
        problem = AverageFitnessProblem(inner, reps)
        sim.reach('averaged')
    mode = src.pick(['multiple', 'single', 'grouped', 'robust', 'cluster'])
    if wrap == 'offset' and mode in ('single', 'robust', 'cluster'):
        offset = -12.5 * unit
        problem = FitnessOffsetProblem(inner, offset)
    cls = Individual if mode in ('multiple', 'single', 'grouped') else \
        src.pick([RobustIndividual, DistributedIndividual]) if mode == 'robust' else DistributedIndividual
    rep = Representation(initialize=genomes.init, decoder=W.SimDecoder(src.pick([1, 2])),
                         individual_cls=cls)
    pop = rep.create_population(src.size(1, 7, 40), problem)
    if src.bool(0.2):
        pop[-1].genome = np.array(pop[0].genome)          # twins
    mult = rep.decoder.mult
    phen = [np.asarray(i.genome, dtype=float) * mult for i in pop]
    batch = mode in ('multiple', 'grouped')
    if noise == 'rows' and not batch:
        # whether repetitions share a launch is not promised
        noise = prog.noise = False
    sim.event(f'{mode} {wrap} {reps} {len(pop)} {genomes.kind} {noise}')
    if noise and batch:
        sim.reach('noise')
    if noise == 'runs' and mode == 'cluster':
        prog.nans = False

    def same(a, b):
        return a == b or W.isnan(a) and W.isnan(b) or abs(a - b) <= 1e-9 * max(abs(a), abs(b))

    def expected(chunks):
        """fitness of each individual, by the launches that must have happened"""
        out = []
        for ch in chunks:
            count = {}
            for k in ch:
                vals = [prog.value(phen[k], count) if batch else prog.pure(phen[k]) for _ in range(reps)]
                out.append(float(np.mean(vals)) + offset)
        return out
    n = len(pop)
    error = None
    size = None
    if mode == 'grouped':
        size = src.pick([None, 1, 2, 3, 7])
        sim.reach('grouped')
    chunks = [list(range(n))] if mode == 'multiple' or size is None and mode == 'grouped' else \
        [list(range(a, min(n, a + size))) for a in range(0, n, size)] if mode == 'grouped' else \
        [[k] for k in range(n)]
    if mode == 'grouped' and len(chunks) > 1:
        sim.reach('several_chunks')
    want = expected(chunks)
    stale = [None] * n
    if mode != 'multiple' and src.bool(0.3):
        for i in pop:
            i.fitness = -9999.0
        stale = [-9999.0] * n
    try:
        if mode == 'multiple':
            got = problem.evaluate_multiple([np.array(i.decode()) for i in pop])
        elif mode == 'single':
            got = [i.evaluate() for i in pop]
            sim.check([i.fitness for i in pop] == got, 'fitness-not-stored', '')
        elif mode == 'grouped':
            op = ops.grouped_evaluate if size is None else ops.grouped_evaluate(max_individuals_per_chunk=size)
            res = op(pop)
            sim.check([id(i) for i in res] == [id(i) for i in pop], 'population-changed', '')
            got = [i.fitness for i in res]
        elif mode == 'robust':
            res = cls.evaluate_population(pop)
            got = [i.fitness for i in res]
        else:
            sim.reach('distributed')
            cl = Cluster(sim, workers=src.int(1, 3), faults=W.cluster_faults(src))
            res = synchronous.eval_population(pop, client=TappedClient(cl, History()))
            sim.check([i.uuid for i in res] == [i.uuid for i in pop], 'order-changed', '')
            pop = res
            got = [i.fitness for i in res]
    except Exception as e:
        if not any(f for _, _, f in prog.launched):
            raise
        error = e
        sim.check(mode in ('multiple', 'single', 'grouped'), 'not-contained',
                  f'{mode}: {type(e).__name__} escaped')
        sim.reach('raised')
    faults = [f for _, _, f in prog.launched if f]
    if noise == 'runs':
        # no launch fails: the values are those printed, in order, for any
        # way to distribute the repetitions over launches
        if mode == 'cluster':
            want = [None] * n
            sim.check(prog.nans or all(not W.isnan(g) for g in got), 'failure-invented', f'{got}')
        else:
            sim.check(len(prog.printed) == n * reps, 'wrong-number-of-repetitions',
                      f'{len(prog.printed)} values printed for {n} x {reps}')
            want = [float(np.mean(prog.printed[k * reps:(k + 1) * reps])) + offset for k in range(n)]
        sim.reach('noisy_runs')
    if error is not None:
        if 'torn' in faults:
            sim.reach('torn_refused')
        # nobody may have received a wrong number meanwhile
        for i, w, old in zip(pop, want, stale):
            sim.check(i.fitness is None or i.fitness == old or same(i.fitness, w), 'wrong-fitness',
                      f'evaluation raised, yet an individual has fitness {i.fitness} instead of {w}')
    else:
        sim.check(len(got) == n, 'wrong-number-of-fitnesses', f'{len(got)} for {n}')
        for k, (g, w) in enumerate(zip(got, want)):
            if w is not None and W.isnan(w) and W.isnan(g):
                sim.reach('printed_nan')
                continue
            if mode in ('robust', 'cluster') and W.isnan(g):
                sim.check(pop[k].is_viable is False and pop[k].exception is not None,
                          'failure-not-marked', f'fitness {g}, viable {pop[k].is_viable}')
                sim.reach('contained')
                continue
            sim.check(w is None or same(g, w), 'wrong-fitness',
                      f'individual {k} got {g}, the program says {w} (faults {faults})')
        if mode in ('multiple', 'single', 'grouped'):
            sim.check(len(faults) <= prog.neutral, 'failure-accepted', f'{faults[:1]}: fitnesses were accepted')
            sim.reach('all_right')
        elif mode == 'robust' and wrap != 'average':
            bad = sum(1 for i in pop if i.is_viable is False)
            sim.check(len(faults) - prog.neutral <= bad <= len(faults), 'failure-accepted',
                      f'{len(faults)} launches failed, {bad} individuals are marked failed')
        if mode != 'multiple':
            W.check_order(sim, src, pop, inner.maximize)
    told = [(a, r) for a, r, f in prog.launched if r is not None]
    for argv, rows in told:
        sim.check(list(argv) == ['/nowhere/simulated'] + (args or []), 'wrong-command', f'{argv}')
    if error is None and mode in ('multiple', 'grouped'):
        flat = [r for _, rows in told for r in rows]
        exp = [list(phen[k]) for ch in chunks for k in ch for _ in range(reps)]
        sim.check(len(flat) == len(exp) and all(np.allclose(a, b) for a, b in zip(flat, exp)),
                  'wrong-input', f'the program was told {flat[:3]}, should have been {exp[:3]}')
    sim.sample = dict(mode=mode, wrap=wrap, n=n, faults=dict(sim.faults), raised=repr(error))
