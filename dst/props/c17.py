"""C17: cooperative fitness comes from current collaborators, for every trial."""
import csv
import io
from collections import Counter

import numpy as np

from .. import world as W
from ..storage import SimFile, Crash

from leap_ec import ops
from leap_ec.algorithm import multi_population_ea
from leap_ec.decoder import IdentityDecoder
from leap_ec.individual import Individual, WholeEvaluatedIndividual
from leap_ec.problem import CooperativeProblem
from leap_ec.representation import Representation
from leap_ec.int_rep.initializers import create_int_vector
from leap_ec.int_rep.ops import mutate_randint

RUNS = dict(quick=6000, thorough=80000)
RULE = ('one cooperative coevolutionary run over 1-7 islands with a drawn evaluator, collaborator '
        'selection and log, with complete-problem failures and log failures at drawn points; '
        'non-trivial: more than one generation or a fault, distinct by the hash of its event '
        'sequence')
REAL = ['all of leap_ec', 'numpy, toolz, csv']
STUB = ['the complete fitness function and the log stream (simulated, with fault points)']
ASSUMPTIONS = ['partial solutions are combined by concatenation in island order']
MUST_REACH = ['operator', 'problem', 'grouped', 'evaluation_error', 'log_error', 'logged',
              'collaborator_from_new_population', 'several_trials', 'alone', 'no_number']


class Complete(W.SimProblem):
    def __init__(self, sim, hook, **kw):
        super().__init__(**kw)
        self.hook = hook

    def evaluate(self, phenome, *a, **k):
        return self.hook(np.array(phenome, copy=True), self.pure(phenome))


def run(sim, src):
    n = src.size(1, 4, 7)
    if n == 1:
        sim.reach('alone')
    lens = [src.size(1, 3, 10) for _ in range(n)]
    size, gens, trials = src.size(1, 4, 12), src.size(1, 4, 10), src.size(1, 3, 8)
    if trials > 1:
        sim.reach('several_trials')
    how = src.pick(['operator', 'problem', 'grouped'])
    sim.reach(how)
    arg, ctx = W.fresh_context(src)
    kw = {} if arg is None else {'context': arg}
    current = [None] * n               # the harness's own view of the islands
    fresh = [0] * n
    nans = src.bool(0.12)
    trace = []                         # (combined genome, fitness)
    fail_at = src.int(1, 60) if src.bool(0.2) else None

    class Boom(Exception):
        pass
    boom = []

    def hook(genome, value):
        if fail_at is not None and len(trace) + 1 == fail_at and not boom:
            sim.fault('evaluation_error')
            sim.reach('evaluation_error')
            boom.append(Boom('simulated'))
            raise boom[0]
        isl = ctx['leap']['current_subpopulation']
        state['in_slot'].append(isl)
        trace.append((genome, value, isl, [[W.freeze(i.genome) for i in p] for p in current]))
        return value
    state = dict(in_slot=[])
    complete = Complete(sim, hook, maximize=src.bool(0.5), mode='weighted', nans=nans)
    log = None
    if src.bool(0.6):
        log = SimFile(sim)
        sim.reach('logged')
    sel = src.pick([ops.random_selection, ops.tournament_selection, ops.cyclic_selection,
                    ops.naive_cyclic_selection])
    picks = []

    def selector(pop, *a, **k):
        def gen_():
            for x in sel(pop, *a, **k):
                picks.append(W.freeze(np.asarray(x.genome))[3])
                yield x
        return gen_()
    opts = dict(kw)
    if log is not None:
        opts['log_stream'] = log
    cls = Individual
    problem = complete
    mut = [ops.tournament_selection, ops.clone,
           mutate_randint(bounds=[(0, 99)] * 3, expected_num_mutations=1)]
    if how == 'operator':
        evaluator = ops.CooperativeEvaluate(num_trials=trials, collaborator_selector=selector, **opts)
    else:
        problem = CooperativeProblem(wrapped_problem=complete, num_trials=trials,
                                     collaborator_selector=selector, **opts)
        cls = WholeEvaluatedIndividual
        evaluator = ops.evaluate
    if log is not None and src.bool(0.25):
        log.faults = {'write': src.pick([0.02, 0.1])}
    mut = [ops.tournament_selection, ops.clone]
    muts = [[mutate_randint(bounds=[(0, 99)] * lens[i], expected_num_mutations=1)] for i in range(n)]
    calls = []

    def wrap_eval():
        """The real evaluator, with the trials of each individual set apart."""
        def f(it):
            def one():
                for i in it:
                    st['ind'] = (i, W.freeze(i.genome), len(trace))
                    yield i
            for i in evaluator(one()):
                calls.append((i, st['ind'][1], i.fitness, st['ind'][2], len(trace),
                              ctx['leap']['generation'], ctx['leap']['current_subpopulation']))
                sim.check(i is st['ind'][0], 'other-individual', 'the evaluator passed on somebody else')
                sim.event(f'{i.fitness}')
                yield i
        st = {}
        return f

    def note(pop):
        i = ctx['leap']['current_subpopulation']
        current[i] = list(pop)
        fresh[i] += 1
        return pop
    first = []

    def init(pop):
        res = ops.const_evaluate(value=-100.0)(pop) if src_init else [setv(i, k) for k, i in enumerate(pop)]
        current[len(first)] = list(res)
        first.append(res)
        return res

    def setv(i, k):
        i.fitness = float(k)
        return i
    src_init = src.bool(0.5)
    tails = []
    for i in range(n):
        if how == 'grouped':
            ck = src.pick([None, 1, 2])
            ge = ops.grouped_evaluate if ck is None else ops.grouped_evaluate(max_individuals_per_chunk=ck)
            tails.append(muts[i] + [ops.pool(size=size), grouped(sim, ge, trace, calls, ctx), note])
        else:
            tails.append(muts[i] + [wrap_eval(), ops.pool(size=size), note])
    reps = [Representation(initialize=create_int_vector([(0, 99)] * lens[i]), decoder=IdentityDecoder(),
                           individual_cls=cls) for i in range(n)]
    sim.event(f'{how} {lens} {size} {gens} {trials}')
    if gens > 1:
        sim.nontrivial = True
    error = None
    try:
        pops = multi_population_ea(max_generations=gens, num_populations=n, pop_size=size,
                                   problem=[problem] * n, representation=reps, shared_pipeline=mut,
                                   subpop_pipelines=tails, init_evaluate=init, **kw)
    except (Boom, OSError) as e:
        error = e
        sim.check((boom and e is boom[0]) or (log is not None and any(e is x for x in log.raised)),
                  'unexpected-exception', repr(e))
        if isinstance(e, OSError):
            sim.reach('log_error')
    sim.check(error is not None or not (boom or (log is not None and log.raised)), 'error-hidden',
              'an evaluation or log error disappeared')
    starts = np.cumsum([0] + lens)
    for ind, gsnap, fit, a, b, g, isl in calls:
        sim.check(b - a == trials, 'wrong-number-of-trials', f'{b - a} instead of {trials}')
        vals = []
        for genome, value, cur, pops_then in trace[a:b]:
            sim.check(len(genome) == starts[-1], 'incomplete-combination', f'{genome}')
            for j in range(n):
                part = W.freeze(np.array(genome[starts[j]:starts[j + 1]]))
                if j == isl:
                    sim.check(part[3] == gsnap[3], 'evaluated-somebody-else',
                              f'slot {j} of the combination is not the individual being evaluated')
                else:
                    ok = [x[3] for x in pops_then[j]]
                    sim.check(part[3] in ok, 'outdated-collaborator',
                              f'the collaborator from island {j} is not in its current population')
                    if g > 0 or j < isl:
                        sim.reach('collaborator_from_new_population')
            vals.append(value)
        if any(W.isnan(v) for v in vals):
            sim.reach('no_number')
        sim.check(number(fit, np.mean(vals)), 'wrong-fitness', f'{fit} for trials {vals}')
        sim.check(W.freeze(ind.genome) == gsnap, 'individual-altered', 'evaluation changed the genome')
    # every trial has collaborators of its own, offered by selection
    pool = Counter(picks)
    for genome, _, isl, _ in trace:
        for j in range(n):
            if j != isl:
                part = W.freeze(np.array(genome[starts[j]:starts[j + 1]]))[3]
                sim.check(pool[part] > 0, 'collaborator-not-drawn',
                          f'a trial uses a collaborator from island {j} that was not drawn for it')
                pool[part] -= 1
    W.check_order(sim, src, [c[0] for c in calls], complete.maximize)
    if error is None:
        sim.check(len(calls) == n * gens * size, 'evaluations-missing', f'{len(calls)}')
        sim.check(len(trace) == len(calls) * trials, 'evaluations-extra', f'{len(trace)}')
        if log is not None:
            check_log(sim, log.everything(), trace, calls, n, starts)
    sim.sample = dict(how=how, islands=lens, size=size, generations=gens, trials=trials,
                      error=repr(error), faults=dict(sim.faults))


def grouped(sim, op, trace, calls, ctx):
    def f(pop):
        snaps = [W.freeze(i.genome) for i in pop]
        a = len(trace)
        res = op(pop)
        per = (len(trace) - a) // max(1, len(res))
        sim.check(per * len(res) == len(trace) - a, 'wrong-number-of-trials',
                  f'{len(trace) - a} evaluations for {len(res)} individuals')
        for k, i in enumerate(res):
            calls.append((i, snaps[k], i.fitness, a + k * per, a + (k + 1) * per,
                          ctx['leap']['generation'], ctx['leap']['current_subpopulation']))
            sim.event(f'{i.fitness}')
        return res
    return f


def number(a, b):
    a, b = float(a), float(b)
    return W.isnan(a) and W.isnan(b) or W.close(a, b)


def ints(text):
    return [int(x) for x in text.strip('[]').replace(',', ' ').split()]


def check_log(sim, text, trace, calls, n, starts):
    rows = list(csv.DictReader(io.StringIO(text)))
    sim.check(len(rows) == len(trace) * (n + 1), 'log-rows',
              f'{len(rows)} rows for {len(trace)} trials over {n} islands')
    where = {}
    for ind, _, _, a, b, g, isl in calls:
        for k in range(a, b):
            where[k] = (g, isl)
    for k, (genome, value, _, _) in enumerate(trace):
        block = rows[k * (n + 1):(k + 1) * (n + 1)]
        g, isl = where[k]
        for r in block:
            sim.check(r['generation'] == str(g) and r['subpopulation'] == str(isl), 'log-row',
                      f'{r} for generation {g}, island {isl}')
        for j, r in enumerate(block[:-1]):
            sim.check(r['individual_type'] == 'Collaborator' and r['collaborator_subpopulation'] == str(j)
                      and ints(r['genome']) == [int(x) for x in genome[starts[j]:starts[j + 1]]],
                      'log-row', f'{r} for trial {k}, island {j}: {genome}')
        r = block[-1]
        sim.check(r['individual_type'] == 'Combined Individual' and number(r['fitness'], value)
                  and ints(r['genome']) == [int(x) for x in genome], 'log-row',
                  f'{r} for the combination {genome} of fitness {value}')
