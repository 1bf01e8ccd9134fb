"""C20: runs with contexts of their own do not disturb each other."""
import copy
import io

import networkx as nx
import numpy as np

from .. import gen, pareto as P, world as W
from ..cluster import Cluster
from ..steady import TappedClient, History
from ..threads import Coop

from leap_ec import ops, probe
from leap_ec.algorithm import generational_ea, multi_population_ea, random_search, stop_at_generation
from leap_ec.distrib import synchronous, asynchronous
from leap_ec.distrib.individual import DistributedIndividual
from leap_ec.global_vars import context as GLOBAL
from leap_ec.individual import RobustIndividual
from leap_ec.multiobjective.asynchronous import steady_state_nsga_2
from leap_ec.multiobjective.nsga2 import generalized_nsga_2
from leap_ec.representation import Representation

RUNS = dict(quick=3500, thorough=60000)
RULE = ('two or three complete runs of drawn algorithms, first each alone, then interleaved at '
        'evaluations, probes and stop conditions (or one after the other in one context); '
        'non-trivial: at least one switch between runs, distinct by the hash of its event sequence')
REAL = W.SEAMS_REAL + ['one thread per run']
STUB = ['the thread scheduler (one run at a time, switches drawn) and each run\'s random state'] + W.SEAMS_STUB
ASSUMPTIONS = ['runs share no operator, probe or stream objects',
               'each run is given its own random state (the library uses the process-wide generators)']
MUST_REACH = ['generational', 'islands', 'random_search', 'nsga2', 'async', 'sync_distributed',
              'async_mo', 'global_untouched', 'one_uses_global', 'failed_evaluations', 'aborted',
              'went_on_after_abort', 'successive', 'three_runs', 'start_generation', 'bare_context', 'default_used_before']


class Aborted(Exception):
    """The application gives up a run."""


class PausingProblem(W.SimProblem):
    """Fails for certain phenomes, always the same ones."""
    every = 0

    def evaluate(self, phenome, *a, **k):
        s = W.core.CURRENT
        if s is not None and s.machine is None and getattr(s, 'coop', None) is not None:
            s.coop.pause()
        if self.every and int(abs(W.weigh(phenome))) % self.every == 0:
            if s is not None:
                s.reach('failed_evaluations')
            raise ArithmeticError('poisoned')
        return super().evaluate(phenome, *a, **k)


class PausingMulti(P.SimMulti):
    def evaluate(self, phenome, *a, **k):
        s = W.core.CURRENT
        if s is not None and s.machine is None and getattr(s, 'coop', None) is not None:
            s.coop.pause()
        return super().evaluate(phenome, *a, **k)


def pause():
    s = W.core.CURRENT
    if s is not None and s.machine is None and getattr(s, 'coop', None) is not None:
        s.coop.pause()


def plan(sim, src):
    d = gen.draw(src, gens=(1, 4), pop=(1, 5))
    d['algo'] = src.weighted([(4, 'generational'), (3, 'islands'), (2, 'random_search'), (2, 'nsga2'),
                              (2, 'async'), (1, 'async_mo')])
    d['seed'] = src.seed32()
    d['gap'], d['k_isl'] = src.int(1, 2), src.int(2, 3)
    d['dist'] = src.bool(0.3)
    d['start'] = src.pick([0, 0, 2])
    d['stop'] = src.pick([None, 1, 3])
    d['n'] = max(d['n'], 2)
    d['births'], d['init'] = src.size(1, 6, 25), src.size(1, 3, 10)
    d['obj'] = P.draw_problem(src) if d['algo'] in ('nsga2', 'async_mo') else None
    d['every'] = src.pick([0, 0, 3]) if d['sel'] < 5 else 0
    d['abort'] = src.int(1, 6) if src.bool(0.15) else None
    d['bare'] = src.bool(0.3)        # a context with nothing in it yet
    sim.reach(d['algo'])
    return d


def execute(sim, d, ctx):
    """One run from its plan; ctx None means the library's default context.
    Returns (trace, facts) where the trace must not depend on who else runs."""
    kw = {} if ctx is None else {'context': ctx}
    seen_ctx = GLOBAL if ctx is None else ctx
    trace = []
    text = io.StringIO()
    calls = [0]

    def patience():
        pause()
        calls[0] += 1
        if calls[0] == d['abort']:
            sim.reach('aborted')
            raise Aborted(d['algo'])

    @ops.listlist_op
    def tap(pop):
        patience()
        leap = seen_ctx['leap']
        trace.append((leap.get('generation'), leap.get('current_subpopulation'),
                      gen.digest(pop) if d['algo'] != 'nsga2' else [tuple(i.fitness) for i in pop]))
        return pop
    stop_fn = stop_at_generation(d['stop'], **kw) if d['stop'] is not None else (lambda x: False)

    def stop(pop):
        pause()
        return stop_fn(pop)
    cls = RobustIndividual
    prob = PausingProblem(maximize=d['maximize'], mode=d['mode'])
    prob.every = d['every']
    failed = [0]
    init = cls.evaluate_population
    size = d['pop'] if d['algo'] == 'islands' else d['offspring']
    tail = [ops.evaluate, ops.pool(size=size)]
    if d['dist'] and d['algo'] in ('generational', 'islands'):
        sim.reach('sync_distributed')
        cls = DistributedIndividual
        client = TappedClient(Cluster(sim, workers=2, per_host=1, faults=W.cluster_faults(sim.src)), History())
        init = synchronous.eval_population(client=client, **kw)
        tail = [synchronous.eval_pool(client=client, size=size, **kw)]
    rep = gen.representation(d, cls)
    probes = [probe.FitnessStatsCSVProbe(stream=text, **kw), probe.BestSoFarProbe(stream=text, **kw)]
    earlier = seen_ctx['leap']['distrib']['non_viable'] if 'distrib' in seen_ctx['leap'] else 0
    try:
        if d['algo'] == 'generational':
            if d['start']:
                sim.reach('start_generation')
            final = generational_ea(d['gens'] + d['start'], d['pop'], prob, rep,
                                    gen.breeding(d) + tail + probes + [tap], stop=stop, init_evaluate=init,
                                    k_elites=d['k'], start_generation=d['start'], **kw)
            out = sorted(gen.digest(final), key=repr)
        elif d['algo'] == 'islands':
            final = multi_population_ea(
                d['gens'], d['k_isl'], d['pop'], prob, rep,
                gen.breeding(d) + tail + probes + [
                    ops.migrate(topology=nx.cycle_graph(d['k_isl']), emigrant_selector=ops.tournament_selection,
                                replacement_selector=ops.random_selection, migration_gap=d['gap'], **kw), tap],
                stop=stop, init_evaluate=init, **kw)
            out = [gen.digest(p) for p in final]
        elif d['algo'] == 'random_search':
            final = random_search(d['births'] + 1, prob, rep,
                                  [ops.cyclic_selection, ops.clone, gen.mutator(d), ops.evaluate,
                                   ops.pool(size=1)] + probes + [tap], **kw)
            out = gen.digest(final)
        elif d['algo'] == 'nsga2':
            o = d['obj']
            mo = PausingMulti(o.directions, o.coeffs, o.grid, o.shift, o.scale)
            final = generalized_nsga_2(
                d['gens'], d['pop'] + 1, mo,
                Representation(initialize=gen.initializer(d), individual_cls=RobustIndividual),
                [ops.random_selection, ops.clone, gen.mutator(d), ops.evaluate, ops.pool(size=d['pop'] + 1), tap],
                stop=stop, init_evaluate=RobustIndividual.evaluate_population, **kw)
            out = sorted([tuple(i.fitness) for i in final])
        else:
            client = TappedClient(Cluster(sim, workers=2, per_host=1, faults=W.cluster_faults(sim.src)), History())
            count = [0]

            def evaluated(ind):
                count[0] += 1
                failed[0] += not ind.is_viable
                patience()
            if d['algo'] == 'async_mo':
                o = d['obj']
                final = steady_state_nsga_2(
                    client, d['births'], d['init'], 3, P.SimMulti(o.directions, o.coeffs, o.grid, o.shift, o.scale),
                    gen.representation(d, DistributedIndividual),
                    [ops.random_selection, ops.clone, gen.mutator(d), ops.pool(size=1)],
                    count_nonviable=True, evaluated_probe=evaluated, **kw)
            else:
                final = asynchronous.steady_state(
                    client, d['births'], d['init'], 3, gen.representation(d, DistributedIndividual), prob,
                    gen.breeding(d) + [ops.pool(size=1)], inserter=asynchronous.greedy_insert_into_pop,
                    count_nonviable=True, evaluated_probe=evaluated, **kw)
            sim.check(seen_ctx['leap']['distrib']['non_viable'] == failed[0] + earlier, 'failures-mixed-up',
                      f'{seen_ctx["leap"]["distrib"]["non_viable"]} failures in the run state, '
                      f'{failed[0]} in this run after {earlier}')
            sim.check(count[0] == d['births'] + d['init'], 'births-mixed-up',
                      f'{count[0]} evaluations instead of {d["births"]} + {d["init"]}')
            out = len(final)
    except Aborted:
        final, out = [], 'aborted'
    sim.finals.append((d['algo'], final, frozen(final)))
    leap = seen_ctx['leap']
    facts = {k: leap.get(k) for k in ('generation', 'births')}
    if d['algo'] in ('generational', 'islands'):
        facts['subpops'] = leap.get('current_subpopulation')
        facts['failures'] = leap['distrib']['non_viable'] if 'distrib' in leap else None
    if d['algo'] in ('async', 'async_mo'):
        return [], facts if out != 'aborted' else {}
    return trace + [out, text.getvalue()], facts


def run(sim, src):
    n = src.weighted([(3, 2), (1, 3)])
    if n == 3:
        sim.reach('three_runs')
    mode = src.weighted([(4, 'interleaved'), (2, 'successive')])
    plans = [plan(sim, src) for _ in range(n)]
    default = src.pick([None, None, 0, 1]) if mode == 'interleaved' else None
    sim.event(f'{mode} {[d["algo"] for d in plans]} {default}')
    sim.coop = None
    sim.finals = []               # what every run returned, and what that was
    W.Ledger(sim)
    # alone
    alone = []
    for k, d in enumerate(plans):
        W.reset_global_context()
        seeds(d['seed'])
        alone.append(execute(sim, d, None if k == default else own(sim, d)))
    W.reset_global_context()
    if default is None and src.bool(0.4):
        # somebody used the default context before
        GLOBAL['leap'].update(generation=77, births=55, current_subpopulation=1)
        GLOBAL['leap']['distrib']['non_viable'] = 33
        sim.reach('default_used_before')
    before = copy.deepcopy(GLOBAL)
    if mode == 'successive':
        sim.reach('successive')
        sim.fault('run_after_run')
        # one after the other in one context, whatever the first one left there
        ctx = W.new_context()
        res = []
        for d in plans:
            if 'distrib' in ctx['leap']:
                ctx['leap']['distrib']['non_viable'] = 0
            if d['bare']:
                ctx['leap'].pop('distrib', None)
            else:
                ctx['leap'].setdefault('distrib', {'non_viable': 0})
            seeds(d['seed'])
            t, f = execute(sim, d, ctx)
            res.append((t, f))
            if d['algo'] not in ('islands',):
                # what an earlier island run left is none of this run's business
                t[:] = [strip(x) for x in t]
        for (a, fa), (b, fb), d in zip(alone, res, plans):
            if d['algo'] != 'islands':
                a = [strip(x) for x in a]
            compare(sim, d, a, b, 'after another run in the same context')
            same_facts(sim, d, fa, fb)
    else:
        coop = sim.coop = Coop(sim)
        tasks = [coop.spawn(f'r{k}', lambda k=k, d=d: execute(sim, d, None if k == default else own(sim, d)),
                            d['seed'])
                 for k, d in enumerate(plans)]
        coop.run()
        sim.coop = None
        for (a, fa), t, d in zip(alone, tasks, plans):
            b, fb = t['result']
            compare(sim, d, a, b, 'interleaved with other runs')
            if d['abort'] is None and any(e['abort'] is not None for e in plans):
                sim.reach('went_on_after_abort')
            same_facts(sim, d, fa, fb)
    for algo, final, was in sim.finals:
        sim.check(frozen(final) == was, 'result-changed-later',
                  f'{algo}: the population a run returned was changed by another run')
    if default is None:
        sim.check(GLOBAL == before, 'global-context-changed',
                  f'runs with contexts of their own changed the default one from {before} to {GLOBAL}')
        sim.reach('global_untouched')
    else:
        sim.reach('one_uses_global')
    sim.sample = dict(mode=mode, algorithms=[d['algo'] for d in plans], default=default,
                      trace=sim.log[:10], faults=dict(sim.faults))


def own(sim, d):
    if d['bare']:
        sim.reach('bare_context')
        return {'leap': {}}
    return W.new_context()


def frozen(pop):
    return [frozen(i) if isinstance(i, list) else (id(i), repr(i.genome), repr(i.fitness)) for i in pop]


def strip(x):
    return (x[0],) + tuple(x[2:]) if isinstance(x, tuple) and len(x) == 3 else x


def seeds(s):
    import random
    random.seed(s)
    np.random.seed(s % (1 << 32))


def compare(sim, d, a, b, when):
    for g, (x, y) in enumerate(zip(a, b)):
        sim.check(x == y, 'runs-disturb-each-other',
                  f'{d["algo"]}: step {g} of {len(a)} differs {when}:\n{x}\n{y}')
    sim.check(len(a) == len(b), 'runs-disturb-each-other',
              f'{d["algo"]}: {len(a)} steps alone, {len(b)} {when}')


def same_facts(sim, d, fa, fb):
    keys = {'generational': ('generation', 'failures'), 'islands': ('generation', 'subpops', 'failures'),
            'random_search': ('generation',), 'nsga2': ('generation',), 'async': ('births',),
            'async_mo': ('births',)}[d['algo']]
    for k in keys:
        sim.check(fa.get(k) == fb.get(k), 'run-state-mixed-up',
                  f'{d["algo"]}: {k} is {fb.get(k)} in the run state, {fa.get(k)} when alone')
