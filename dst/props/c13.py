"""C13: generational NSGA-II survival, ranking and generation counting."""
import numpy as np

from .. import pareto as P, world as W
from ..cluster import Cluster
from ..steady import TappedClient, History

from leap_ec import ops
from leap_ec.distrib import synchronous
from leap_ec.distrib.individual import DistributedIndividual
from leap_ec.individual import Individual, RobustIndividual
from leap_ec.multiobjective.nsga2 import generalized_nsga_2
from leap_ec.multiobjective.ops import (fast_nondominated_sort, rank_ordinal_sort,
                                        crowding_distance_calc, sort_by_dominance)
from leap_ec.representation import Representation

RUNS = dict(quick=6000, thorough=120000)
RULE = ('one multiobjective generational run (serial, or on the faulty simulated cluster) whose '
        'every generation is compared with a reference survivor selection, or one drawn set of '
        'parents and offspring put through the ranking operators; non-trivial: a fault or a '
        'generation that discards somebody, distinct by the hash of its event sequence')
REAL = W.SEAMS_REAL
STUB = W.SEAMS_STUB
ASSUMPTIONS = ['members with equal objective values may be ordered either way for crowding',
               'individuals are cloned before they are changed']
MUST_REACH = ['front_cut', 'failed_evaluations', 'ties', 'distributed', 'operators', 'whole_run',
              'one_value_front', 'start_generation', 'stopped_early', 'crowd']


def run(sim, src):
    problem = P.draw_problem(src)
    if src.bool(0.006):
        crowd(sim, src, problem)
    elif src.bool(0.5):
        operators(sim, src, problem)
    else:
        whole(sim, src, problem)


def judge_survivors(sim, problem, cand, after, n):
    """after = the n survivors of cand by (front, crowding)"""
    keys = [P.key(problem, i.fitness) for i in cand]
    rk = P.ranks(keys)
    ids = [id(i) for i in cand]
    got = [id(i) for i in after]
    sim.check(len(got) == n, 'wrong-size', f'{len(got)} survivors instead of {n} (of {len(cand)})')
    sim.check(len(set(got)) == len(got), 'duplicated-survivor', 'one individual survives twice')
    sim.check(set(got) <= set(ids), 'unknown-survivor', 'a survivor is neither parent nor offspring')
    inn = [k for k, x in enumerate(ids) if x in set(got)]
    out = [k for k, x in enumerate(ids) if x not in set(got)]
    sim.check(sorted(rk[k] for k in inn) == sorted(rk)[:n], 'worse-front-preferred',
              f'survivors of fronts {sorted(rk[k] for k in inn)}, available {sorted(rk)}: {keys}')
    if out:
        sim.nontrivial = True
        cut = max(rk[k] for k in inn)
        front = [k for k in range(len(cand)) if rk[k] == cut]
        d = dict(zip(front, P.distances([keys[k] for k in front])))
        lose = [k for k in out if rk[k] == cut]
        keep = [k for k in inn if rk[k] == cut]
        if lose:
            sim.reach('front_cut')
            if keys[front[0]] is not None:
                worst = min(max(d[k]) for k in keep)
                best = max(min(d[k]) for k in lose)
                sim.check(worst >= best - 1e-9, 'more-crowded-preferred',
                          f'kept {[keys[k] for k in keep]}, dropped {[keys[k] for k in lose]}')
    for k in inn:
        sim.check(getattr(cand[k], 'rank', None) == rk[k], 'wrong-rank',
                  f'{keys[k]} has rank {getattr(cand[k], "rank", None)}, should be {rk[k]} among {keys}')
    vk = [k for k in keys if k is not None]
    if len(set(vk)) < len(vk):
        sim.reach('ties')


def crowd(sim, src, problem):
    """Ranking of a large population, whose ranks do not fit into a byte."""
    sim.reach('crowd')
    sim.nontrivial = True
    m = len(problem.directions)
    n = src.int(260, 330)
    rng = np.random.RandomState(src.seed32())
    v = np.zeros((n, m))
    line = src.bool(0.5)          # nearly everybody dominates the next one
    for j in range(m):
        v[:, j] = rng.permutation(n) if not line else np.arange(n) + (rng.rand(n) < 0.02) * 2
    sim.event(f'crowd {n} {m} {line} {v[:3].tolist()}')
    keys = []
    pop = []
    for row in v:
        i = DistributedIndividual(np.zeros(1), problem=problem)
        i.fitness, i.is_viable = np.array([float(x) * u for x, u in zip(row, problem.scale)]), True
        pop.append(i)
        keys.append(P.key(problem, i.fitness))
    k = np.array(keys, dtype=float)
    dom = np.array([(k >= x).all(1) & (k > x).any(1) for x in k])      # dom[i, j]: j dominates i
    want, left, r = np.zeros(n, dtype=int), np.ones(n, dtype=bool), 0
    while left.any():
        r += 1
        front = left & ~(dom & left[None, :]).any(1)
        want[front] = r
        left &= ~front
    res = rank_ordinal_sort(list(pop))
    sim.check(sorted(id(i) for i in res) == sorted(id(i) for i in pop), 'individuals-lost',
              f'{len(res)} of {n} come out')
    bad = [x for x in range(n) if pop[x].rank != want[x]]
    sim.check(not bad, 'wrong-rank', f'{len(bad)} of {n} ranks are wrong, the first one is '
              f'{pop[bad[0]].rank if bad else None} instead of {want[bad[0]] if bad else None}')
    sim.sample = dict(mode='crowd', n=n, objectives=m, fronts=int(r))


def operators(sim, src, problem):
    sim.reach('operators')
    m = len(problem.directions)
    grid = src.pick([4, 2, 1, 9, 1000])
    fail_p = src.pick([0.0, 0.0, 0.3])

    def make(n):
        out = []
        for _ in range(n):
            i = DistributedIndividual(np.zeros(1), problem=problem)
            if fail_p and src.bool(fail_p):
                sim.fault('evaluation_error')
                i.fitness, i.is_viable = float('nan'), False
            else:
                i.fitness = np.array([float(src.draw(grid)) * u for u in problem.scale])
                i.is_viable = True
            out.append(i)
        return out
    parents = make(src.size(0, 14, 60)) if src.bool(0.6) else None
    kids = make(src.size(1, 14, 60))
    both = kids + (parents or [])
    keys = [P.key(problem, i.fitness) for i in both]
    sim.event(f'{problem.directions} {keys} {parents is None}')
    want = P.ranks(keys)
    parents0 = list(parents) if parents is not None else None
    for name, f in (('fast', fast_nondominated_sort), ('ordinal', rank_ordinal_sort)):
        pop = list(kids)
        res = f(pop) if parents is None else (
            f(parents=parents)(pop) if src.bool(0.5) else f(pop, parents=parents))
        sim.check(sorted(id(i) for i in res) == sorted(id(i) for i in both), 'individuals-lost',
                  f'{name}: {len(res)} of {len(both)} come out')
        sim.check([i.rank for i in both] == want, 'wrong-rank',
                  f'{name} sort: {[i.rank for i in both]} instead of {want} for {keys}')
        if parents is not None:
            sim.check([id(i) for i in parents] == [id(i) for i in parents0], 'parents-modified', name)
    res2 = crowding_distance_calc(list(res))
    sim.check(sorted(id(i) for i in res2) == sorted(id(i) for i in both), 'individuals-lost',
              f'crowding: {len(res2)} of {len(both)} come out, fitnesses {keys}')
    by = {}
    for i, k, r in zip(both, keys, want):
        by.setdefault(r, []).append((i, k))
    for r, fr in by.items():
        ks = [k for _, k in fr]
        if len(ks) > 1 and len(set(ks)) == 1 and ks[0] is not None:
            sim.reach('one_value_front')
        for (i, k), d in zip(fr, P.distances(ks)):
            sim.check(P.has(d, i.distance), 'wrong-crowding',
                      f'{k} in front {ks} has distance {i.distance}, expected one of {sorted(d or [])[:4]}')
    order = sort_by_dominance(list(res2))
    sim.check(sorted(id(i) for i in order) == sorted(id(i) for i in both), 'individuals-lost', 'sort')
    for a, b in zip(order, order[1:]):
        sim.check((a.rank, -a.distance) <= (b.rank, -b.distance), 'not-sorted',
                  f'{(a.rank, a.distance)} before {(b.rank, b.distance)}')
    sim.sample = dict(mode='operators', fitnesses=[str(k) for k in keys], ranks=want)


def whole(sim, src, problem):
    sim.reach('whole_run')
    genomes = W.Genomes(src)
    arg, ctx = W.fresh_context(src)
    kw = {} if arg is None else {'context': arg}
    led = W.Ledger(sim)
    cls = src.pick([Individual, RobustIndividual, DistributedIndividual])
    if cls is not Individual:
        led.fail_p, led.max_failures = src.pick([0.0, 0.2, 0.6]), src.int(1, 15)
    n, gens = src.size(1, 8, 40), src.size(0, 5, 15)
    noff = n if src.bool(0.7) else src.size(1, 10, 40)
    start = src.pick([0, 0, src.int(1, 3)])
    stop_after = src.pick([None, None, src.int(0, 4)])
    sel = src.pick([ops.random_selection, ops.tournament_selection, ops.cyclic_selection])
    pipeline = [sel, ops.clone, genomes.mutator(src)]
    if src.bool(0.4):
        pipeline.append(genomes.crossover(src))
    remote = cls is not Individual and src.bool(0.4)
    if remote:
        sim.reach('distributed')
        cl = Cluster(sim, workers=src.int(1, 3), faults=W.cluster_faults(src))
        client = TappedClient(cl, History())
        pipeline.append(synchronous.eval_pool(client=client, size=noff, **kw))
        init = synchronous.eval_population(client=client, **kw)
    else:
        pipeline += [ops.evaluate, ops.pool(size=noff)]
        init = cls.evaluate_population
    opts = {}
    rf = src.pick([None, fast_nondominated_sort, rank_ordinal_sort])
    if rf is not None:
        opts['rank_func'] = rf
    seen, pools, numbers = [], [], []

    def stop(pop):
        seen.append(list(pop))
        return stop_after is not None and len(seen) > stop_after

    def tap(pop):
        pools.append([(i, np.array(i.fitness, copy=True), W.freeze(i.genome)) for i in pop])
        numbers.append(ctx['leap']['generation'])
        sim.event(f'{sorted(str(P.key(problem, i.fitness)) for i in pop)}')
        return pop
    pipeline.append(tap)
    final = generalized_nsga_2(
        max_generations=start + gens, pop_size=n, problem=problem,
        representation=Representation(initialize=genomes.init, decoder=W.SimDecoder(),
                                      individual_cls=cls),
        pipeline=pipeline, stop=stop, init_evaluate=init, start_generation=start, **opts, **kw)
    want = gens if stop_after is None else min(gens, stop_after)
    if want < gens:
        sim.reach('stopped_early')
    if start:
        sim.reach('start_generation')
    sim.check(len(pools) == want, 'wrong-number-of-generations', f'{len(pools)} instead of {want}')
    sim.check(numbers == list(range(start, start + want)) and
              ctx['leap']['generation'] == start + want, 'generation-number',
              f'{numbers} then {ctx["leap"]["generation"]}, started at {start}')
    pops = list(seen)
    if len(pops) == want:
        pops.append(list(final))
    sim.check(len(pops) == want + 1, 'stop-not-asked', f'{len(seen)} times in {want} generations')
    sim.check([id(i) for i in pops[-1]] == [id(i) for i in final], 'wrong-final-population', '')
    sim.check(len(pops[0]) == n, 'wrong-initial-size', f'{len(pops[0])} instead of {n}')
    # ranks are attributes that later generations overwrite: judge the last
    # generation's ranks, and recompute everything else
    for g in range(want):
        cand = [i for i, _, _ in pools[g]] + list(pops[g])
        if g == want - 1:
            judge_survivors(sim, problem, cand, pops[g + 1], n)
        else:
            saved = [(i, i.rank) for i in cand]
            for (i, _), r in zip(saved, P.ranks([P.key(problem, i.fitness) for i in cand])):
                i.rank = r
            try:
                judge_survivors(sim, problem, cand, pops[g + 1], n)
            finally:
                for i, r in saved:
                    i.rank = r
        for i, f, ge in pools[g]:
            sim.check(np.array_equal(np.asarray(i.fitness, dtype=float), np.asarray(f, dtype=float),
                                     equal_nan=True) and W.freeze(i.genome) == ge,
                      'offspring-altered', 'survivor selection changed an individual')
    for i in final:
        if not P.failed(i.fitness):
            sim.check(np.array_equal(i.fitness, problem.pure(i.genome)), 'wrong-fitness',
                      f'{i.fitness} for {i.genome}')
    if led.failures:
        sim.reach('failed_evaluations')
    sim.sample = dict(mode='run', n=n, offspring=noff, generations=want, distributed=remote,
                      faults=dict(sim.faults))
