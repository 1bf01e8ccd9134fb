"""C12: the asynchronous NSGA-II keeps a correctly ranked population after every arrival."""
import numpy as np

from .. import pareto as P, world as W
from ..cluster import Cluster
from ..steady import TappedClient, History

from leap_ec import ops
from leap_ec.distrib.individual import DistributedIndividual
from leap_ec.multiobjective.asynchronous import steady_state_nsga_2, ENLUInserter
from leap_ec.representation import Representation

RUNS = dict(quick=6000, thorough=150000)
RULE = ('one asynchronous multiobjective run on the faulty simulated cluster, or one drawn '
        'sequence of arrivals at the inserter; every arrival is compared with a reference '
        'nondominated sort; non-trivial: a fault, a rank change of a resident or a removal, '
        'distinct by the hash of its event sequence')
REAL = W.SEAMS_REAL
STUB = W.SEAMS_STUB
ASSUMPTIONS = ['members with equal objective values may be ordered either way for crowding']
MUST_REACH = ['removed', 'resident_demoted', 'failed_arrival', 'failed_member', 'ties',
              'new_front_between', 'whole_run', 'at_most_one_front']


def step(sim, problem, before, arrival, after, size):
    """One arrival: `before` is [(ind, rank)], after the population now."""
    cand = [i for i, _ in before] + [arrival]
    keys = [P.key(problem, i.fitness) for i in cand]
    rk = P.ranks(keys)
    ids = [id(i) for i in cand]
    got = [id(i) for i in after]
    sim.check(len(set(got)) == len(got), 'duplicated-member', 'one individual is in the population twice')
    sim.check(set(got) <= set(ids), 'unknown-member', 'an individual that never arrived is in the population')
    want = min(len(cand), size)
    sim.check(len(after) == want, 'wrong-size',
              f'{len(after)} members after {len(before)} and one arrival, capacity {size}')
    out = [k for k, x in enumerate(ids) if x not in set(got)]
    last = max(rk)
    if out:
        sim.reach('removed')
        sim.nontrivial = True
        k = out[0]
        sim.check(rk[k] == last, 'better-ranked-removed',
                  f'a rank {rk[k]} individual {keys[k]} was dropped, the last front is {last}: {keys}')
        front = [j for j in range(len(cand)) if rk[j] == last]
        d = dict(zip(front, P.distances([keys[j] for j in front])))
        if d[k] is not None and len(front) > 1:
            others = [max(d[j]) for j in front if j != k]
            sim.check(min(d[k]) <= min(others) + 1e-9, 'less-crowded-removed',
                      f'dropped {keys[k]} from front {[keys[j] for j in front]}')
    pos = {x: k for k, x in enumerate(ids)}
    for i in after:
        sim.check(getattr(i, 'rank', None) == rk[pos[id(i)]], 'wrong-rank',
                  f'{keys[pos[id(i)]]} has rank {getattr(i, "rank", None)}, should be '
                  f'{rk[pos[id(i)]]} among {keys}')
    for (i, old), r in zip(before, rk):
        if old is not None and r != old:
            sim.reach('resident_demoted')
            sim.nontrivial = True
    if last > 1 and rk.count(rk[-1]) == 1 and rk[-1] < last:
        sim.reach('new_front_between')
    if last == 1:
        sim.reach('at_most_one_front')
    by = {}
    for i in after:
        by.setdefault(i.rank, []).append(i)
    for r, front in by.items():
        ks = [P.key(problem, i.fitness) for i in front]
        if len(set(ks)) < len(ks):
            sim.reach('ties')
        for i, k, d in zip(front, ks, P.distances(ks)):
            if k is None:
                sim.reach('failed_member')
                continue
            sim.check(P.has(d, i.distance), 'wrong-crowding',
                      f'{k} in front {ks} has distance {i.distance}, expected one of {sorted(d)[:4]}')
    if keys[-1] is None:
        sim.reach('failed_arrival')


def run(sim, src):
    problem = P.draw_problem(src)
    if src.bool(0.6):
        arrivals(sim, src, problem)
    else:
        whole(sim, src, problem)


def arrivals(sim, src, problem):
    n = src.int(1, 45)
    size = src.int(1, 30)
    m = len(problem.directions)
    grid = src.pick([4, 2, 9, 1000])
    fail_p = src.pick([0.0, 0.0, 0.2, 0.6])
    ins = ENLUInserter()
    pop, before = [], []
    sim.event(f'arrivals {n} {size} {problem.directions} {grid}')
    for _ in range(n):
        ind = DistributedIndividual(np.zeros(1), problem=problem)
        if fail_p and src.bool(fail_p):
            sim.fault('evaluation_error')
            ind.fitness, ind.is_viable = float('nan'), False
        else:
            ind.fitness, ind.is_viable = np.array([float(src.draw(grid)) * u for u in problem.scale]), True
        sim.event(str(P.key(problem, ind.fitness)))
        fit = {id(i): np.array(i.fitness, copy=True) for i in pop + [ind]}
        ins(ind, pop, size)
        step(sim, problem, before, ind, pop, size)
        for i in pop:
            sim.check(np.array_equal(np.asarray(i.fitness, dtype=float),
                                     np.asarray(fit[id(i)], dtype=float), equal_nan=True),
                      'fitness-changed', 'insertion changed a fitness')
        before = [(i, i.rank) for i in pop]
    sim.sample = dict(mode='arrivals', directions=problem.directions, size=size, trace=sim.log[1:12])


def whole(sim, src, problem):
    sim.reach('whole_run')
    genomes = W.Genomes(src)
    arg, ctx = W.fresh_context(src)
    kw = {} if arg is None else {'context': arg}
    led = W.Ledger(sim)
    led.fail_p, led.max_failures = src.pick([0.0, 0.2, 0.6]), src.int(1, 12)
    led.sleep = src.bool(0.5)
    cl = Cluster(sim, workers=src.int(1, 4), faults=W.cluster_faults(src))
    hist = History()
    client = TappedClient(cl, hist)
    init, size, births = src.size(1, 6, 30), src.size(1, 8, 30), src.size(0, 18, 80)
    batch = src.weighted([(3, 1), (1, 3)])
    count = src.bool(0.5)
    sel = src.pick([ops.random_selection, ops.tournament_selection, ops.cyclic_selection,
                    ops.tournament_selection(k=3)])
    pipeline = [sel, ops.clone, genomes.mutator(src)]
    if src.bool(0.4):
        pipeline.append(genomes.crossover(src))
    pipeline.append(ops.pool(size=batch))
    st = dict(before=[], arrived=None, n=0)

    def evaluated_probe(ind):
        sim.check(st['arrived'] is None, 'arrival-not-inserted', 'an arrival was never offered to the population')
        st['arrived'] = ind
        st['n'] += 1
        sim.event(f'arrive {P.key(problem, ind.fitness)}')
        if not ind.is_viable:
            sim.check(P.failed(ind.fitness), 'failed-with-fitness', f'{ind.fitness}')
        else:
            sim.check(np.array_equal(ind.fitness, problem.pure(ind.genome)), 'wrong-fitness',
                      f'{ind.fitness} for {ind.genome}')

    def pop_probe(pop):
        step(sim, problem, st['before'], st['arrived'], pop, size)
        st['before'] = [(i, i.rank) for i in pop]
        st['arrived'] = None
    rep = Representation(initialize=genomes.init, decoder=W.SimDecoder(),
                         individual_cls=DistributedIndividual)
    final = steady_state_nsga_2(client, births, init, size, problem, rep, pipeline,
                                count_nonviable=count, evaluated_probe=evaluated_probe,
                                pop_probe=pop_probe, **kw)
    sim.check([id(i) for i in final] == [id(i) for i, _ in st['before']], 'wrong-final-population',
              'the returned population is not the last one')
    sim.check(st['n'] == len(hist.submitted), 'evaluations-lost',
              f'{len(hist.submitted)} sent, {st["n"]} collected')
    base = init + births
    if count:
        sim.check(base <= st['n'] < base + batch if births else st['n'] == init, 'wrong-budget',
                  f'{st["n"]} evaluations for {init}+{births} (batch {batch})')
    sim.sample = dict(mode='run', directions=problem.directions, init=init, size=size,
                      births=births, faults=dict(sim.faults), trace=sim.log[:12])
