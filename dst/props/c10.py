"""C10: distribution is transparent, and seeded runs are reproducible."""
import random

import numpy as np

from .. import gen, world as W
from ..cluster import Cluster
from ..steady import TappedClient, History

from leap_ec import ops
from leap_ec.algorithm import generational_ea, multi_population_ea, random_search
from leap_ec.distrib import synchronous, asynchronous
from leap_ec.distrib.individual import DistributedIndividual
from leap_ec.individual import RobustIndividual

RUNS = dict(quick=2500, thorough=80000)
RULE = ('one drawn algorithm run twice from the same seeds: serially and on a faulty simulated '
        'cluster, or twice with different machine identities, identifiers and clocks; '
        'non-trivial: at least one fault injected, distinct by the hash of its event sequence')
REAL = W.SEAMS_REAL
STUB = W.SEAMS_STUB
ASSUMPTIONS = ['the fitness function is deterministic and draws no random numbers on the client']
MUST_REACH = ['failed_evaluations', 'worker_lost', 'async_replayed', 'islands', 'random_search',
              'insertion', 'truncation', 'operators']


class Poison(W.SimProblem):
    """Fails for certain phenomes, always the same ones."""

    def __init__(self, maximize, mode, every):
        super().__init__(maximize=maximize, mode=mode)
        self.every = every

    def evaluate(self, phenome, *a, **k):
        if self.every and int(abs(W.weigh(phenome))) % self.every == 0:
            s = W.core.CURRENT
            if s is not None:
                s.reach('failed_evaluations')
            raise ArithmeticError('poisoned')
        return super().evaluate(phenome, *a, **k)


def seeds(s):
    random.seed(s)
    np.random.seed(s % (1 << 32))


def run(sim, src):
    mode = src.weighted([(5, 'generational'), (2, 'islands'), (1, 'random_search'), (3, 'async'), (3, 'operators')])
    d = gen.draw(src, gens=(1, 6))
    sim.event(f'plan {sorted(d.items())}')
    d['every'] = src.pick([0, 0, 3]) if d['sel'] < 5 else 0
    s = src.seed32()
    W.Ledger(sim).sleep = src.bool(0.3)
    arg, ctx = W.fresh_context(src)
    kw = {} if arg is None else {'context': arg}
    if mode == 'generational':
        a, b = generational(sim, src, d, s, kw)
    elif mode == 'islands':
        sim.reach('islands')
        a, b = islands(sim, src, d, s, kw)
    elif mode == 'random_search':
        sim.reach('random_search')
        a, b = searching(sim, src, d, s, kw)
    elif mode == 'operators':
        sim.reach('operators')
        a, b = operators(sim, src, d, s, kw)
    else:
        sim.reach('async_replayed')
        a, b = asyncs(sim, src, d, s, kw)
    if sim.faults.get('crash_before_execution') or sim.faults.get('crash_during_execution'):
        sim.reach('worker_lost')
    for g, (x, y) in enumerate(zip(a, b)):
        sim.check(x == y, f'{mode}-diverged',
                  f'from the same seeds, step {g} of {len(a)} differs:\n{x}\n{y}')
    sim.check(len(a) == len(b), f'{mode}-diverged', f'{len(a)} against {len(b)} steps')
    sim.sample = dict(mode=mode, plan=d, faults=dict(sim.faults), steps=len(a),
                      tasks=[e for e in sim.log[:8]])


def prob(d):
    return Poison(d['maximize'], d['mode'], d['every'])


def disturb(sim, src):
    """Unrelated differences between the two executions: none may show."""
    sim.client_skew = src.pick([0.0, 5e5, 17.25])
    sim.now += src.draw(100) + src.pick([0.0, 0.37, 1e7])
    sim.client_pid += src.draw(50)
    sim.client_host = src.pick(['client', 'elsewhere'])
    for _ in range(src.draw(5)):      # shifts every identifier that follows
        DistributedIndividual(np.zeros(1))
        sim.urandom.random()


def tapped():
    pools = []

    @ops.listlist_op
    def tap(pop):
        pools.append(gen.digest(pop))
        return pop
    return pools, tap


def cluster(sim, src, d, cls):
    cl = Cluster(sim, workers=src.size(1, 4, 12), per_host=2, faults=W.cluster_faults(src))
    return TappedClient(cl, History())


def survival(d):
    """Operators before and after the reproductive ones."""
    if d['surv'] == 'none':
        return [], []
    cur = []

    @ops.listlist_op
    def first(pop):
        cur[:] = pop
        return pop
    if d['surv'] == 'truncation':
        return [first], [lambda off: ops.truncation_selection(off, size=d['pop'], parents=list(cur))]
    return [first], [lambda off: ops.insertion_selection(off, parents=list(cur))]


def generational(sim, src, d, s, kw):
    cls = src.pick([DistributedIndividual, RobustIndividual])
    d['surv'] = src.pick(['none', 'none', 'truncation', 'insertion'])
    if d['surv'] != 'none':
        sim.reach(d['surv'])

    def go(client):
        pools, tap = tapped()
        if client is None:
            init = cls.evaluate_population
            tail = [ops.evaluate, ops.pool(size=d['offspring'])]
        else:
            init = synchronous.eval_population(client=client, **kw)
            tail = [synchronous.eval_pool(client=client, size=d['offspring'], **kw)]
        pre, post = survival(d)
        seeds(s)
        final = generational_ea(max_generations=d['gens'], pop_size=d['pop'], problem=prob(d),
                                representation=gen.representation(d, cls), init_evaluate=init,
                                pipeline=pre + gen.breeding(d) + tail + post + [tap], k_elites=d['k'], **kw)
        # the survivors, as a multiset: their order is not promised
        return pools + [sorted(gen.digest(final), key=repr)]
    a = go(None)
    disturb(sim, src)
    b = go(cluster(sim, src, d, cls))
    return a, b


def islands(sim, src, d, s, kw):
    import networkx as nx
    k = src.size(2, 4, 7)
    topo = src.pick([nx.complete_graph, nx.cycle_graph, nx.path_graph])(k)
    gap = src.int(1, 3)
    cls = src.pick([DistributedIndividual, RobustIndividual])

    def go(client):
        pools, tap = tapped()
        if client is None:
            init = cls.evaluate_population
            tail = [ops.evaluate, ops.pool(size=d['pop'])]
        else:
            init = synchronous.eval_population(client=client, **kw)
            tail = [synchronous.eval_pool(client=client, size=d['pop'], **kw)]
        seeds(s)
        pops = multi_population_ea(
            max_generations=d['gens'], num_populations=k, pop_size=d['pop'], problem=prob(d),
            representation=gen.representation(d, cls), init_evaluate=init,
            shared_pipeline=gen.breeding(d) + tail + [
                ops.migrate(topology=topo, emigrant_selector=ops.tournament_selection,
                            replacement_selector=ops.random_selection, migration_gap=gap, **kw),
                tap], **kw)
        return pools + [gen.digest(p) for p in pops]
    a = go(None)
    disturb(sim, src)
    b = go(cluster(sim, src, d, cls) if src.bool(0.8) else None)
    return a, b


def searching(sim, src, d, s, kw):
    n = src.size(1, 12, 60)

    def go():
        seeds(s)
        t = random_search(n, problem=prob(d), representation=gen.representation(d, RobustIndividual),
                          pipeline=[ops.cyclic_selection, ops.clone, gen.mutator(d), ops.evaluate,
                                    ops.pool(size=1)], **kw)
        return [gen.digest([i]) for i in t]
    a = go()
    disturb(sim, src)
    return a, go()


def asyncs(sim, src, d, s, kw):
    """The same completion order must give the same run: the worker that
    computes a result, its clock and its identity are irrelevant."""
    faults = W.cluster_faults(src)
    n_init, n_pop, births = src.size(1, 5, 20), src.size(1, 5, 20), src.size(1, 12, 60)
    workers = src.size(1, 4, 12)
    tape = src.seed32()
    count = src.bool(0.5)
    ins = src.pick([asynchronous.greedy_insert_into_pop, asynchronous.tournament_insert_into_pop])

    base = sim.now

    def go():
        from ..choice import Source
        # same start time: a different one could order two events differently
        # by rounding
        sim.now, sim.queue = base, []
        keep, sim.src = sim.src, Source(seed=tape)     # same schedule and faults
        try:
            cl = Cluster(sim, workers=workers, per_host=2, faults=faults)
            client = TappedClient(cl, History())
            seen, pops = [], []
            seeds(s)
            final = asynchronous.steady_state(
                client, births, n_init, n_pop, gen.representation(d, DistributedIndividual),
                Poison(d['maximize'], d['mode'], d['every']), gen.breeding(d) + [ops.pool(size=1)],
                inserter=ins, count_nonviable=True if d['every'] else count,
                evaluated_probe=lambda i: seen.append(gen.digest([i])),
                pop_probe=lambda p: pops.append(gen.digest(p)), **kw)
        finally:
            sim.src = keep
        return seen + pops + [gen.digest(final)]
    a = go()
    disturb(sim, src)
    return a, go()


def operators(sim, src, d, s, kw):
    """Sequences of single operators, every kind there is, on a population of
    the drawn kind: nothing but the two generators may decide the outcome."""
    from leap_ec.segmented_rep import ops as seg
    from leap_ec.segmented_rep.initializers import create_segmented_sequence
    from leap_ec.executable_rep.cgp import CGPDecoder, cgp_mutate
    from leap_ec.executable_rep.rules import PittRulesDecoder
    from leap_ec.landscape_features.exploratory import ELAConvexity
    from leap_ec.real_rep.ops import genome_mutate_gaussian
    from leap_ec.int_rep.ops import genome_mutate_binomial, individual_mutate_randint
    from leap_ec.binary_rep.ops import genome_mutate_bitflip
    from leap_ec.individual import Individual
    from leap_ec.representation import Representation
    n = d['n']
    b = [(0, 9)] * n
    flat = dict(binary=[genome_mutate_bitflip(expected_num_mutations=1)],
                real=[genome_mutate_gaussian(std=1.0, expected_num_mutations=1)],
                int=[genome_mutate_binomial(std=1.5, bounds=b, expected_num_mutations=1),
                     individual_mutate_randint(bounds=b, expected_num_mutations=1)])[d['kind']]
    names = [src.pick(['breed', 'breed', 'flat', 'segments', 'insert', 'cgp', 'rules', 'ela', 'sus',
                       'worst', 'cycle', 'async_insert']) for _ in range(src.int(1, 5))]
    for x in names:
        sim.event(x)

    def go():
        out = []
        seeds(s)
        p = W.SimProblem(maximize=d['maximize'], mode=d['mode'])
        pop = gen.representation(d, RobustIndividual).create_population(d['pop'], p)
        pop = RobustIndividual.evaluate_population(pop)
        for x in names:
            m = d['pop']
            if x == 'breed':
                got = pop
                for op in gen.breeding(d) + [ops.evaluate, ops.pool(size=m)]:
                    got = op(got)
            elif x == 'flat':
                got = [i.clone() for i in pop]
                for i in got:
                    i.genome = flat[len(out) % len(flat)](i.genome)
            elif x == 'segments':
                mk = create_segmented_sequence(3, gen.initializer(d))
                it = iter([Individual(mk()) for _ in range(4)])
                it = seg.add_segment(it, seq_initializer=gen.initializer(d), probability=0.5)
                it = seg.copy_segment(seg.remove_segment(it, probability=0.5), probability=0.5)
                got = ops.pool(seg.apply_mutation(it, mutator=genome_mutate_bitflip
                                                  if d['kind'] == 'binary' else keep), size=4)
                out.append([[W.freeze(g) for g in i.genome] for i in got])
                continue
            elif x == 'insert':
                off = [i.clone() for i in pop[::-1]]
                for i in off:
                    i.evaluate()
                got = ops.insertion_selection(off, parents=pop)
            elif x == 'async_insert':
                got = []
                for i in pop:
                    asynchronous.tournament_insert_into_pop(i, got, max(1, m // 2))
            elif x == 'cgp':
                dec = CGPDecoder([max, min], 2, 1, 2, 2, max_arity=2, levels_back=1)
                got = [Individual(dec.initializer()()) for _ in range(3)]
                got = ops.pool(cgp_mutate(dec, expected_num_mutations=1)(iter(got)), size=3)
            elif x == 'rules':
                out.append(rules(PittRulesDecoder, genome_mutate_gaussian, individual_mutate_randint))
                continue
            elif x == 'ela':
                if d['kind'] != 'real' or m < 3:
                    continue
                e = ELAConvexity(p, Representation(initialize=gen.initializer(d)), pop, 5)
                out.append([float(v) for v in e.deltas])
                continue
            elif x == 'sus':
                q = [i for i in pop if i.fitness is not None]
                got = take(ops.sus_selection(q, offset=1e4), 2 * m) + \
                    take(ops.proportional_selection(q, offset=1e4), m)
            elif x == 'worst':
                got = take(ops.tournament_selection(pop, k=2, select_worst=True), m) + \
                    take(ops.random_selection(pop), m)
            else:
                got = take(ops.cyclic_selection(pop), 3 * m)
            out.append(gen.digest(got))
            if x in ('breed', 'insert'):
                pop = got
        out.append([random.random(), float(np.random.random())])     # and the generators are where they were
        return out
    a = go()
    disturb(sim, src)
    return a, go()


def keep(segment, expected_num_mutations):
    return segment


def take(it, n):
    return [next(it) for _ in range(n)]


def rules(dec_cls, gauss, randint):
    from gymnasium import spaces
    i, o = spaces.Box(low=0, high=1.0, shape=(2,), dtype=np.float32), spaces.Discrete(3)
    i.seed(5)
    o.seed(6)
    dec = dec_cls(input_space=i, output_space=o)
    from leap_ec.individual import Individual
    inds = [Individual(dec.initializer(num_rules=2)()) for _ in range(2)]
    m = dec.mutator(condition_mutator=gauss(std=0.3, expected_num_mutations=1, bounds=(0, 1)),
                    action_mutator=randint(bounds=[(0, 2)], probability=0.5))
    return [[W.freeze(g) for g in j.genome] for j in take(m(iter(inds)), 2)]
