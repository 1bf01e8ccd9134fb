"""C04: what a distributed evaluation reports is true of the execution that counted."""
import numpy as np

from .. import steady, world as W
from ..cluster import Cluster
from ..steady import TappedClient, History

from leap_ec import ops
from leap_ec.distrib import synchronous
from leap_ec.distrib.individual import DistributedIndividual
from leap_ec.representation import Representation

RUNS = dict(quick=4000, thorough=80000)
RULE = ('one asynchronous or synchronous distributed run with crashes, re-executions, '
        'clock skew and jumps; non-trivial: at least one fault injected, distinct by '
        'the hash of its event sequence')
REAL = W.SEAMS_REAL
STUB = W.SEAMS_STUB
ASSUMPTIONS = ['a worker\'s wall clock advances only while its task works or sleeps']
MUST_REACH = ['reexecuted_elsewhere', 'clock_went_backwards']


def run(sim, src):
    if src.bool(0.6):
        h = steady.run(sim, src, sleep=True, jump=src.pick([0.0, 0.3]))
        got = [ind for _, ind in h.reported]
    else:
        h, got = sync(sim, src)
    subs = {s['uuid']: s for s in h.submitted}
    for ind in got:
        s = subs.get(ind.uuid)
        sim.check(s is not None, 'identity-changed', 'a returned individual was never submitted')
        sim.check(W.freeze(ind.genome) == s['genome'], 'genome-changed', 'genome differs after evaluation')
        sim.check(ind.birth_id == s['birth_id'], 'birth-id-changed',
                  f'{s["birth_id"]} -> {ind.birth_id}')
        sim.check(frozenset(ind.parents) == s['parents'], 'parents-changed', 'lineage differs')
        ts = h.tasks[ind.uuid]
        if len(ts) != 1:
            continue
        t = ts[0]
        ex = t.delivered
        sim.check(ind.hostname == ex['host'], 'wrong-host',
                  f'says {ind.hostname}, evaluated on {ex["host"]}')
        sim.check(ind.pid == ex['pid'], 'wrong-pid', f'says {ind.pid}, was {ex["pid"]}')
        sim.check(abs(ind.start_eval_time - ex['t0']) < 1e-6, 'wrong-start-time',
                  f'says {ind.start_eval_time}, worker clock was {ex["t0"]}')
        sim.check(abs(ind.stop_eval_time - ex['t1']) < 1e-6, 'wrong-stop-time',
                  f'says {ind.stop_eval_time}, worker clock was {ex["t1"]}')
        if ind.is_viable:
            want = h.problem.pure(ind.genome)
            sim.check(W.same_number(ind.fitness, want), 'wrong-fitness',
                      f'{ind.fitness} instead of {want}')
        if len(t.executions) > 1 and len({(e['host'], e['pid']) for e in t.executions}) > 1:
            sim.reach('reexecuted_elsewhere')
        if ex['t1'] < ex['t0']:
            sim.reach('clock_went_backwards')


def sync(sim, src):
    h = History()
    h.genomes = W.Genomes(src)
    h.problem = W.problem_for(src, h.genomes)
    arg, h.ctx = W.fresh_context(src)
    led = W.Ledger(sim)
    led.sleep, led.jump_p = True, src.pick([0.0, 0.3])
    led.fail_p, led.max_failures = src.pick([0.0, 0.3]), 10
    cl = Cluster(sim, workers=src.size(1, 4, 12), per_host=src.int(1, 2),
                 faults=W.cluster_faults(src))
    client = TappedClient(cl, h)
    rep = Representation(initialize=h.genomes.init, decoder=W.SimDecoder(),
                         individual_cls=DistributedIndividual)
    kw = {} if arg is None else {'context': arg}
    pop = rep.create_population(src.size(1, 6, 40), h.problem)
    got = list(synchronous.eval_population(pop, client=client, **kw))
    for _ in range(src.size(0, 3, 12)):
        kids = iter_pipe(got, W.selector(src), ops.clone, h.genomes.mutator(src),
                         synchronous.eval_pool(client=client, size=src.size(1, 6, 40), **kw))
        got = got + kids
    return h, got


def iter_pipe(x, *fs):
    for f in fs:
        x = f(x)
    return x
