"""The asynchronous steady-state workload and its recorded history.

Shared by C01-C05, C07 and C14: each of them runs its own seeds through this
workload and checks its own oracle over the history.
"""
import numpy as np

from . import world as W
from .cluster import Cluster, Client
from .world import snap

from leap_ec import ops
from leap_ec.individual import Individual, RobustIndividual
from leap_ec.distrib.individual import DistributedIndividual
from leap_ec.distrib import asynchronous
from leap_ec.distrib.logger import WorkerLoggerPlugin
from leap_ec.representation import Representation


class History:
    def __init__(self):
        self.submitted = []      # snap
        self.tasks = {}          # uuid -> [task]
        self.reported = []       # (snap, individual)
        self.inserts = []        # dict(ind, before, after, max)
        self.pop_probes = []     # list of uuid lists
        self.final = None
        self.created_batches = []   # sizes


class TappedClient(Client):
    """Client that tells the history what was submitted."""

    def __init__(self, cluster, hist):
        super().__init__(cluster)
        self.hist = hist

    def _submit(self, fn, args, kwargs, key, pure):
        inds = [a for a in list(args) + list(kwargs.values())
                if isinstance(a, Individual)]
        snaps = [snap(i) for i in inds]
        f = super()._submit(fn, args, kwargs, key, pure)
        for s in snaps:
            self.hist.submitted.append(s)
            self.hist.tasks.setdefault(s['uuid'], []).append(f._task)
        return f


def configure(sim, src, **force):
    c = dict(
        workers=src.size(1, 5, 20), per_host=src.int(1, 3),
        init=src.size(1, 6, 30), pop=src.size(1, 6, 30), max_births=src.size(0, 18, 120),
        batch=src.weighted([(6, 1), (2, 2), (2, 4), (1, 9)]),
        count_nonviable=src.bool(0.5),
        inserter=src.pick(['greedy', 'tournament']),
        fail_p=src.weighted([(2, 0.0), (2, 0.15), (2, 0.4), (1, 0.8)]),
        max_failures=src.size(1, 25, 100),
        cls=DistributedIndividual,
        where=src.pick([('problem',), ('problem', 'decoder')]),
        sleep=src.bool(0.5), jump=src.pick([0.0, 0.2]),
        logger=src.bool(0.15), crossover=src.bool(0.4),
        lose=False, probes=True, defaults=src.bool(0.15))
    if c['defaults']:
        c['inserter'] = 'greedy'
    c.update(force)
    return c


def run(sim, src, on_report=None, on_pop=None, genomes=None, **force):
    c = configure(sim, src, **force)
    h = History()
    h.cfg = c
    h.genomes = genomes or W.Genomes(src)
    h.problem = W.problem_for(src, h.genomes)
    h.ctx_arg, h.ctx = W.fresh_context(src)
    led = W.Ledger(sim)
    led.fail_p, led.max_failures = c['fail_p'], c['max_failures']
    led.where, led.sleep, led.jump_p = c['where'], c['sleep'], c['jump']
    h.ledger = led
    cl = Cluster(sim, workers=c['workers'], per_host=c['per_host'],
                 faults=W.cluster_faults(src, lose=c['lose']))
    client = TappedClient(cl, h)
    h.cluster = cl
    if c['logger']:
        client.register_worker_plugin(WorkerLoggerPlugin(verbose=src.bool(0.5)))
    rep = Representation(initialize=h.genomes.init, decoder=W.SimDecoder(),
                         individual_cls=c['cls'])
    pipeline = [W.selector(src), ops.clone, h.genomes.mutator(src)]
    if c['crossover']:
        pipeline.append(h.genomes.crossover(src))
    pipeline.append(ops.pool(size=c['batch']))
    h.names = W.Names()

    real_inserter = {'greedy': asynchronous.greedy_insert_into_pop,
                     'tournament': asynchronous.tournament_insert_into_pop}[c['inserter']]
    h.pop_object = None

    def inserter(ind, pop, size, *a, **k):
        h.pop_object = pop
        before = [(i, snap(i)) for i in pop]
        s = snap(ind)
        sim.event(f'insert {h.names(ind.uuid)}')
        real_inserter(ind, pop, size, *a, **k)
        h.inserts.append(dict(ind=ind, snap=s, before=before,
                              after=[(i, snap(i)) for i in pop], size=size))

    arrived = []

    def evaluated_probe(ind):
        h.reported.append((snap(ind), ind))
        arrived.append((ind, snap(ind)))
        if on_report:
            on_report(h, ind)

    def pop_probe(pop):
        if c['defaults']:
            # the library's own inserter: what it did shows in the population
            h.pop_object = pop
            ind, s = arrived[-1]
            sim.event(f'insert {h.names(ind.uuid)}')
            h.inserts.append(dict(ind=ind, snap=s, before=h.inserts[-1]['after'] if h.inserts else [],
                                  after=[(i, snap(i)) for i in pop], size=c['pop']))
        h.pop_probes.append(([i.uuid for i in pop], len(h.inserts)))
        if on_pop:
            on_pop(h, pop)

    kw = {}
    if h.ctx_arg is not None:
        kw['context'] = h.ctx_arg
    h.error = None
    if not c['probes']:
        c['defaults'] = False
    else:
        kw.update(evaluated_probe=evaluated_probe, pop_probe=pop_probe)
    if not c['defaults']:
        kw['inserter'] = inserter
    try:
        h.final = asynchronous.steady_state(
            client, c['max_births'], c['init'], c['pop'], rep, h.problem, pipeline,
            count_nonviable=c['count_nonviable'],
            **kw)
    except Exception as e:
        if c['lose'] or c.get('may_raise'):
            h.error = e
        else:
            raise
    if led.failures:
        sim.reach('run_with_failures')
    sim.sample = dict(workers=c['workers'], init=c['init'], pop=c['pop'],
                      max_births=c['max_births'], batch=c['batch'],
                      count_nonviable=c['count_nonviable'], inserter=c['inserter'],
                      faults=dict(sim.faults), tasks=len(cl.order),
                      trace=sim.log[:12])
    return h
