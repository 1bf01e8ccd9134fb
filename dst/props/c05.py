"""C05: a failing evaluation is contained, marked and counted."""
import math

from .. import steady, world as W
from ..cluster import Cluster
from ..steady import TappedClient, History
from .c04 import iter_pipe

from leap_ec import ops
from leap_ec.individual import Individual, RobustIndividual
from leap_ec.distrib import synchronous
from leap_ec.distrib.individual import DistributedIndividual
from leap_ec.representation import Representation

RUNS = dict(quick=8000, thorough=80000)
RULE = ('one run of an asynchronous, synchronous or serial evaluation workload in which '
        'evaluations or decodings raise a drawn exception at drawn points; non-trivial: '
        'at least one fault injected, distinct by the hash of its event sequence')
REAL = W.SEAMS_REAL
STUB = W.SEAMS_STUB
ASSUMPTIONS = ['exceptions raised by the application can be pickled']
MUST_REACH = ['failed', 'recovered_after_failed_parent', 'counter_checked', 'nan_is_a_value']


def run(sim, src):
    mode = src.pick(['async', 'sync', 'serial'])
    if mode == 'async':
        h = steady.run(sim, src, fail_p=src.pick([0.15, 0.4, 0.8]))
        got = [i for _, i in h.reported]
        tasks = {u: t[0] for u, t in h.tasks.items() if len(t) == 1}
    elif mode == 'sync':
        h, got = sync(sim, src)
        tasks = {u: t[0] for u, t in h.tasks.items() if len(t) == 1}
    else:
        h, got = serial(sim, src)
        tasks = {}
    judge(sim, h, got, tasks)
    if mode != 'serial':
        bad = sum(1 for i in got if i.is_viable is False)
        n = h.ctx['leap'].get('distrib', {}).get('non_viable', 0)
        sim.check(n == bad, 'failure-count',
                  f'{bad} individuals failed evaluation, the run state says {n}')
        if bad:
            sim.reach('counter_checked')


def judge(sim, h, got, tasks):
    failed_uuid = set()
    for ind in got:
        e = h.truth[ind.uuid] if hasattr(h, 'truth') else None
        if tasks:
            t = tasks.get(ind.uuid)
            if t is None:
                continue
        ok = getattr(ind, 'is_viable', None)
        sim.check(ok in (True, False), 'viability-missing', f'is_viable is {ok!r}')
        exc = getattr(ind, 'exception', None)
        if ok:
            want = h.problem.pure(ind.genome)
            if W.isnan(want):
                sim.reach('nan_is_a_value')
            sim.check(type(ind.fitness) is type(want), 'wrong-fitness',
                      f'a successful evaluation returned {want!r}, fitness is {ind.fitness!r}')
            sim.check(W.same_number(ind.fitness, want), 'wrong-fitness',
                      f'a successful evaluation has fitness {ind.fitness!r}, expected {want!r}')
            sim.check(exc is None, 'stale-exception',
                      f'successfully evaluated, but carries {exc!r}')
            if ind.parents & failed_uuid:
                sim.reach('recovered_after_failed_parent')
        else:
            failed_uuid.add(ind.uuid)
            sim.reach('failed')
            sim.check(isinstance(ind.fitness, float) and math.isnan(ind.fitness),
                      'failed-fitness-not-nan', f'failed, fitness {ind.fitness!r}')
            sim.check(isinstance(exc, Exception), 'exception-not-kept', f'failed, exception {exc!r}')
        if e is not None:
            sim.check(ok == (e[0] == 'ok'), 'viability-wrong', f'{e} reported as viable={ok}')
            if e[0] != 'ok':
                sim.check(type(exc) is type(e[1]) and exc.args == e[1].args, 'wrong-exception',
                          f'{e[1]!r} reported as {exc!r}')
                sim.check(exc is e[1], 'wrong-exception', 'not the exception that was raised')
    # what the application actually did, against what was reported
    if tasks:
        for ind in got:
            t = tasks.get(ind.uuid)
            if t is None or t.delivered is None:
                continue
            err = t.delivered.get('app_error')
            sim.check((err is None) == bool(ind.is_viable), 'viability-wrong',
                      f'evaluation {"failed with " + repr(err) if err else "succeeded"}, '
                      f'reported viable={ind.is_viable}')
            if err is not None:
                sim.check(type(ind.exception) is type(err) and ind.exception.args == err.args,
                          'wrong-exception', f'{err!r} reported as {ind.exception!r}')


def sync(sim, src):
    h = History()
    h.genomes = W.Genomes(src)
    h.problem = W.problem_for(src, h.genomes)
    h.problem.nans = src.bool(0.3)
    arg, h.ctx = W.fresh_context(src)
    led = W.Ledger(sim)
    led.fail_p, led.max_failures = src.pick([0.2, 0.5, 1.0]), src.size(1, 20, 80)
    led.where = src.pick([('problem',), ('problem', 'decoder')])
    cl = Cluster(sim, workers=src.int(1, 4), per_host=src.int(1, 2), faults=W.cluster_faults(src))
    client = TappedClient(cl, h)
    h.cluster = cl
    rep = Representation(initialize=h.genomes.init, decoder=W.SimDecoder(),
                         individual_cls=DistributedIndividual)
    kw = {} if arg is None else {'context': arg}
    pop = rep.create_population(src.size(1, 6, 40), h.problem)
    got = list(synchronous.eval_population(pop, client=client, **kw))
    sel = W.selector(src)
    for _ in range(src.size(0, 3, 12)):
        n = src.size(1, 6, 40)
        kids = iter_pipe(got, sel, ops.clone, h.genomes.mutator(src),
                         synchronous.eval_pool(client=client, size=n, **kw))
        sim.check(len(kids) == n, 'individual-lost', f'{len(kids)} of {n} came back')
        got = got + kids
        if src.bool(0.15):
            sim.check(list(synchronous.eval_population([], client=client, **kw)) == [], 'individual-lost',
                      'individuals out of nothing')
            sim.reach('empty_population')
    return h, got


def serial(sim, src):
    h = History()
    h.genomes = W.Genomes(src)
    h.problem = W.problem_for(src, h.genomes)
    h.problem.nans = src.bool(0.3)
    W.fresh_context(src)
    led = W.Ledger(sim)
    led.fail_p, led.max_failures = src.pick([0.2, 0.5, 1.0]), src.size(1, 20, 80)
    led.where = src.pick([('problem',), ('problem', 'decoder')])
    cls = src.pick([RobustIndividual, DistributedIndividual])
    rep = Representation(initialize=h.genomes.init, decoder=W.SimDecoder(), individual_cls=cls)
    h.truth = {}
    pop = rep.create_population(src.size(1, 6, 40), h.problem)
    alive = []
    for ind in pop:
        one(sim, led, h, ind, lambda: ind.evaluate())
        alive.append(ind)
    gen = h.genomes.mutator(src)(ops.clone(W.selector(src)(alive)))
    ev = ops.evaluate(gen)
    got = list(alive)
    for _ in range(src.int(0, 8)):
        n0 = len(led.entries)
        before = [W.snap(i) for i in got]
        kid = next(ev)
        h.truth[kid.uuid] = outcome(led, n0)
        sim.event(f'eval {h.truth[kid.uuid][0]}')
        for b, i in zip(before, got):
            sim.check(W.same_number(b['fitness'], i.fitness) and b['genome'] == W.freeze(i.genome)
                      and b['viable'] == i.is_viable, 'others-affected',
                      'evaluating one individual changed another')
        got.append(kid)
    # re-evaluate some: a failed one may now succeed and vice versa
    for ind in src.subset(got, 0.3):
        one(sim, led, h, ind, lambda: ind.evaluate())
        judge(sim, h, [ind], {})
    return h, got


def one(sim, led, h, ind, f):
    n0 = len(led.entries)
    f()
    h.truth[ind.uuid] = outcome(led, n0)
    sim.event(f'eval {h.truth[ind.uuid][0]}')


def outcome(led, n0):
    for e in led.entries[n0:]:
        if 'error' in e:
            return ('failed', e['error'])
    return ('ok', None)
