"""C06: synchronous distributed evaluation is an order-preserving, complete map."""
import itertools
from collections import Counter

from .. import gen, world as W
from ..cluster import Cluster
from ..steady import TappedClient, History

from leap_ec import ops
from leap_ec.algorithm import generational_ea
from leap_ec.distrib import synchronous
from leap_ec.distrib.individual import DistributedIndividual
from leap_ec.individual import Individual, RobustIndividual

RUNS = dict(quick=8000, thorough=80000)
RULE = ('a sequence of synchronous distributed evaluations (whole populations, pools pulled '
        'from a pipeline, complete generational runs) on the simulated cluster; non-trivial: '
        'at least one fault injected, distinct by the hash of its event sequence')
REAL = W.SEAMS_REAL
STUB = W.SEAMS_STUB
ASSUMPTIONS = ['a pipeline that runs dry before the pool is full is an error']
MUST_REACH = ['loss_reported', 'application_error_reported', 'task_reexecuted',
              'completed_out_of_order', 'asked_twice', 'source_ran_dry', 'empty_population', 'generational',
              'evaluated_again']


class Upstream:
    """Iterator that counts how often it is asked."""

    def __init__(self, it):
        self.it, self.given = it, []

    def __iter__(self):
        return self

    def __next__(self):
        x = next(self.it)
        self.given.append(x)
        return x


def run(sim, src):
    mode = src.weighted([(4, 'ok'), (1, 'lose'), (1, 'plain'), (2, 'ea')])
    h = History()
    d = gen.draw(src, gens=(0, 4))
    sim.event(f'plan {sorted(d.items())}')
    problem = gen.problem(d)
    arg, ctx = W.fresh_context(src)
    led = W.Ledger(sim)
    led.sleep = src.bool(0.3)
    cls = src.pick([DistributedIndividual, RobustIndividual])
    if mode == 'plain':
        cls = Individual
        led.fail_p, led.max_failures = 0.15, src.int(1, 3)
    elif mode in ('ok', 'ea'):
        led.fail_p = src.pick([0.0, 0.0, 0.3])
        led.max_failures = 10 if d['sel'] < 5 else 0
    cl = Cluster(sim, workers=src.size(1, 5, 20), per_host=src.int(1, 2),
                 faults=W.cluster_faults(src, lose=mode == 'lose'))
    client = TappedClient(cl, h)
    rep = gen.representation(d, cls)
    kw = {} if arg is None else {'context': arg}
    if mode == 'ea':
        return whole(sim, src, d, h, problem, rep, client, cl, kw)

    population = None
    for step in range(src.size(1, 5, 15)):
        n0, t0 = len(h.submitted), len(cl.order)
        upstream = None
        if population is None or src.bool(0.4):
            inds = rep.create_population(src.size(0, 9, 60), problem)
            call = lambda: synchronous.eval_population(inds, client=client, **kw)
            if src.bool(0.3):
                call = lambda: synchronous.eval_population(client=client, **kw)(inds)
            if population is not None and src.bool(0.3):
                # again: a second evaluation is an evaluation
                inds = list(population) if src.bool(0.5) else inds + list(population)
                sim.reach('evaluated_again')
            if inds and src.bool(0.1):
                # the same individual may be asked for twice
                inds.insert(src.draw(len(inds) + 1), src.pick(inds))
                sim.reach('asked_twice')
            sent = list(inds)
            if not sent:
                sim.reach('empty_population')
        else:
            size = src.size(0, 9, 60)
            up = population
            if src.bool(0.2):
                # whoever comes, evaluated before or not
                fresh = rep.create_population(size, problem)
                up = iter([src.pick([a, b]) for a, b in zip(itertools.cycle(population), fresh)])
                size = len(fresh)
                sim.reach('evaluated_again')
            else:
                for f in gen.breeding(d):
                    up = f(up)
            short = size > 0 and src.bool(0.06)
            upstream = Upstream(itertools.islice(up, src.draw(size)) if short else up)
            inds = upstream
            call = lambda: synchronous.eval_pool(upstream, client=client, size=size, **kw)
            sent = upstream.given
        try:
            out = call()
        except Exception as e:
            if upstream is not None and short:
                sim.reach('source_ran_dry')
                continue
            bad = [t for t in cl.order[t0:] if t.state in ('error', 'cancelled')]
            if mode == 'lose':
                sim.check(bad, 'spurious-error', repr(e))
                sim.reach('loss_reported')
                return
            if mode == 'plain':
                sim.check(bad, 'spurious-error', repr(e))
                errs = [t.executions[-1]['app_error'] for t in bad]
                sim.check(any(type(x) is type(e) and x.args == e.args for x in errs), 'wrong-error',
                          f'raised {e!r}, the application raised {errs!r}')
                sim.reach('application_error_reported')
                return
            raise
        bad = [t for t in cl.order[t0:] if t.state in ('error', 'cancelled')]
        sim.check(not bad, 'silent-loss', f'{len(bad)} evaluations have no result, and the '
                                          f'evaluation returned normally')
        if upstream is not None:
            sim.check(not short, 'short-pool', f'{len(out)} individuals instead of {size}, and no error')
            sim.check(len(upstream.given) == size, 'pulled-wrong-number',
                      f'{len(upstream.given)} individuals were pulled for a pool of {size}')
        sim.check(isinstance(out, list), 'not-a-list', type(out).__name__)
        want = [i.uuid for i in sent]
        got = [i.uuid for i in out]
        sim.check(len(got) == len(want), 'wrong-count', f'{len(want)} sent, {len(got)} returned')
        sim.check(got == want, 'wrong-order' if Counter(got) == Counter(want) else 'wrong-individuals',
                  'returned individuals are not, in order, the ones sent')
        judge(sim, problem, out, d)
        for u in want:
            c = sum(1 for s in h.submitted[n0:] if s['uuid'] == u)
            sim.check(c == want.count(u), 'evaluated-wrong-number-of-times',
                      f'an individual was submitted {c} times')
        for s in h.submitted[n0:]:
            sim.check(s['uuid'] in want, 'evaluated-unknown', 'evaluated something that was not asked for')
        once(sim, cl.order[t0:])
        if any(len(t.executions) > 1 for t in cl.order[t0:]):
            sim.reach('task_reexecuted')
        done = [e for e in sim.log if ' done ' in e]
        idx = [int(e.rsplit(' ', 1)[1]) for e in done]
        if idx != sorted(idx):
            sim.reach('completed_out_of_order')
        if out:
            population = out
    sim.sample = dict(plan={k: v for k, v in d.items()}, mode=mode, faults=dict(sim.faults),
                      tasks=len(cl.order), trace=sim.log[:12])


def once(sim, tasks):
    for t in tasks:
        if t.state == 'finished':
            sim.check(t.delivered['evaluations'] == 1, 'not-evaluated-once',
                      f'{t.delivered["evaluations"]} evaluations for one individual')


def judge(sim, problem, out, d):
    for i in out:
        if getattr(i, 'is_viable', True):
            want = problem.pure(i.genome * d['decoder'])
            sim.check(W.same_number(i.fitness, want), 'wrong-fitness',
                      f'{i.fitness} instead of {want}')
        else:
            sim.check(W.isnan(i.fitness), 'wrong-fitness', f'failed, but fitness {i.fitness}')


def whole(sim, src, d, h, problem, rep, client, cl, kw):
    """A complete generational run whose evaluations are distributed."""
    sim.reach('generational')
    pools = []

    @ops.listlist_op
    def tap(pop):
        pools.append([i.uuid for i in pop])
        judge(sim, problem, pop, d)
        return pop
    k = d['k']
    pulled = []

    def pool(it):
        up = Upstream(it)
        out = synchronous.eval_pool(up, client=client, size=d['offspring'], **kw)
        pulled.extend(i.uuid for i in up.given)
        return out
    final = generational_ea(
        max_generations=d['gens'], pop_size=d['pop'], problem=problem, representation=rep,
        init_evaluate=synchronous.eval_population(client=client, **kw),
        pipeline=gen.breeding(d) + [pool, tap],
        k_elites=k, **kw)
    once(sim, cl.order)
    sim.check(len(h.submitted) == d['pop'] + d['gens'] * d['offspring'], 'evaluation-count',
              f'{len(h.submitted)} evaluations for {d["pop"]} + {d["gens"]} x {d["offspring"]}')
    order = [s['uuid'] for s in h.submitted][d['pop']:]
    flat = [u for p in pools for u in p]
    sim.check(sorted(map(str, flat)) == sorted(map(str, order)), 'wrong-individuals',
              'a generation does not consist of the offspring sent for evaluation')
    sim.check(flat == pulled, 'wrong-order', 'offspring came back in another order')
    judge(sim, problem, final, d)
