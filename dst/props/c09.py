"""C09: generational runs keep their best, their size, their count, and can be resumed."""
import pickle
import random

import numpy as np

from .. import gen, world as W

from leap_ec import ops
from leap_ec.algorithm import generational_ea, random_search, stop_at_generation
from leap_ec.distrib.individual import DistributedIndividual
from leap_ec.individual import Individual, RobustIndividual
from leap_ec.parsimony import koza_parsimony, lexical_parsimony
from leap_ec.representation import Representation

RUNS = dict(quick=9000, thorough=100000)
RULE = ('one generational run with drawn operators, population sizes, elitism and evaluation '
        'failures, observed at every generation; or the same run crashed at a drawn evaluation '
        'and resumed from its last intact checkpoint; or a drawn sequence of survivor '
        'selections; non-trivial: a failed evaluation, a crash or a survivor selection, '
        'distinct by the hash of its event sequence')
REAL = W.SEAMS_REAL
STUB = ['the fitness function, the crash and the checkpoint medium (simulated)']
ASSUMPTIONS = ['a checkpoint holds the population, the generation number and the states of the '
               'two random number generators, and is taken where the run asks whether to stop',
               'operators keep no children between pipelines']
MUST_REACH = ['resumed', 'resumed_from_older_checkpoint', 'stopped_early', 'elite_survived',
              'failed_evaluations', 'insertion', 'truncation', 'start_generation',
              'parsimony', 'parsimony_with_failures', 'wrapped_problem', 'random_search']


class Crash(BaseException):
    """The process dies."""


def run(sim, src):
    mode = src.weighted([(4, 'run'), (3, 'resume'), (3, 'survival'), (1, 'walk')])
    sim.event(mode)
    if mode == 'run':
        observed(sim, src)
    elif mode == 'resume':
        resume(sim, src)
    elif mode == 'walk':
        walk(sim, src)
    else:
        survival(sim, src)


def val(up, ind):
    """Sort key: bigger is better, failed is worst."""
    f = ind.fitness
    if W.isnan(f):
        return (0, 0.0)
    return (1, float(f) if up else -float(f))


def observed(sim, src):
    d = gen.draw(src, pop=(1, 8), gens=(0, 7))
    sim.event(f'plan {sorted(d.items())}')
    problem, up = gen.wrapped(sim, src, gen.problem(d))
    arg, ctx = W.fresh_context(src)
    kw = {} if arg is None else {'context': arg}
    led = W.Ledger(sim)
    cls = src.pick([Individual, RobustIndividual, DistributedIndividual])
    if cls is not Individual and d['sel'] < 5:
        led.fail_p, led.max_failures = src.pick([0.0, 0.3, 0.7]), src.size(1, 20, 80)
    start = src.weighted([(2, 0), (1, src.int(1, 4))])
    maxg = start + d['gens'] if src.bool(0.8) else max(0, start - src.draw(2))
    stop_after = src.pick([None, None, src.int(0, d['gens'])])
    seen = []          # populations shown to stop()
    pools = []         # offspring of each generation
    gens = []

    def stop(pop):
        seen.append([(i, W.snap(i)) for i in pop])
        sim.event('ask')
        return stop_after is not None and len(seen) > stop_after

    @ops.listlist_op
    def tap(pop):
        gens.append(ctx['leap'].get('generation'))
        pools.append([(i, W.snap(i)) for i in pop])
        return pop
    lib_stop = src.bool(0.2) and stop_after is not None
    if lib_stop:
        inner = stop_at_generation(start + stop_after, **kw)
        use = lambda pop: bool(stop(pop)) | inner(pop)
    else:
        use = stop
    final = generational_ea(
        max_generations=maxg, pop_size=d['pop'], problem=problem,
        representation=gen.representation(d, cls),
        pipeline=gen.breeding(d) + [ops.evaluate, ops.pool(size=d['offspring']), tap],
        stop=use, k_elites=d['k'], start_generation=start, **kw)
    want = max(0, maxg - start)
    if stop_after is not None:
        want = min(want, stop_after)
        if want < maxg - start:
            sim.reach('stopped_early')
    if start:
        sim.reach('start_generation')
    sim.check(len(pools) == want, 'wrong-number-of-generations',
              f'{len(pools)} generations were run instead of {want} (max {maxg}, start {start})')
    sim.check(gens == list(range(start, start + want)), 'generation-number',
              f'the run state counted {gens}, expected {start}..{start + want - 1}')
    sim.check(ctx['leap']['generation'] == start + want, 'generation-number',
              f'final generation {ctx["leap"]["generation"]}, expected {start + want}')
    # populations: initial one, then one per generation
    pops = [s for s in seen]
    if len(pops) == want:         # not asked after the last generation
        pops.append([(i, W.snap(i)) for i in final])
    sim.check(len(pops) == want + 1, 'stop-not-asked',
              f'the stopping criterion saw {len(seen)} populations in {want} generations')
    sim.check(len(pops[0]) == d['pop'], 'wrong-initial-size', f'{len(pops[0])} instead of {d["pop"]}')
    sim.check([id(i) for i in final] == [id(i) for i, _ in pops[-1]], 'wrong-final-population',
              'the returned population is not the last one')
    for g in range(want):
        parents, kids, after = pops[g], pools[g], pops[g + 1]
        sim.check(len(after) == len(kids), 'wrong-size',
                  f'generation {g}: {len(after)} survivors of {len(kids)} offspring')
        ids_p, ids_k = {id(i) for i, _ in parents}, {id(i) for i, _ in kids}
        ids_a = [id(i) for i, _ in after]
        sim.check(len(set(ids_a)) == len(ids_a) or len(ids_k) < len(kids), 'duplicated-survivor',
                  f'generation {g}: one individual survives twice')
        sim.check(set(ids_a) <= ids_p | ids_k, 'unknown-survivor', f'generation {g}')
        old = [x for x in ids_a if x in ids_p and x not in ids_k]
        sim.check(len(old) <= d['k'], 'too-many-parents-survive', f'{len(old)} > k={d["k"]}')
        if old:
            sim.reach('elite_survived')
        elites = sorted((val(up, i) for i, _ in parents), reverse=True)[:d['k']]
        expect = sorted(elites + [val(up, i) for i, _ in kids], reverse=True)[:len(kids)]
        got = sorted((val(up, i) for i, _ in after), reverse=True)
        sim.check(got == expect, 'wrong-survivors',
                  f'generation {g}: survivors {got} instead of {expect} (k={d["k"]})')
        if d['k'] >= 1 and kids:
            best_p = max(val(up, i) for i, _ in parents)
            sim.check(max(got) >= best_p, 'best-lost', f'generation {g}: {best_p} -> {max(got)}')
        for (i, s) in parents:
            sim.check(W.same_number(i.fitness, s['fitness']) and W.freeze(i.genome) == s['genome'],
                      'parent-altered', f'generation {g}: a parent changed')
    W.check_order(sim, src, [i for pop in pops for i, _ in pop], up)
    if led.failures:
        sim.reach('failed_evaluations')
    sim.sample = dict(mode='run', plan=d, start=start, generations=want, faults=dict(sim.faults))


def walk(sim, src):
    """Random search: a walk of exactly the given number of evaluated individuals."""
    d = gen.draw(src)
    d['sel'] = 2
    problem, up = gen.wrapped(sim, src, gen.problem(d))
    arg, ctx = W.fresh_context(src)
    kw = {} if arg is None else {'context': arg}
    led = W.Ledger(sim)
    led.fail_p, led.max_failures = src.pick([0.0, 0.3, 0.7]), 1000
    budget = src.size(1, 12, 60)
    given, steps, produced = [], [], []

    def first(stream):
        def tap():
            for i in stream:
                given.append(i)
                steps.append(ctx['leap'].get('generation'))
                yield i
        return tap()

    def last(pop):
        produced.extend(pop)
        sim.event(f'step {len(produced)}')
        return pop
    res = random_search(budget, problem, gen.representation(d, RobustIndividual),
                        [ops.cyclic_selection, first, ops.clone, gen.mutator(d), ops.evaluate, ops.pool(size=1), last],
                        **kw)
    sim.reach('random_search')
    sim.check(len(res) == budget, 'wrong-budget', f'{len(res)} individuals for a budget of {budget}')
    sim.check(len(produced) == budget - 1 and all(a is b for a, b in zip(res[1:], produced)), 'wrong-walk',
              f'{len(produced)} steps were taken, {len(res) - 1} returned, or others')
    sim.check(len(given) == budget - 1 and all(a is b for a, b in zip(given, res)), 'wrong-walk',
              'a step does not start where the one before ended')
    sim.check(steps == list(range(1, budget)), 'wrong-generation', f'steps are published as {steps}')
    sim.check(ctx['leap'].get('generation') == budget, 'wrong-generation',
              f'{ctx["leap"].get("generation")} published after {budget} evaluations')
    for i in res:
        sim.check(i.fitness is not None, 'not-evaluated', 'an individual of the walk has no fitness')
    failed = sum(W.isnan(i.fitness) for i in res)
    if failed:
        sim.reach('failed_evaluations')
    sim.check(all(hasattr(i, 'exception') and i.exception is not None for i in res if W.isnan(i.fitness)),
              'failure-unmarked', '')
    sim.sample = dict(mode='walk', budget=budget, failed=failed, faults=dict(sim.faults))


def resume(sim, src):
    d = gen.draw(src, pop=(1, 6), gens=(1, 7))
    sim.event(f'plan {sorted(d.items())}')
    arg, ctx = W.fresh_context(src)
    kw = {} if arg is None else {'context': arg}
    cls = src.pick([Individual, DistributedIndividual])
    s = src.seed32()

    def rng():
        return random.getstate(), np.random.get_state()

    def go(start, seedpop, medium, crash_at=None):
        led = W.Ledger(sim)
        problem = gen.problem(d)
        count = [0]
        if crash_at is not None:
            real = problem.evaluate

            def evaluate(ph, *a, **k):
                count[0] += 1
                if count[0] == crash_at:
                    sim.fault('crash')
                    raise Crash()
                return real(ph, *a, **k)
            problem.evaluate = evaluate
        trace = []

        def stop(pop):
            trace.append((ctx['leap']['generation'], [x[:2] for x in gen.digest(pop)]))
            if medium is not None:
                blob = pickle.dumps(([(i.genome, i.fitness) for i in pop],
                                     ctx['leap']['generation'], rng()))
                medium.append(blob)
            return False
        if seedpop is None:
            rep, extra = gen.representation(d, cls), {}
        else:
            class Seeded(Representation):
                def create_population(self, n, problem):
                    out = []
                    for g, f in seedpop:
                        i = cls(g, decoder=self.decoder, problem=problem)
                        i.fitness = f
                        out.append(i)
                    random.setstate(state[0])
                    np.random.set_state(state[1])
                    return out
            rep = Seeded(initialize=gen.initializer(d), decoder=W.SimDecoder(d['decoder']),
                         individual_cls=cls)
            extra = dict(init_evaluate=lambda p: p)
        final = generational_ea(
            max_generations=d['gens'], pop_size=d['pop'], problem=problem, representation=rep,
            pipeline=gen.breeding(d) + [ops.evaluate, ops.pool(size=d['offspring'])],
            stop=stop, k_elites=d['k'], start_generation=start, **extra, **kw)
        trace.append(('final', [x[:2] for x in gen.digest(final)]))
        return trace
    random.seed(s)
    np.random.seed(s)
    reference = go(0, None, None)
    total = d['pop'] + d['gens'] * d['offspring']
    crash_at = src.int(1, total)
    random.seed(s)
    np.random.seed(s)
    medium = []
    state = None
    try:
        go(0, None, medium, crash_at)
        sim.fail('crash-not-reached', f'evaluation {crash_at} of {total} never happened')
    except Crash:
        pass
    if not medium:
        return               # crashed in the initial evaluation: nothing durable
    if src.bool(0.4) and len(medium) > 1:
        sim.fault('torn_checkpoint')
        medium.pop()          # detected as torn, the one before counts
        sim.reach('resumed_from_older_checkpoint')
    inds, g, state = pickle.loads(medium[-1])
    # the process that resumes has random state and a context of its own
    random.seed(src.seed32())
    np.random.seed(src.seed32())
    ctx['leap'].pop('generation', None)
    got = go(g, inds, None)
    sim.reach('resumed')
    want = [t for t in reference if t[0] == 'final' or t[0] >= g]
    sim.check(len(got) == len(want), 'resumed-run-length',
              f'resumed at {g}: {len(got)} steps instead of {len(want)}')
    for a, b in zip(want, got):
        sim.check(a[0] == b[0], 'resumed-generation-number', f'{b[0]} instead of {a[0]}')
        sim.check(a[1] == b[1], 'resumed-run-differs',
                  f'resumed at generation {g}, population at {a[0]} differs from the uninterrupted run')
    sim.sample = dict(mode='resume', plan=d, crashed_at_evaluation=crash_at, resumed_at=g)


def survival(sim, src):
    """Survivor selection on drawn populations, several rounds."""
    sim.nontrivial = True
    d = gen.draw(src)
    sim.event(f'plan {sorted(d.items())}')
    problem, up = gen.wrapped(sim, src, gen.problem(d))
    led = W.Ledger(sim)
    led.fail_p, led.max_failures = src.pick([0.0, 0.4]), 10
    rep = gen.representation(d, RobustIndividual)
    ragged = src.bool(0.6)        # genomes of different lengths

    def create():
        inds = rep.create_population(src.size(1, 7, 30), problem)
        if ragged:
            for i in inds:
                i.genome = i.genome[:1 + src.draw(len(i.genome))]
        return RobustIndividual.evaluate_population(inds)

    def val(up, ind):
        # what the survivors are compared by: bigger is better, failed is worst
        v = globals()['val'](up, ind)
        if how_key == 'lexical':
            return v + (-len(ind.genome),) if v[0] else v
        if how_key == 'koza' and v[0]:
            return (1, v[1] - penalty * len(ind.genome))
        return v
    parents = create()
    for _ in range(src.int(1, 4)):
        kids = create()
        bad = any(W.isnan(i.fitness) for i in parents + kids)
        how_key = src.weighted([(3, None), (2, 'lexical'), (4, 'koza'), (0 if bad else 2, 'fitness')])
        penalty = src.pick([0.5, 2.0, 0.0, -1.0, 40.0])
        if bad and any(np.isinf(i.fitness) for i in parents + kids):
            how_key = None        # a key that is as bad as failed
        if not hasattr(problem, 'maximize') and how_key in ('lexical', 'koza'):
            how_key = None        # the keys ask the problem for its direction
        key = dict(lexical=lexical_parsimony, koza=koza_parsimony(penalty=penalty),
                   fitness=(lambda i: i.fitness) if up else (lambda i: -i.fitness)).get(how_key)
        kk = {} if key is None else {'key': key}
        if how_key in ('lexical', 'koza'):
            sim.reach('parsimony')
            if bad:
                sim.reach('parsimony_with_failures')
        how = src.pick(['truncation', 'truncation+', 'insertion', 'elitist', 'elitist'])
        before_p, before_k = list(parents), list(kids)
        sim.event(f'{how} by {how_key}: {len(parents)} parents, {len(kids)} offspring')
        if how == 'truncation':
            sim.reach('truncation')
            n = src.int(1, len(kids))
            out = ops.truncation_selection(kids, size=n, **kk)
            pool = before_k
            expect = sorted((val(up, i) for i in pool), reverse=True)[:n]
        elif how == 'truncation+':
            sim.reach('truncation')
            n = src.int(1, len(kids) + len(parents))
            out = ops.truncation_selection(kids, size=n, parents=parents, **kk)
            pool = before_k + before_p
            expect = sorted((val(up, i) for i in pool), reverse=True)[:n]
        elif how == 'elitist':
            k = src.weighted([(1, 1), (1, src.size(0, 3, 12))])
            out = ops.elitist_survival(list(kids), parents=parents, k=k, **kk)
            pool = before_k + before_p
            el = sorted((val(up, i) for i in before_p), reverse=True)[:k]
            expect = sorted([val(up, i) for i in before_k] + el, reverse=True)[:len(before_k)]
        else:
            sim.reach('insertion')
            out = ops.insertion_selection(kids, parents=parents, **kk)
            pool = before_k + before_p
            expect = None
            sim.check(len(out) == len(before_p), 'wrong-size', f'{len(out)} of {len(before_p)}')
            best = max(val(up, i) for i in pool)
            sim.check(max(val(up, i) for i in out) == best, 'best-lost',
                      f'insertion: best of parents and offspring {best}, kept '
                      f'{sorted(val(up, i) for i in out)}')
            for a, b in zip(before_p, out):
                sim.check(b is a or any(b is k for k in before_k), 'unknown-survivor', 'insertion')
                sim.check(val(up, b) >= val(up, a), 'better-replaced-by-worse',
                          f'{val(up, a)} replaced by {val(up, b)}')
        sim.check([id(i) for i in parents] == [id(i) for i in before_p], 'parents-list-modified', how)
        ids = [id(i) for i in out]
        if how != 'insertion':
            sim.check(len(set(ids)) == len(ids), 'duplicated-survivor', how)
        sim.check(set(ids) <= {id(i) for i in pool}, 'unknown-survivor', how)
        if expect is not None:
            got = sorted((val(up, i) for i in out), reverse=True)
            sim.check(got == expect, 'wrong-survivors', f'{how}: {got} instead of {expect}')
        parents = list(out)
