"""C24: counters, the published step, alternating problems and birth branding are true to the run."""
import random

import networkx as nx
import numpy as np

from .. import gen, world as W
from ..cluster import Cluster
from ..steady import TappedClient, History
from ..threads import Coop

from leap_ec import ops, util
from leap_ec.algorithm import generational_ea, multi_population_ea
from leap_ec.distrib import synchronous
from leap_ec.distrib.individual import DistributedIndividual
from leap_ec.individual import Individual, RobustIndividual
from leap_ec.problem import AlternatingProblem

RUNS = dict(quick=6000, thorough=80000)
RULE = ('one to three interleaved runs on problems that change with the generation (serial or on '
        'the faulty simulated cluster, some in a run state used before), or a drawn sequence of '
        'operations on several counters, or pipelines that share a birth brander pulled in a '
        'drawn order; non-trivial: a switch or a fault, distinct by the hash of its event sequence')
REAL = W.SEAMS_REAL + ['one thread per run']
STUB = ['the thread scheduler (one run at a time, switches drawn)'] + W.SEAMS_STUB
ASSUMPTIONS = ['each run state is used by one run at a time']
MUST_REACH = ['alternating', 'counters', 'branding', 'switched', 'reused_run_state', 'islands', 'distributed',
              'start_generation', 'callback', 'ambiguous_step', 'already_branded', 'directions_differ',
              'decremented', 'branded_population', 'callback_failed']


def run(sim, src):
    mode = src.weighted([(5, 'alternating'), (3, 'counters'), (3, 'branding')])
    sim.reach(mode)
    sim.event(mode)
    dict(alternating=alternating, counters=counters, branding=branding)[mode](sim, src)


# -- problems that change with the generation ----------------------------
class Phase(W.SimProblem):
    """One of the problems that take turns; its values tell which one it is."""

    def __init__(self, k, ctx_of, maximize):
        super().__init__(maximize=maximize, mode='sum', offset=10000.0 * k)
        self.k, self.key = k, ctx_of

    def asked(self, what):
        s = W.core.CURRENT
        if s is not None and s.machine is None:
            s.c24[self.key](self.k, what)

    def evaluate(self, phenome, *a, **k):
        s = W.core.CURRENT
        if s is not None and s.machine is None and s.coop is not None:
            s.coop.pause()
        self.asked('evaluate')
        return super().evaluate(phenome, *a, **k)

    def worse_than(self, a, b):
        self.asked('compare')
        return super().worse_than(a, b)

    def equivalent(self, a, b):
        self.asked('compare')
        return super().equivalent(a, b)


def one_run(sim, src, d, ctx, key):
    def due(g):
        return g // d['modulo'] % len(d['dirs'])

    def frozen(k, g):
        """KNOWN_FINDINGS: what comes back from a cluster carries a copy of the
        problem whose run state has stopped at the generation it was sent in."""
        if d['dist'] and g is not None and k != due(g) and k in [due(h) for h in range(d['start'], g)]:
            sim.fail('frozen-after-distribution',
                     f'generation {g} is judged by problem {k}, due in an earlier generation')

    def asked(k, what):
        g = ctx['leap'].get('generation')
        frozen(k, g)
        sim.check(g is not None and k == due(g), 'wrong-problem',
                  f'{what}: problem {k} in generation {g}, due is {None if g is None else due(g)} '
                  f'(changing every {d["modulo"]} of {len(d["dirs"])})')
        st['asked'] += 1
    st = dict(asked=0)
    sim.c24[key] = asked
    phases = [Phase(k, key, up) for k, up in enumerate(d['dirs'])]
    problem = AlternatingProblem(phases, d['modulo'], context=ctx)
    cls, tail, init = Individual, [ops.evaluate, ops.pool(size=d['pop'])], Individual.evaluate_population
    if d['dist']:
        sim.reach('distributed')
        cls = DistributedIndividual
        client = TappedClient(Cluster(sim, workers=2, per_host=1, faults=W.cluster_faults(src)), History())
        init = synchronous.eval_population(client=client, context=ctx)
        tail = [synchronous.eval_pool(client=client, size=d['pop'], context=ctx)]
    rep = gen.representation(d, cls)
    dec = W.SimDecoder(d['decoder'])

    def judge(pop, g, when):
        for i in pop:
            want = phases[due(g)].pure(dec.decode(i.genome))
            if not W.close(i.fitness, want):
                for k, ph in enumerate(phases):
                    if W.close(i.fitness, ph.pure(dec.decode(i.genome))):
                        frozen(k, g)
            sim.check(W.close(i.fitness, want), 'judged-by-another-problem',
                      f'{when} generation {g}: fitness {i.fitness}, the problem due (no. {due(g)}) gives {want}')

    def first(pop):
        res = init(pop)
        judge(res, d['start'], 'initial population,')
        return res
    gens = []

    def tap(pop):
        gens.append(ctx['leap']['generation'])
        judge(pop, gens[-1], 'offspring of')
        if not d['dist']:
            W.check_order(sim, src, pop, d['dirs'][due(gens[-1])])
        sim.event(f'{key} g{gens[-1]}')
        if sim.coop is not None:
            sim.coop.pause()
        return pop
    if d['algo'] == 'generational':
        generational_ea(d['start'] + d['gens'], d['pop'], problem, rep, gen.breeding(d) + tail + [tap],
                        init_evaluate=first, k_elites=d['k'], start_generation=d['start'], context=ctx)
        want = list(range(d['start'], d['start'] + d['gens']))
    else:
        sim.reach('islands')
        multi_population_ea(d['gens'], 2, d['pop'], problem, rep, gen.breeding(d) + tail + [
            tap, ops.migrate(topology=nx.path_graph(2), emigrant_selector=ops.tournament_selection,
                             replacement_selector=ops.random_selection, migration_gap=1, context=ctx)],
            init_evaluate=first, context=ctx)
        want = [g for g in range(d['gens']) for _ in range(2)]
    sim.check(gens == want, 'generations', f'{gens} instead of {want}')
    return st['asked']


def alternating(sim, src):
    n = src.weighted([(2, 1), (3, 2), (1, 3)])
    plans = []
    for _ in range(n):
        d = gen.draw(src, gens=(1, 7), pop=(1, 5), offspring='same')
        d['sel'] = src.draw(5)
        d['dirs'] = [src.bool(0.5) for _ in range(src.int(1, 4))]
        if len(set(d['dirs'])) > 1:
            sim.reach('directions_differ')
        d['modulo'] = src.size(1, 3, 8)
        d['algo'] = src.pick(['generational', 'generational', 'islands'])
        d['start'] = src.pick([0, 0, 3]) if d['algo'] == 'generational' else 0
        if d['start']:
            sim.reach('start_generation')
        d['dist'] = src.bool(0.25)
        d['seed'] = src.seed32()
        plans.append(d)
    sim.c24, sim.coop = {}, None
    W.Ledger(sim)
    ctxs = [W.new_context() for _ in plans]
    for c in ctxs:
        if src.bool(0.25):
            c['leap']['generation'] = src.int(1, 9)          # left there by an earlier run
            sim.reach('reused_run_state')
    coop = sim.coop = Coop(sim)
    for k, d in enumerate(plans):
        coop.spawn(f'r{k}', lambda k=k, d=d: one_run(sim, src, d, ctxs[k], f'r{k}'), d['seed'])
    coop.run()
    sim.coop = None
    if sim.faults.get('context_switch'):
        sim.reach('switched')
    sim.sample = dict(mode='alternating', plans=[{k: d[k] for k in ('algo', 'gens', 'modulo', 'dirs', 'start')}
                                                 for d in plans], faults=dict(sim.faults))


# -- counters -------------------------------------------------------------
class Grumble(Exception):
    pass


def counters(sim, src):
    ctxs = [W.new_context() for _ in range(src.int(1, 3))]
    model = [dict() for _ in ctxs]
    mine = []
    heard, expect = [], []
    grumpy = []

    def callback(tag, c, key):
        def f(v):
            heard.append((tag, v, ctxs[c]['leap'].get(key)))
            if grumpy and grumpy[0] == tag:
                grumpy.clear()
                raise Grumble(tag)
        return f
    for t in range(src.size(1, 14, 60)):
        free = [(c, k) for c in range(len(ctxs)) for k in ('generation', 'births')
                if not any(m[:2] == (c, k) for m in mine)]
        what = src.pick(['make', 'step', 'step', 'read', 'unstep', 'ask'])
        if (what == 'make' or not mine) and free:
            c, k = src.pick(free)
            start = src.pick([0, 0, 5, 1])
            tags = [f'{t}.{j}' for j in range(src.size(0, 3, 7))]
            cb = [callback(x, c, k) for x in tags]
            how = dict(callbacks=cb) if cb or src.bool(0.5) else {}
            f = util.inc_generation(start_generation=start, context=ctxs[c], **how) if k == 'generation' else \
                util.inc_births(context=ctxs[c], start=start, **how)
            mine.append((c, k, f, tags))
            model[c][k] = start
        elif what == 'ask' and mine:
            c = src.draw(len(ctxs))
            have = [k for k in ('generation', 'births') if k in ctxs[c]['leap']]
            force = src.pick([None, 'generation', 'births', 'both'])
            kw = {} if force is None else dict(use_generation=force != 'births', use_births=force != 'generation')
            if force in ('generation', 'births') and src.bool(0.5):
                kw = {f'use_{force}': True}
            legal = (force in have) if force else len(have) == 1
            try:
                got = util.get_step(context=ctxs[c], **kw)
            except (AssertionError, ValueError, KeyError):
                sim.check(not legal, 'step-refused', f'asked for {force}, published {have}')
                sim.reach('ambiguous_step')
                continue
            sim.check(legal, 'ambiguous-step-accepted', f'asked for {force}, published {have}, got {got}')
            want = model[c][force or have[0]]
            sim.check(got == want, 'wrong-step', f'{got} instead of {want}')
        elif mine:
            c, k, f, tags = src.pick(mine)
            if what == 'unstep' and k == 'births':
                got, by = f.do_decrement(), -1
                sim.reach('decremented')
                told = []
            elif what == 'read':
                got, by, told = (f.generation if k == 'generation' else f.births)(), 0, []
            else:
                by = src.pick([1, 1, 3]) if k == 'births' else 1
                told = [(x, model[c][k] + by, model[c][k] + by) for x in tags]
                if tags and src.bool(0.1):
                    grumpy.append(src.pick(tags))
                    told = told[:tags.index(grumpy[0]) + 1]
                try:
                    got = f(by) if k == 'births' and (by != 1 or src.bool(0.5)) else f()
                    sim.check(not grumpy, 'callback-skipped', 'a callback was not called')
                except Grumble:
                    sim.reach('callback_failed')
                    sim.fault('callback_error')
                    got = model[c][k] + by
                if tags:
                    sim.reach('callback')
            model[c][k] += by
            expect += told
            sim.check(got == model[c][k], 'wrong-count', f'{k} is {got} instead of {model[c][k]}')
            sim.event(f'{c} {k} {by}')
            if len(mine) > 1:
                sim.nontrivial = True
        sim.check(heard == expect, 'wrong-callbacks', f'{heard[-4:]} instead of {expect[-4:]}')
        for c, m in enumerate(model):
            for k in ('generation', 'births'):
                sim.check(ctxs[c]['leap'].get(k) == m.get(k), 'published-otherwise',
                          f'{k} published as {ctxs[c]["leap"].get(k)}, counted {m.get(k)}')
        for c, k, f, _ in mine:
            v = (f.generation if k == 'generation' else f.births)()
            sim.check(v == model[c][k], 'wrong-count', f'{k} is {v} instead of {model[c][k]}')
    sim.sample = dict(mode='counters', counters=[(m[0], m[1]) for m in mine], state=model)


# -- birth branding -------------------------------------------------------
def branding(sim, src):
    branders = [util.birth_brander() for _ in range(src.int(1, 2))]
    nxt = [0] * len(branders)
    given = []                    # (individual, number)
    open_ = []                    # (brander, iterator, individuals still to come)

    def fresh(k):
        out = []
        for _ in range(k):
            if given and src.bool(0.2):
                out.append(src.pick(given)[0])
            else:
                out.append(Individual(np.zeros(1)))
                if src.bool(0.05):
                    out[-1].birth = src.pick([-1, 7, 1000])     # numbered elsewhere
                    given.append((out[-1], out[-1].birth))
        return out

    def took(b, ind):
        had = [v for i, v in given if i is ind]
        sim.check(hasattr(ind, 'birth'), 'not-branded', 'an individual came out without a number')
        if had:
            sim.reach('already_branded')
            sim.check(ind.birth == had[0], 'number-changed', f'{had[0]} became {ind.birth}')
        else:
            sim.check(ind.birth == nxt[b], 'wrong-number', f'{ind.birth} instead of {nxt[b]}')
            nxt[b] += 1
            given.append((ind, ind.birth))
    for _ in range(src.size(1, 12, 50)):
        b = src.draw(len(branders))
        what = src.pick(['pull', 'pull', 'pipeline', 'list_pipeline', 'population', 'drop'])
        if what == 'population':
            sim.reach('branded_population')
            inds = fresh(src.size(0, 4, 15))
            res = branders[b].brand_population(inds)
            sim.check([id(i) for i in res] == [id(i) for i in inds], 'population-changed', '')
            for i in inds:
                took(b, i)
        elif what == 'pipeline' or (what == 'pull' and not open_):
            inds = fresh(src.int(1, 5))
            open_.append((b, branders[b](i for i in list(inds)), inds))
        elif what == 'list_pipeline':
            inds = fresh(src.int(1, 5))
            open_.append((b, branders[b](list(inds)), inds))
        elif what == 'drop' and open_:
            open_.remove(src.pick(open_))
        elif open_:
            b, it, rest = src.pick(open_)
            for _ in range(src.int(1, 3)):
                if not rest:
                    break
                ind = next(it)
                sim.check(ind is rest.pop(0), 'other-individual', 'branding passed on somebody else')
                took(b, ind)
            if len(open_) > 1:
                sim.nontrivial = True
        sim.event(f'{what} {b} {nxt}')
        for i, v in given:
            sim.check(i.birth == v, 'number-changed', f'{v} became {i.birth}')
    sim.sample = dict(mode='branding', numbers=nxt, pipelines=len(open_))
