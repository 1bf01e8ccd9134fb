"""C11: island migration delivers every emigrant exactly once to a neighbour."""
import csv
import io

import networkx as nx
import numpy as np

from .. import gen, world as W
from ..cluster import Cluster
from ..steady import TappedClient, History

from leap_ec import ops
from leap_ec.algorithm import multi_population_ea
from leap_ec.distrib import synchronous
from leap_ec.distrib.individual import DistributedIndividual
from leap_ec.individual import Individual, RobustIndividual

RUNS = dict(quick=3000, thorough=80000)
RULE = ('one island-model run with a drawn topology (directed or not, disconnected islands '
        'included), gap, selectors, per-island pipelines and evaluation failures, serial or on '
        'the faulty simulated cluster, or with islands that take turns in a drawn order, one of them seldom; '
        'non-trivial: at least one migration or fault, distinct by the hash of its event sequence')
REAL = W.SEAMS_REAL
STUB = W.SEAMS_STUB
ASSUMPTIONS = ['islands are numbered 0..n-1 in the topology',
               'the replacement selector reports the index it chose, as documented']
MUST_REACH = ['arrived', 'immigrant_rejected', 'immigrant_accepted', 'same_generation_arrival',
              'next_generation_arrival', 'isolated_island', 'in_flight_at_end', 'several_arrivals',
              'failed_immigrant', 'distributed', 'directed', 'own_neighbour', 'irregular_turns', 'long_wait',
              'customs']


def topology(sim, src, n):
    kind = src.pick(['complete', 'cycle', 'path', 'directed_ring', 'star_out', 'random'])
    if kind == 'complete':
        g = nx.complete_graph(n)
    elif kind == 'cycle':
        g = nx.cycle_graph(n)
    elif kind == 'path':
        g = nx.path_graph(n)
    elif kind == 'directed_ring':
        g = nx.DiGraph([(i, (i + 1) % n) for i in range(n)])
        sim.reach('directed')
    elif kind == 'star_out':
        g = nx.DiGraph()
        g.add_nodes_from(range(n))
        g.add_edges_from((i, 0) for i in range(1, n))
        sim.reach('directed')
    else:
        g = nx.DiGraph()
        g.add_nodes_from(range(n))
        for a in range(n):
            for b in range(n):
                if a != b and src.bool(0.4):
                    g.add_edge(a, b)
        sim.reach('directed')
    if src.bool(0.15):
        # an island may be among its own neighbours
        i = src.draw(n)
        g.add_edge(i, i)
        sim.reach('own_neighbour')
    out = {i: set(g.neighbors(i)) for i in range(n)}
    if any(not v for v in out.values()):
        sim.reach('isolated_island')
    return g, out


def run(sim, src):
    n = src.size(2, 4, 8) if src.bool(0.94) else 1
    d = gen.draw(src, pop=(1, 5), gens=(0, 7))
    problem = gen.problem(d)
    g, out = topology(sim, src, n)
    gap = src.size(1, 4, 10)
    arg, ctx = W.fresh_context(src)
    kw = {} if arg is None else {'context': arg}
    led = W.Ledger(sim)
    cls = src.pick([Individual, RobustIndividual, DistributedIndividual])
    if cls is not Individual and d['sel'] < 5:
        led.fail_p, led.max_failures = src.pick([0.0, 0.4]), src.int(1, 20)
    sim.event(f'{sorted(d.items())} {sorted(map(tuple, g.edges()))} gap {gap}')

    turns = []            # one record per call of the migration operator
    cur = {}

    def spy_emigrant(sel):
        def f(pop, *a, **k):
            for x in sel(pop, *a, **k):
                cur['sponsors'].append((x, W.snap(x), [id(i) for i in pop]))
                yield x
        return f

    def spy_replacement(sel):
        def f(pop, *a, indices=None, **k):
            for x in sel(pop, *a, indices=indices, **k):
                cur['contestants'].append((x, indices[0] if indices else None,
                                           [id(i) for i in pop]))
                yield x
        return f

    def stamp(ind, dest):
        new = ind
        if customs:
            sim.reach('customs')
            new = ind.clone()
            new.fitness = ind.fitness if customs == 1 or W.isnan(ind.fitness) else -ind.fitness
        cur['arrivals'].append((ind, W.snap(ind), dest, new))
        return new
    customs = src.weighted([(3, 0), (1, 1), (1 if d['sel'] < 5 else 0, 2)])

    rows = []
    stream = io.StringIO()
    file_metric = ops.migration_metric(stream, header=True, notes={'run': 7})

    def metric(generation, imm, contestant, success):
        rows.append((generation, imm, contestant, success))
        cur['metrics'].append((generation, imm, contestant, bool(success)))
        file_metric(generation, imm, contestant, success)

    opts = {}
    if src.bool(0.7):
        opts['metric'] = metric
    opts['customs_stamp'] = stamp
    mig = ops.migrate(
        topology=g,
        emigrant_selector=spy_emigrant(src.pick(
            [ops.tournament_selection, ops.random_selection, ops.cyclic_selection,
             ops.naive_cyclic_selection])),
        replacement_selector=spy_replacement(src.pick(
            [ops.random_selection, ops.tournament_selection(select_worst=True),
             ops.naive_cyclic_selection, ops.tournament_selection])),
        migration_gap=gap, **opts, **kw)

    def migration(pop):
        cur.clear()
        cur.update(sponsors=[], contestants=[], arrivals=[], metrics=[],
                   island=ctx['leap'].get('current_subpopulation'),
                   gen=ctx['leap'].get('generation'),
                   before=[(i, W.snap(i)) for i in pop])
        res = mig(pop)
        cur['after'] = [(i, W.snap(i)) for i in res]
        turns.append(dict(cur))
        sim.event(f'g{cur["gen"]} i{cur["island"]} in {len(cur["arrivals"])} out {len(cur["sponsors"])}')
        return res

    if src.bool(0.25):
        irregular(sim, src, n, d, cls, problem, ctx, migration)
        judge(sim, problem, turns, out, gap, 'metric' in opts)
        if 'metric' in opts:
            check_rows(sim, rows, stream.getvalue())
        sim.sample = dict(islands=n, plan=d, gap=gap, turns=[(t['gen'], t['island']) for t in turns][:30])
        return
    remote = src.bool(0.3) and cls is not Individual
    if remote:
        sim.reach('distributed')
        cl = Cluster(sim, workers=src.int(1, 3), faults=W.cluster_faults(src))
        client = TappedClient(cl, History())
        tail = [synchronous.eval_pool(client=client, size=d['offspring'], **kw)]
        init = synchronous.eval_population(client=client, **kw)
    else:
        tail = [ops.evaluate, ops.pool(size=d['offspring'])]
        init = cls.evaluate_population
    order = []

    def where(label):
        def f(pop):
            order.append((label, ctx['leap'].get('generation'),
                          ctx['leap'].get('current_subpopulation'), [id(i) for i in pop]))
            return pop
        return f
    shared = [where('start')] + gen.breeding(d) + tail
    own = None
    if src.bool(0.5):
        shared.append(migration)
        if src.bool(0.4):
            own = [[where(i)] for i in range(n)]
    else:
        own = [[migration, where(i)] for i in range(n)]
    asked = []

    def stop(pops):
        asked.append([[id(i) for i in p] for p in pops])
        return stop_after is not None and len(asked) > stop_after
    stop_after = src.pick([None, None, 2])
    pops = multi_population_ea(
        max_generations=d['gens'], num_populations=n, pop_size=d['pop'], problem=problem,
        representation=gen.representation(d, cls), shared_pipeline=shared,
        subpop_pipelines=own, stop=stop, init_evaluate=init, **kw)

    gens = d['gens'] if stop_after is None else min(stop_after, d['gens'])
    size = d['offspring'] if gens else d['pop']
    sim.check(len(pops) == n and all(len(p) == size for p in pops), 'population-size',
              f'{[len(p) for p in pops]} instead of {n} x {size}')
    sim.check([(t['gen'], t['island']) for t in turns] ==
              [(a, b) for a in range(gens) for b in range(n)], 'islands-out-of-turn',
              'not every island took its turn once per generation, in order')
    sim.check(ctx['leap']['generation'] == gens, 'generation-number',
              f'{ctx["leap"]["generation"]} instead of {gens}')
    starts = [o for o in order if o[0] == 'start']
    for k, o in enumerate(starts):
        i = k % n
        sim.check(o[1:3] == (k // n, i), 'islands-out-of-turn', f'turn {k} ran as {o[1:3]}')
        if asked and i == 0 and k // n < len(asked):
            sim.check(o[3] == asked[k // n][0], 'populations-mixed', 'island 0 started from another population')
        if k >= n:
            prev = turns[k - n]
            sim.check(o[3] == [id(x) for x, _ in prev['after']], 'populations-mixed',
                      f'island {i} does not continue with its own population')
    for o in order:
        if o[0] != 'start':
            sim.check(o[2] == o[0], 'wrong-pipeline', f'pipeline of island {o[0]} ran on {o[2]}')
    judge(sim, problem, turns, out, gap, 'metric' in opts)
    if 'metric' in opts:
        check_rows(sim, rows, stream.getvalue())
    sim.sample = dict(islands=n, plan=d, gap=gap, edges=sorted(map(tuple, g.edges())),
                      faults=dict(sim.faults), trace=sim.log[1:12])


def irregular(sim, src, n, d, cls, problem, ctx, migration):
    """The islands take their turns in a drawn order, some more often than others."""
    sim.reach('irregular_turns')
    rep = gen.representation(d, cls)
    pops = [cls.evaluate_population(rep.create_population(d['pop'], problem)) for _ in range(n)]
    ctx['leap']['subpopulations'] = pops
    g = 0
    lag = src.bool(0.25)          # one island hardly ever takes its turn
    waiting = 0
    for _ in range(src.size(1, 12, 60) if not lag else src.size(20, 50, 120)):
        i = src.draw(n)
        if lag and n > 1 and i == 0 and src.bool(0.9):
            i = 1
        g += src.weighted([(3, 1), (2, 0), (1, 3)])
        waiting = 0 if i == 0 else waiting + 1
        if waiting > 12 and lag:
            sim.reach('long_wait')
        ctx['leap']['generation'], ctx['leap']['current_subpopulation'] = g, i
        pops[i] = migration(pops[i])
        if src.bool(0.3):
            new = cls.evaluate_population(rep.create_population(1, problem))
            pops[i][src.draw(len(pops[i]))] = new[0]


def judge(sim, problem, turns, out, gap, metered):
    flying = []         # (sponsor snap, origin, turn index, islands since, sponsor)
    for k, t in enumerate(turns):
        i, gnr = t['island'], t['gen']
        # -- arrivals: exactly those in flight to this island ------------
        for ind, s, dest, _ in t['arrivals']:
            sim.check(dest == i, 'delivered-elsewhere', f'told island {dest}, was island {i}')
            match = [f for f in flying if s['parents'] == {f[0]['uuid']}
                     and s['genome'] == f[0]['genome']
                     and W.same_number(s['fitness'], f[0]['fitness']) and i in out[f[1]]
                     and i not in f[3]]
            sim.check(match, 'unknown-immigrant',
                      f'island {i} received an individual nobody in a neighbouring island sent')
            f = match[0]
            flying.remove(f)
            sim.check(s['uuid'] != f[0]['uuid'], 'emigrant-not-copied', 'the sponsor itself travelled')
            sim.check(ind is not f[4] and not shares(ind, f[4]), 'genome-shared',
                      'emigrant and sponsor share one genome')
            sim.reach('arrived')
            sim.nontrivial = True
            sim.reach('same_generation_arrival' if turns[f[2]]['gen'] == gnr else 'next_generation_arrival')
            if W.isnan(s['fitness']):
                sim.reach('failed_immigrant')
        if len(t['arrivals']) > 1:
            sim.reach('several_arrivals')
        # -- competition --------------------------------------------------
        slots = [x for x, _ in t['before']]
        sim.check(len(t['contestants']) == len(t['arrivals']), 'contest-count',
                  f'{len(t["arrivals"])} immigrants, {len(t["contestants"])} contests')
        if metered:
            sim.check(len(t['metrics']) == len(t['arrivals']), 'metric-count',
                      f'{len(t["arrivals"])} immigrants, {len(t["metrics"])} records')
        for j, ((_, s, _, ind), (con, idx, view)) in enumerate(zip(t['arrivals'], t['contestants'])):
            sim.check(view == [id(x) for x in slots], 'stale-contest',
                      'the contest was held in a population that is not the current one')
            fa, fb = ind.fitness, con.fitness
            if W.isnan(fa) and W.isnan(fb):
                win = None
            elif W.isnan(fa):
                win = False
            elif W.isnan(fb):
                win = True
            else:
                win = not W.is_better(problem, fb, fa)
            if win is None:
                # a coin decides between two failed ones: take what happened
                later = [x for x, _ in t['after']]
                win = t['metrics'][j][3] if metered else any(ind is x for x in later)
                if not metered and not win:
                    return         # could have been displaced again: cannot tell
            if win:
                slots[idx] = ind
                sim.reach('immigrant_accepted')
            else:
                sim.reach('immigrant_rejected')
            if metered:
                mg, mi, mc, ms = t['metrics'][j]
                sim.check(mg == gnr and mi is ind and mc is con and ms == win, 'metric-wrong',
                          f'recorded {(mg, ms)}, happened {(gnr, win)}')
        sim.check([id(x) for x in slots] == [id(x) for x, _ in t['after']], 'replacement-wrong',
                  f'island {i}, generation {gnr}: population after migration is not the one before '
                  'with its beaten contestants replaced')
        for x, s in t['before']:
            sim.check(W.same_number(x.fitness, s['fitness']) and W.freeze(x.genome) == s['genome']
                      and x.uuid == s['uuid'], 'resident-altered', 'migration changed a resident')
        # -- deadline: delivered once every possible destination had its turn
        for f in flying:
            f[3].add(i)
            sim.check(not out[f[1]] <= f[3], 'emigrant-lost',
                      f'an emigrant of island {f[1]} was not delivered the next time its destination had its turn')
        # -- departures ----------------------------------------------------
        due = gnr % gap == 0 and bool(out[i])
        if due:
            sim.check(len(t['sponsors']) == 1, 'emigration-missed' if not t['sponsors'] else 'emigration-extra',
                      f'island {i}, generation {gnr}, gap {gap}: {len(t["sponsors"])} emigrants')
            sp, s, view = t['sponsors'][0]
            sim.check(view == [id(x) for x, _ in t['after']], 'sponsor-from-elsewhere',
                      'the emigrant was not chosen from the current population')
            flying.append((s, i, k, set(), sp))
        elif out[i]:
            sim.check(not t['sponsors'], 'emigration-extra',
                      f'island {i}, generation {gnr}, gap {gap}: an emigrant left')
    if flying:
        sim.reach('in_flight_at_end')


def shares(a, b):
    x, y = a.genome, b.genome
    return isinstance(x, np.ndarray) and isinstance(y, np.ndarray) and np.shares_memory(x, y)


def check_rows(sim, rows, text):
    got = list(csv.DictReader(io.StringIO(text)))
    sim.check(len(got) == len(rows), 'migration-log', f'{len(got)} rows for {len(rows)} events')
    for r, (g, imm, con, ok) in zip(got, rows):
        want = {'run': '7', 'generation': str(g), 'migrant_fitness': str(imm.fitness),
                'contestant_fitness': str(con.fitness), 'success': str(ok)}
        sim.check(dict(r) == want, 'migration-log', f'{dict(r)} instead of {want}')
