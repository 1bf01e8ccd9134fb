"""C19: pipelines that share operators can be interleaved and abandoned freely."""
import numpy as np

from .. import world as W
from ..cluster import Cluster
from ..steady import TappedClient, History

from leap_ec import ops
from leap_ec.distrib import asynchronous
from leap_ec.distrib.individual import DistributedIndividual
from leap_ec.individual import Individual
from leap_ec.int_rep.ops import mutate_randint
from leap_ec.representation import Representation

RUNS = dict(quick=12000, thorough=150000)
RULE = ('a drawn interleaving of several pipelines built from the same operator objects, with '
        'pipelines abandoned, restarted and failing upstream at drawn points, or one '
        'asynchronous run whose offspring pipelines follow each other; non-trivial: two '
        'pipelines or more, distinct by the hash of its event sequence')
REAL = W.SEAMS_REAL
STUB = ['the source of individuals (simulated, with fault points)'] + W.SEAMS_STUB
ASSUMPTIONS = ['a pipeline is pulled from one place at a time']
MUST_REACH = ['persisted', 'not_persisted', 'interleaved', 'abandoned', 'upstream_error', 'left_over_used',
              'several_left_over', 'cyclic', 'whole_run', 'odd_births', 'miswired']


class Upstream(Exception):
    pass


def run(sim, src):
    mode = src.weighted([(6, 'crossover'), (3, 'selection'), (2, 'whole_run'), (1, 'miswired')])
    sim.event(mode)
    dict(crossover=crossing, selection=selecting, whole_run=whole, miswired=miswired)[mode](sim, src)


TAKES_ITERATOR = [
    ('evaluate', lambda: ops.evaluate), ('clone', lambda: ops.clone), ('pool', lambda: ops.pool(size=2)),
    ('uniform', lambda: ops.UniformCrossover()), ('n_ary', lambda: ops.NAryCrossover()),
    ('mutate', lambda: mutate_randint(bounds=[(0, 9)] * 4, expected_num_mutations=1))]
TAKES_LIST = [
    ('tournament', lambda: ops.tournament_selection), ('cyclic', lambda: ops.cyclic_selection),
    ('naive_cyclic', lambda: ops.naive_cyclic_selection), ('random', lambda: ops.random_selection),
    ('proportional', lambda: ops.proportional_selection), ('sus', lambda: ops.sus_selection),
    ('truncation', lambda: ops.truncation_selection(size=1)),
    ('grouped', lambda: ops.grouped_evaluate), ('const', lambda: ops.const_evaluate(value=1.0)),
    ('elitist', lambda: ops.elitist_survival(parents=[], k=1)),
    ('insertion', lambda: ops.insertion_selection(parents=[]))]


def miswired(sim, src):
    """An operator fed the wrong kind of stream refuses it, untouched, and still works afterwards."""
    sim.nontrivial = True
    sim.reach('miswired')
    pop = []
    for k in range(src.int(2, 4)):
        i = Individual(np.array([k, 0, 0, 1]), problem=W.SimProblem())
        i.fitness = float(src.draw(5) + 1)
        pop.append(i)
    was = [(i, i.genome.tolist(), i.fitness) for i in pop]
    for _ in range(src.int(1, 5)):
        wants_list = src.bool(0.5)
        name, make = src.pick(TAKES_LIST if wants_list else TAKES_ITERATOR)
        op = make()
        taken = []

        def stream():
            for i in pop:
                taken.append(i)
                yield i
        half = ops.pool if src.bool(0.3) else None      # an operator still waiting for an argument
        wrong = half or (stream() if wants_list else list(pop))
        sim.event(f'{name} given {"an unfinished operator" if half else "iterator" if wants_list else "list"}')
        try:
            out = op(wrong)
        except (ValueError, TypeError, AssertionError):
            pass
        else:
            sim.fail('miswiring-accepted', f'{name} given {wrong!r} answers {out!r}')
        sim.check(not taken and [(i, i.genome.tolist(), i.fitness) for i in pop] == was, 'miswiring-touched',
                  f'{name} had taken {len(taken)} before refusing')
        if name in ('elitist', 'insertion', 'uniform', 'n_ary', 'mutate', 'evaluate', 'grouped', 'const'):
            continue
        got = op(list(pop) if wants_list else iter(pop))
        first = got[0] if isinstance(got, list) else next(got)
        sim.check(any(first is i for i in pop) or name == 'clone', 'stranger', f'{name} afterwards yields {first!r}')
    sim.sample = dict(mode='miswired')


class Feed:
    """Upstream of one pipeline: numbered individuals, failing at drawn points."""

    def __init__(self, sim, tag, fail_p):
        self.sim, self.tag, self.fail_p, self.given = sim, tag, fail_p, []

    def __iter__(self):
        return self

    def __next__(self):
        if self.fail_p and self.sim.src.bool(self.fail_p):
            self.sim.fault('upstream_error')
            self.sim.reach('upstream_error')
            raise Upstream(self.tag)
        g = np.array([self.tag, len(self.given), 0, 1])
        i = Individual(g)
        i.name = (self.tag, len(self.given))
        i.fitness = 1.0
        self.given.append(i)
        return i


def crossing(sim, src):
    persist = src.bool(0.6)
    sim.reach('persisted' if persist else 'not_persisted')
    p = src.pick([1.0, 0.5, 0.0])
    op = ops.UniformCrossover(p_swap=0.5, p_xover=p, persist_children=persist) if src.bool(0.5) \
        else ops.NAryCrossover(num_points=src.int(1, 2), p_xover=p, persist_children=persist)
    fail_p = src.pick([0.0, 0.0, 0.08])
    tail = src.pick([None, mutate_randint(bounds=[(0, 9)] * 4, expected_num_mutations=1)])
    lines, feeds = [], []
    out = {}                # id -> individual, everything that came out
    done = []
    width = src.size(1, 4, 10)
    lost = set()            # first parents of a pair whose second parent never came

    def start():
        f = Feed(sim, len(feeds), fail_p)
        feeds.append(f)
        it = op(f)
        if tail is not None:
            it = tail(it)
        lines.append(dict(feed=f, it=it, got=[], n=0))
        sim.event(f'start {f.tag}')
    for _ in range(width):
        start()
    waiting = []            # reference: second children not yet seen, per operator

    def pull(ln):
        """One pull of one pipeline against the reference."""
        f = ln['feed']
        before = len(f.given)
        fresh = ln['n'] == 0 or ln.get('leftovers')
        try:
            x = next(ln['it'])
        except Upstream:
            sim.event(f'{f.tag} failed')
            lines.remove(ln)
            done.append(ln)
            if (len(f.given) - before) % 2:
                lost.add(id(f.given[-1]))
            return
        new = f.given[before:]
        ln['n'] += 1
        sim.check(x is not None, 'nobody', f'pipeline {f.tag} yielded None')
        sim.check(hasattr(x, 'name'), 'stranger', f'pipeline {f.tag} yielded {x!r}')
        sim.check(id(x) not in out, 'yielded-twice', f'{x.name} came out of pipeline {f.tag} a second time')
        out[id(x)] = x
        ln['got'].append(x)
        sim.event(f'{f.tag} {x.name}')
        sim.check(len(new) in (0, 2), 'pulled-too-much', f'one pull took {len(new)} individuals upstream')
        if new:
            sim.check(not (persist and fresh and waiting), 'left-over-ignored',
                      f'a fresh pipeline bred although {len(waiting)} child(ren) waited')
            sim.check(x is new[0] or x is new[1], 'wrong-child', f'{x.name} instead of one of a new pair')
            other = new[1] if x is new[0] else new[0]
            waiting.append(other)
            ln['pending'] = other
            ln['leftovers'] = False
        else:
            sim.check(any(x is w for w in waiting), 'wrong-child', f'{x.name} was not waiting')
            if not persist:
                sim.check(x is ln.get('pending'), 'wrong-child',
                          f'pipeline {f.tag} yielded {x.name} of another pipeline')
            if x is not ln.get('pending'):
                sim.reach('left_over_used')
                if fresh:
                    ln['leftovers'] = True
            else:
                ln['pending'] = None
            waiting[:] = [w for w in waiting if w is not x]
        if len(waiting) > 1 and persist:
            sim.reach('several_left_over')
    steps = src.size(1, 25, 120)
    last = None
    for _ in range(steps):
        if not lines or src.bool(0.12):
            start()
        if len(lines) > 1 and src.bool(0.12):
            ln = src.pick(lines)
            lines.remove(ln)
            done.append(ln)
            if not persist and ln.get('pending') is not None:
                waiting[:] = [w for w in waiting if w is not ln['pending']]
            if src.bool(0.5):
                ln['it'].close()
            sim.fault('pipeline_abandoned')
            sim.reach('abandoned')
            sim.event(f'abandon {ln["feed"].tag}')
        ln = src.pick(lines)
        if last is not None and last is not ln:
            sim.reach('interleaved')
            sim.nontrivial = True
        last = ln
        pull(ln)
    # everything else is abandoned; a new pipeline must bring all that was left
    if persist:
        fail_p = 0.0
        start()
        ln = lines[-1]
        for _ in range(len(waiting)):
            pull(ln)
        sim.check(not waiting and not ln['feed'].given, 'child-lost',
                  f'{[w.name for w in waiting]} never came out')
        made = [i for f in feeds for i in f.given if id(i) not in lost]
        sim.check(len(out) == len(made), 'child-lost', f'{len(out)} came out of {len(made)}')
    sim.sample = dict(mode='crossover', persist=persist, pipelines=len(feeds), pulled=len(out),
                      trace=sim.log[:10], faults=dict(sim.faults))


def selecting(sim, src):
    """Interleaved selections over the same population are independent."""
    m = src.size(1, 6, 20)
    pop = []
    for k in range(m):
        i = Individual(np.array([k]), problem=W.SimProblem(maximize=True))
        i.fitness = float(k)
        pop.append(i)
    keep = list(pop)
    naive = src.bool(0.4)
    sim.reach('cyclic')
    op = ops.naive_cyclic_selection if naive else ops.cyclic_selection
    lines = [dict(it=op(pop), got=[], tag=t) for t in range(src.int(1, 3))]
    for _ in range(src.size(1, 40, 200)):
        if src.bool(0.05):
            lines.append(dict(it=op(pop), got=[], tag=len(lines)))
        ln = src.pick(lines)
        x = next(ln['it'])
        j = [q for q, y in enumerate(keep) if y is x]
        sim.check(len(j) == 1, 'stranger', f'{x!r}')
        ln['got'].append(j[0])
        sim.event(f'{ln["tag"]} {j[0]}')
        sim.check(len(pop) == m and all(a is b for a, b in zip(pop, keep)), 'population-changed',
                  'selecting changed the order of the population')
    sim.nontrivial = len(lines) > 1
    for ln in lines:
        g = ln['got']
        sim.check(g[:m] == list(range(m))[:len(g)], 'order', f'first tour {g[:m]}')
        for r in range(0, len(g), m):
            t = g[r:r + m]
            sim.check(len(set(t)) == len(t), 'tour-incomplete', f'tour {t} of {m}')
            if naive:
                sim.check(t == list(range(m))[:len(t)], 'order', f'{g}')
    sim.sample = dict(mode='selection', m=m, pipelines=len(lines), trace=sim.log[:10])


def whole(sim, src):
    """Steady state: every offspring pipeline is abandoned after one batch."""
    sim.reach('whole_run')
    genomes = W.Genomes(src)
    W.Ledger(sim)
    cl = Cluster(sim, workers=src.int(1, 4), per_host=2, faults=W.cluster_faults(src))
    client = TappedClient(cl, History())
    persist = src.bool(0.7)
    x = genomes.crossover(src, persist=persist)
    batch = src.weighted([(3, 1), (1, 2), (1, 3)])
    births = src.size(1, 14, 60)
    into, outof, left = [], [], []

    @ops.iteriter_op
    def before(it):
        for i in it:
            into.append(i)
            yield i

    @ops.iteriter_op
    def after(it):
        for i in it:
            sim.check(i is not None and any(i is y for y in into), 'stranger', f'{i!r}')
            sim.check(not any(i is y for y in outof), 'yielded-twice', 'one child was evaluated twice')
            outof.append(i)
            sim.event(f'child {len(into)}')
            yield i
    ctx = W.new_context()
    asynchronous.steady_state(client, births, src.size(1, 4, 15), src.size(1, 4, 15),
                              Representation(initialize=genomes.init, decoder=W.SimDecoder(),
                                             individual_cls=DistributedIndividual),
                              W.problem_for(src, genomes),
                              [W.selector(src), ops.clone, before, genomes.mutator(src), x, after,
                               ops.pool(size=batch)], context=ctx)
    n = len(outof)
    if persist:
        if n % 2:
            sim.reach('odd_births')
        sim.check(len(into) == n + n % 2, 'child-lost',
                  f'{n} births took {len(into)} clones although children persist')
    else:
        per = batch + batch % 2
        sim.check(len(into) == n // batch * per, 'pulled-too-much',
                  f'{n} births in batches of {batch} took {len(into)} clones')
    sim.sample = dict(mode='whole_run', persist=persist, batch=batch, births=n, faults=dict(sim.faults))
