"""C07: identities are unique, birth numbers follow creation, lineage is true."""
from .. import world as W
from ..cluster import Cluster
from ..steady import TappedClient, History

from leap_ec import ops
from leap_ec.algorithm import generational_ea, multi_population_ea, random_search
from leap_ec.distrib import asynchronous, synchronous
from leap_ec.distrib.individual import DistributedIndividual
from leap_ec.individual import Individual, RobustIndividual
from leap_ec.representation import Representation

RUNS = dict(quick=5000, thorough=80000)
RULE = ('one complete run of an asynchronous, synchronous, serial, island or random-search '
        'algorithm, every step of every pipeline observed; non-trivial: at least one fault '
        'injected or two algorithms run one after the other, distinct by the hash of its '
        'event sequence')
REAL = W.SEAMS_REAL
STUB = W.SEAMS_STUB
ASSUMPTIONS = ['individuals are created by the representation and by cloning']
MUST_REACH = ['recombined', 'not_recombined', 'second_child_later', 'async', 'islands', 'second_run',
              'child_of_failed_parent', 'recombined_twice', 'clone_of_a_clone']


class Book:
    """Everything observed, over all the runs of this simulation."""

    def __init__(self, sim):
        self.sim = sim
        self.uuids = {}          # uuid -> description of who has it
        self.last_birth = None
        self.births = set()
        self.alive = []
        self.lineage = {}        # id(individual) -> (individual, parents it has to record)

    def note(self, ind):
        self.lineage[id(ind)] = (ind, frozenset(ind.parents))

    def review(self, when):
        for ind, want in self.lineage.values():
            self.sim.check(frozenset(ind.parents) == want, 'lineage-changed-later',
                           f'{when}: an individual that was not touched now records '
                           f'{len(ind.parents)} parents, it had {len(want)}')

    def born(self, ind, how):
        sim = self.sim
        sim.check(ind.uuid is not None and ind.uuid not in self.uuids, 'identity-reused',
                  f'{how}: a new individual has the identity of an earlier one')
        self.uuids[ind.uuid] = how
        self.alive.append(ind)
        if isinstance(ind, DistributedIndividual):
            b = ind.birth_id
            sim.check(isinstance(b, int), 'birth-number-missing', f'{how}: birth number {b!r}')
            sim.check(b not in self.births, 'birth-number-reused', f'{how}: birth number {b} twice')
            sim.check(self.last_birth is None or b > self.last_birth, 'birth-number-order',
                      f'{how}: birth number {b} after {self.last_birth}')
            self.births.add(b)
            self.last_birth = b

    def root(self, ind):
        self.born(ind, 'created')
        self.sim.check(set(ind.parents) == set(), 'created-with-parents',
                       'a created individual has parents')
        self.note(ind)

    def clone(self, parent, child):
        self.born(child, 'cloned')
        self.sim.check(child is not parent, 'clone-is-parent', 'clone returned the original')
        self.sim.check(set(child.parents) == {parent.uuid}, 'wrong-parents-after-clone',
                       f'{len(child.parents)} parents recorded, expected exactly the cloned individual')
        self.note(child)
        if getattr(parent, 'is_viable', True) is False:
            self.sim.reach('child_of_failed_parent')


def observed_breeding(sim, src, book, sel, genomes, xovers, batch):
    """selection -> clone -> mutation -> crossover -> pool, with an observer between
    every two operators.  Returns (operators, offspring log)."""
    def look_clone(it):
        """wraps the clone operator"""
        taken = []

        def feed():
            for x in it:
                taken.append(x)
                yield x
        out = ops.clone(feed())
        k = 0
        while True:
            try:
                c = next(out)
            except StopIteration:
                return
            sim.check(len(taken) == k + 1, 'clone-skips', 'clone consumed more than it produced')
            before = (taken[k].uuid, frozenset(taken[k].parents))
            book.clone(taken[k], c)
            sim.check((taken[k].uuid, frozenset(taken[k].parents)) == before, 'parent-relabelled', '')
            k += 1
            yield c

    mut = genomes.mutator(src)

    def look_mut(it):
        ids = []

        def feed():
            for x in it:
                ids.append((x.uuid, frozenset(x.parents), getattr(x, 'birth_id', None)))
                yield x
        k = 0
        for c in mut(feed()):
            sim.check((c.uuid, frozenset(c.parents), getattr(c, 'birth_id', None)) == ids[k],
                      'mutation-changes-identity', 'mutation changed identity or lineage')
            k += 1
            yield c

    def look_xover(it, xover, state):
        """children are compared with the lineage their pair had on entry"""
        fed = []

        def feed():
            for x in it:
                fed.append((x, x.uuid, frozenset(x.parents), getattr(x, 'birth_id', None),
                            W.freeze(x.genome)))
                state['pairs'].append(fed[-1])
                yield x
        before = len(state['pairs'])
        for c in xover(feed()):
            sim.check(c is not None, 'not-an-individual', 'crossover yielded None')
            k = next((j for j, e in enumerate(state['pairs']) if e[1] == c.uuid), None)
            sim.check(k is not None, 'identity-changed-by-crossover', 'unknown identity after crossover')
            if k < before and state['pairs'][k] not in fed:
                sim.reach('second_child_later')
            a, b = state['pairs'][k - k % 2], state['pairs'][k - k % 2 + 1]
            union = a[2] | b[2]
            got = frozenset(c.parents)
            own = state['pairs'][k][2]
            sim.check(getattr(c, 'birth_id', None) == state['pairs'][k][3], 'birth-number-changed', '')
            if xover.p_xover >= 1.0:
                sim.check(got == union, 'wrong-parents-after-crossover',
                          f'{len(got)} parents, expected the {len(union)} of both')
                sim.reach('recombined')
            elif xover.p_xover <= 0.0:
                sim.check(got == own, 'wrong-parents-after-crossover', 'not recombined, lineage changed')
                sim.reach('not_recombined')
            else:
                # (later, the sibling may have been recombined again elsewhere)
                pair = (a, b) if k // 2 not in state['done'] else (state['pairs'][k],)
                mixed = any(W.freeze(x[0].genome) != x[4] for x in pair)
                sim.check(got == union or (got == own and not mixed), 'wrong-parents-after-crossover',
                          f'{len(got)} parents, neither its own nor those of both')
            # the sibling agrees
            other = (b if a[1] == c.uuid else a)[0]
            if k // 2 not in state['done']:
                theirs = state['done'][k // 2] = frozenset(other.parents)
                if got == union and union != own:
                    sim.check(theirs == union, 'siblings-disagree',
                              'two children of one crossover record different parents')
                book.note(other)
            else:
                sim.check(got == state['done'][k // 2], 'lineage-changed-later',
                          'the lineage of a child changed before it was handed out')
            book.note(c)
            book.review('after crossover')
            yield c
    def sieve(it):
        """lets some pass, so that siblings meet others next"""
        for x in it:
            if not src.bool(0.3):
                yield x

    # some pipelines clone (and mutate) what was itself only just cloned
    pre = src.weighted([(5, [look_clone, look_mut]), (1, [look_clone, look_clone, look_mut]),
                        (1, [look_clone, look_mut, look_clone])])
    if len(pre) > 2:
        sim.reach('clone_of_a_clone')
    out = [sel] + pre
    for x in xovers:
        if len(out) > 1 + len(pre):
            out.append(sieve)
        out.append(lambda it, x=x, state={'pairs': [], 'done': {}}: look_xover(it, x, state))
    return out, len(pre)


def run(sim, src):
    book = Book(sim)
    n = src.weighted([(2, 1), (1, 2)])
    for i in range(n):
        one(sim, src, book, i)
    # identities must still be what they were
    for ind in book.alive:
        sim.check(ind.uuid in book.uuids, 'identity-changed', 'an identity changed later')


def one(sim, src, book, nth):
    if nth:
        sim.reach('second_run')
        sim.nontrivial = True
    mode = src.weighted([(3, 'async'), (2, 'sync'), (2, 'serial'), (2, 'islands'), (1, 'walk')])
    sim.event('mode ' + mode)
    genomes = W.Genomes(src)
    problem = W.problem_for(src, genomes)
    arg, ctx = W.fresh_context(src)
    kw = {} if arg is None else {'context': arg}
    led = W.Ledger(sim)
    cls = DistributedIndividual if mode in ('async', 'sync') else \
        src.pick([DistributedIndividual, RobustIndividual, Individual])
    if cls is not Individual:
        led.fail_p, led.max_failures = src.pick([0.0, 0.3]), 10

    class Rep(Representation):
        def create_population(self, size, problem):
            pop = super().create_population(size, problem)
            sim.check(len(pop) == size, 'wrong-size', f'{len(pop)} created instead of {size}')
            for p in pop:
                book.root(p)
            return pop
    rep = Rep(initialize=genomes.init, decoder=W.SimDecoder(), individual_cls=cls)
    xovers = [genomes.crossover(src) for _ in range(src.weighted([(4, 0), (4, 1), (2, 2)]))]
    if len(xovers) > 1:
        sim.reach('recombined_twice')
    batch = src.int(1, 3)
    breed, pre = observed_breeding(sim, src, book, W.selector(src), genomes, xovers, batch)
    if mode in ('async', 'sync'):
        h = History()
        cl = Cluster(sim, workers=src.int(1, 4), faults=W.cluster_faults(src))
        client = TappedClient(cl, h)
    if mode == 'async':
        sim.reach('async')
        final = asynchronous.steady_state(
            client, src.size(1, 12, 60), src.size(1, 5, 20), src.size(1, 5, 20), rep, problem,
            breed + [ops.pool(size=batch)],
            inserter=src.pick([asynchronous.greedy_insert_into_pop,
                               asynchronous.tournament_insert_into_pop]),
            count_nonviable=src.bool(0.5), **kw)
    elif mode == 'sync':
        final = generational_ea(
            src.size(1, 4, 12), src.size(1, 5, 20), problem, rep,
            breed + [synchronous.eval_pool(client=client, size=src.size(1, 6, 20), **kw)],
            init_evaluate=synchronous.eval_population(client=client, **kw),
            k_elites=src.size(0, 2, 8), **kw)
    elif mode == 'serial':
        final = generational_ea(src.size(1, 4, 12), src.size(1, 5, 20), problem, rep,
                                breed + [ops.evaluate, ops.pool(size=src.size(1, 6, 20))],
                                k_elites=src.size(0, 2, 8), **kw)
    elif mode == 'walk':
        final = random_search(src.size(1, 8, 40), problem, rep,
                              [ops.cyclic_selection] + breed[1:1 + pre] + [ops.evaluate, ops.pool(size=1)], **kw)
    else:
        sim.reach('islands')
        import networkx as nx
        n = src.size(2, 4, 8)
        known = {}
        sponsors = {}

        def stamp(ind, dest):
            # an emigrant is a new individual whose parent is its sponsor
            sim.check(len(ind.parents) == 1 and
                      W.freeze(ind.genome) in sponsors.get(next(iter(ind.parents)), ()),
                      'wrong-parents-of-emigrant', 'the parent of an emigrant is not the individual it was '
                      'copied from')
            known[ind.uuid] = ind
            book.note(ind)
            return ind

        def emigrants(population):
            for ind in ops.random_selection(population):
                sponsors.setdefault(ind.uuid, set()).add(W.freeze(ind.genome))
                yield ind
        topo = nx.complete_graph(n)
        size = src.size(1, 4, 12)
        mig = ops.migrate(topology=topo, emigrant_selector=emigrants,
                          replacement_selector=ops.random_selection,
                          migration_gap=src.int(1, 2), customs_stamp=stamp, **kw)
        pops = multi_population_ea(
            src.size(1, 5, 12), n, size, problem, rep,
            breed + [ops.evaluate, ops.pool(size=size), mig], **kw)
        for u, ind in known.items():
            sim.check(u not in book.uuids, 'identity-reused', 'an emigrant kept the identity of its sponsor')
            sim.check(len(ind.parents) == 1 and set(ind.parents) <= set(book.uuids) | set(known),
                      'wrong-parents-of-emigrant',
                      'the parent of an emigrant is not the individual it was copied from')
            if isinstance(ind, DistributedIndividual):
                sim.check(ind.birth_id not in book.births, 'birth-number-reused', 'emigrant')
        for u, ind in known.items():
            book.uuids[u] = 'emigrant'
            if isinstance(ind, DistributedIndividual):
                book.births.add(ind.birth_id)
                book.last_birth = max(book.births)
        final = [i for p in pops for i in p]
    book.review('at the end of a run')
    for ind in final:
        sim.check(ind.uuid in book.uuids, 'unknown-member',
                  'a member of the final population was never created or cloned')
    sim.sample = dict(mode=mode, cls=cls.__name__, crossover=[type(x).__name__ for x in xovers],
                      faults=dict(sim.faults), individuals=len(book.uuids), trace=sim.log[:10])
