"""C08: a fitness always belongs to the genome that carries it."""
import numpy as np

from .. import world as W
from ..cluster import Cluster
from ..steady import TappedClient, History

from leap_ec import ops
from leap_ec.binary_rep.initializers import create_binary_sequence
from leap_ec.binary_rep.ops import mutate_bitflip, genome_mutate_bitflip
from leap_ec.decoder import Decoder
from leap_ec.distrib import synchronous
from leap_ec.distrib.individual import DistributedIndividual
from leap_ec.individual import Individual, RobustIndividual
from leap_ec.int_rep.initializers import create_int_vector
from leap_ec.int_rep.ops import mutate_randint, mutate_binomial, individual_mutate_randint
from leap_ec.problem import ScalarProblem, AverageFitnessProblem, FitnessOffsetProblem
from leap_ec.real_rep.initializers import create_real_vector
from leap_ec.real_rep.ops import mutate_gaussian, genome_mutate_gaussian
from leap_ec.representation import Representation
from leap_ec.segmented_rep import ops as seg
from leap_ec.segmented_rep.initializers import create_segmented_sequence

RUNS = dict(quick=8000, thorough=100000)
RULE = ('a sequence of drawn breeding pipelines over one population (vector and segmented '
        'genomes, serial, grouped and distributed evaluation) with evaluations failing at '
        'drawn points and pipelines abandoned half-way; non-trivial: at least one fault '
        'injected or one pipeline abandoned, distinct by the hash of its event sequence')
REAL = W.SEAMS_REAL
STUB = W.SEAMS_STUB
ASSUMPTIONS = ['offspring pipelines clone what they select, as documented; without a clone only '
               'the modified individual itself may change']
MUST_REACH = ['abandoned', 'grouped', 'distributed', 'segmented', 'no_clone', 'duplicated_segment',
              'evaluated_again', 'phenome_read']


class SegProblem(ScalarProblem):
    """Distinguishes genomes that differ in any gene or in the segmentation."""

    def __init__(self, maximize):
        super().__init__(maximize)

    def pure(self, phenome):
        v, k = 0.0, 0
        for s in phenome:
            v += 1000.0 * (k + 1)
            for x in np.atleast_1d(s):
                k += 1
                v += (k + 1) * float(x)
        return v

    def evaluate(self, phenome, *a, **k):
        led = W.ledger()
        if led is not None:
            led.visit('problem', None)
        return self.pure(phenome)


class Scaled(Decoder):
    """phenome = 3 * genome + 1, never the genome object itself"""

    def decode(self, genome, *a, **k):
        if isinstance(genome, list):
            return [np.array(s) * 3 + 1 for s in genome]
        return np.array(genome) * 3 + 1


class World:
    def __init__(self, sim, src):
        self.sim, self.src = sim, src
        self.segmented = src.bool(0.35)
        self.kind = src.pick(['binary', 'real', 'int'])
        self.n = src.size(2, 5, 40)
        n = self.n
        if self.kind == 'binary':
            one = create_binary_sequence(n)
            self.muts = [lambda: mutate_bitflip(expected_num_mutations=1),
                         lambda: mutate_bitflip(probability=src.pick([0.5, 1.0, 0.0]))]
            self.segmut = [lambda: seg.apply_mutation(mutator=genome_mutate_bitflip,
                                                      expected_num_mutations=2)]
            self.seg1 = genome_mutate_bitflip(expected_num_mutations=1)
        elif self.kind == 'real':
            b = [(-4.0 - i, 5.0 + i) for i in range(n)]
            one = create_real_vector(b)
            self.muts = [lambda: mutate_gaussian(std=1.0, expected_num_mutations='isotropic'),
                         lambda: mutate_gaussian(std=0.5, expected_num_mutations=1, bounds=b),
                         lambda: mutate_gaussian(std=[1.0] * n, expected_num_mutations=1)]
            self.segmut = [lambda: seg.apply_mutation(
                mutator=genome_mutate_gaussian(std=1.0), expected_num_mutations=2)]
            self.seg1 = genome_mutate_gaussian(std=1.0, expected_num_mutations='isotropic')
        else:
            b = [(0, 9)] * n
            one = create_int_vector(b)
            self.muts = [lambda: mutate_randint(bounds=b, expected_num_mutations=1),
                         lambda: mutate_randint(bounds=b, probability=1.0),
                         lambda: mutate_binomial(std=1.5, bounds=b, expected_num_mutations=1)]
            self.segmut = [lambda: seg.apply_mutation(
                mutator=individual_mutate_randint(bounds=b), expected_num_mutations=2)]
            self.seg1 = individual_mutate_randint(bounds=b, expected_num_mutations=1)
        self.one = one
        self.init = create_segmented_sequence(src.size(2, 4, 12), one) if self.segmented else one
        inner = SegProblem(src.bool(0.5)) if self.segmented else \
            W.SimProblem(maximize=src.bool(0.5))
        self.inner = inner
        wrap = src.draw(4)
        self.problem = inner
        self.pure = inner.pure
        if wrap == 1:
            self.problem = AverageFitnessProblem(inner, n=src.int(1, 3))
        elif wrap == 2:
            self.problem = FitnessOffsetProblem(inner, 7.5)
            self.pure = lambda ph: inner.pure(ph) + 7.5
        self.cls = src.pick([Individual, RobustIndividual, DistributedIndividual])
        self.decoder = Scaled()
        self.rep = Representation(initialize=self.init, decoder=self.decoder,
                                  individual_cls=self.cls)
        self.remote = src.bool(0.4)
        self.seen = {}       # id -> (individual, genome at last look, fitness at last look)

    def variation(self, n_ops):
        src, out = self.src, []
        for _ in range(n_ops):
            if self.segmented:
                c = src.draw(6)
                if c == 0:
                    out.append(src.pick(self.segmut)())
                elif c == 1:
                    out.append(seg.add_segment(seq_initializer=self.one, probability=0.7,
                                               append=src.bool(0.5)))
                elif c == 2:
                    out.append(seg.remove_segment(probability=0.7))
                elif c == 3:
                    out.append(seg.copy_segment(probability=0.8, append=src.bool(0.5)))
                    self.sim.reach('duplicated_segment')
                elif c == 4:
                    out.append(ops.NAryCrossover(num_points=1, p_xover=src.pick([1.0, 0.5]),
                                                 persist_children=src.bool(0.3)))
                else:
                    out.append(src.pick(self.segmut)())
            else:
                c = src.draw(4)
                if c <= 1:
                    out.append(src.pick(self.muts)())
                elif c == 2:
                    out.append(ops.UniformCrossover(p_swap=src.pick([0.2, 0.5, 1.0]),
                                                    p_xover=src.pick([1.0, 0.5]),
                                                    persist_children=src.bool(0.3)))
                else:
                    out.append(ops.NAryCrossover(num_points=src.int(1, 2),
                                                 p_xover=src.pick([1.0, 0.5]),
                                                 persist_children=src.bool(0.3)))
        return out

    # -- the oracle -----------------------------------------------------
    def look(self, where, may_change=()):
        """Everything ever seen must be unchanged (except may_change), and no
        fitness may belong to another genome."""
        sim = self.sim
        for key, (ind, g, f) in list(self.seen.items()):
            if id(ind) in may_change:
                continue
            sim.check(W.freeze(ind.genome) == g, 'bystander-genome-changed',
                      f'{where}: the genome of an individual that was only read has changed')
            sim.check(W.same_number(ind.fitness, f), 'bystander-fitness-changed',
                      f'{where}: fitness {f} became {ind.fitness}')

    def admit(self, inds, where, evaluated):
        sim = self.sim
        for ind in inds:
            sim.check(isinstance(ind, Individual), 'not-an-individual', f'{where}: {ind!r}')
            if ind.fitness is None:
                sim.check(not evaluated, 'not-evaluated', f'{where}: fitness is None')
            elif getattr(ind, 'is_viable', True) is False and W.isnan(ind.fitness):
                pass
            else:
                want = self.pure(self.decoder.decode(ind.genome))
                sim.check(W.close(ind.fitness, want), 'fitness-of-another-genome',
                          f'{where}: individual carries fitness {ind.fitness}, its genome is '
                          f'worth {want}')
                if evaluated:
                    self.shown(ind, where)
            self.seen[id(ind)] = (ind, W.freeze(ind.genome), ind.fitness)
        self.aliasing(where)

    def shown(self, ind, where):
        want, got = self.decoder.decode(ind.genome), ind.phenome
        self.sim.check(W.freeze(got) == W.freeze(want), 'phenome-of-another-genome',
                       f'{where}: the phenome is {got}, the genome decodes to {want}')

    def aliasing(self, where):
        owners = {}
        for ind, _, _ in self.seen.values():
            parts = ind.genome if isinstance(ind.genome, list) else [ind.genome]
            for p in parts:
                base = p
                while isinstance(base, np.ndarray) and isinstance(base.base, np.ndarray):
                    base = base.base
                k = id(base)
                if k in owners and np.shares_memory(owners[k][1], p):
                    self.sim.fail('shared-genome', f'{where}: two '
                                  f'{"individuals" if owners[k][0] is not ind else "segments of one individual"} '
                                  'share the memory of a genome')
                owners[k] = (ind, p)


def run(sim, src):
    w = World(sim, src)
    if w.segmented:
        sim.reach('segmented')
    W.fresh_context(src)
    led = W.Ledger(sim)
    client = None
    pop = w.rep.create_population(src.size(2, 6, 30), w.problem)
    w.admit(pop, 'creation', False)
    if src.bool(0.5):
        pop = w.cls.evaluate_population(pop)
    else:
        sim.reach('grouped')
        pop = ops.grouped_evaluate(pop, max_individuals_per_chunk=src.pick([None, 1, 2, 3, 7]))
    w.admit(pop, 'initial evaluation', True)
    led.fail_p = src.pick([0.0, 0.05, 0.2])
    led.max_failures = src.int(1, 10)
    for r in range(src.size(1, 5, 15)):
        pop = one_round(sim, src, w, led, pop, r)
    sim.sample = dict(kind=w.kind, segmented=w.segmented, cls=w.cls.__name__,
                      problem=type(w.problem).__name__, faults=dict(sim.faults),
                      trace=sim.log[:12])


def one_round(sim, src, w, led, pop, r):
    if src.bool(0.15):
        return without_clone(sim, src, w, led, pop)
    sel = W.selector(src)
    n = src.size(1, 7, 30)
    steps = w.variation(src.int(1, 3))
    born = []

    @ops.iteriter_op
    def tap(it):
        while True:
            try:
                i = next(it)
            except StopIteration:
                return
            sim.check(i is not None, 'not-an-individual', 'the pipeline produced None')
            sim.check(i.fitness is None, 'offspring-with-fitness',
                      f'an unevaluated offspring already has fitness {i.fitness}')
            sim.check(all(i is not b for b in born) and id(i) not in w.seen, 'offspring-reused',
                      'the pipeline yielded the same individual twice')
            born.append(i)
            if src.bool(0.2):
                # somebody looks at it before it is evaluated
                sim.reach('phenome_read')
                w.shown(i, 'an offspring not yet evaluated')
            yield i
    # a distributed evaluation returns copies that refer to a copy of the problem,
    # which grouped evaluation refuses, loudly and as documented
    how = src.weighted([(4, 'evaluate'), (1, 'bulk'), (2, 'distributed')] if w.remote else
                       [(4, 'evaluate'), (1, 'bulk'), (3, 'grouped')])
    sim.event(f'round {how} n={n} steps={[type(s).__name__ for s in steps]}')
    stream = sel(pop)
    stream = ops.clone(stream)
    for s in steps:
        stream = s(stream)
    stream = tap(stream)
    abandoned = src.bool(0.15)
    try:
        if abandoned:
            sim.reach('abandoned')
            sim.nontrivial = True
            kids = ops.pool(stream, size=src.int(0, n))
            w.look('abandoned pipeline')
            w.admit(kids, 'abandoned pipeline', False)
            return pop
        if how == 'evaluate':
            kids = ops.pool(ops.evaluate(stream), size=n)
        elif how == 'grouped':
            sim.reach('grouped')
            kids = ops.grouped_evaluate(ops.pool(stream, size=n),
                                        max_individuals_per_chunk=src.pick([None, 1, 2, 3, 7]))
        elif how == 'bulk':
            kids = w.cls.evaluate_population(ops.pool(stream, size=n))
        else:
            sim.reach('distributed')
            cl = Cluster(sim, workers=src.int(1, 3), faults=W.cluster_faults(src))
            kids = synchronous.eval_pool(stream, client=TappedClient(cl, History()), size=n)
    except Exception as e:
        hit = [x['error'] for x in led.entries if 'error' in x]
        if not any(type(x) is type(e) and x.args == e.args for x in hit) and \
                not isinstance(e, RuntimeError):
            raise
        if isinstance(e, RuntimeError) and not hit:
            raise
        # an evaluation failed and took the pipeline with it
        sim.reach('abandoned')
        w.look('failed pipeline')
        w.admit(born, 'failed pipeline', False)
        return pop
    w.look(f'{how} of {n} offspring')
    sim.check(len(kids) == n, 'wrong-number', f'{len(kids)} offspring instead of {n}')
    w.admit(born if how != 'distributed' else born + list(kids), how, False)
    w.admit(kids, how, True)
    s = src.draw(3)
    if s == 0:
        new = ops.truncation_selection(kids, size=min(len(pop), len(kids)), parents=pop)
    elif s == 1:
        new = ops.elitist_survival(list(kids), parents=pop, k=src.int(0, 2))
    else:
        new = kids
    w.look('survival')
    w.admit(new, 'survival', True)
    return list(new)


def without_clone(sim, src, w, led, pop):
    """Variation applied directly: the individual changes, its fitness must go."""
    sim.reach('no_clone')
    sim.event('no clone')
    before = {id(i): (W.freeze(i.genome), i.fitness) for i in pop}
    stream = iter(src.shuffle(pop))
    for s in w.variation(src.int(1, 2)):
        stream = s(stream)
    touched = []
    for _ in range(src.int(1, len(pop))):
        try:
            touched.append(next(stream))
        except (StopIteration, RuntimeError):
            break
    # crossover may have consumed more than it returned
    w.look('variation without clone', may_change={id(i) for i in pop})
    for i in pop:
        g, f = before[id(i)]
        if W.freeze(i.genome) != g:
            sim.check(i.fitness is None, 'stale-fitness',
                      f'the genome changed and the fitness {i.fitness} stayed')
        w.seen[id(i)] = (i, W.freeze(i.genome), i.fitness)
    w.aliasing('variation without clone')
    led_p, led.fail_p = led.fail_p, 0.0
    if src.bool(0.5):
        for i in pop:
            if i.fitness is None:
                i.evaluate()
    else:
        # a genome set by hand, the fitness is the old one until it is evaluated again
        sim.reach('evaluated_again')
        for i in pop:
            if src.bool(0.5):
                i.genome = w.init()
        again = src.draw(4) if not w.remote else src.pick([0, 1, 3])
        sim.event(f'again {again}')
        if again == 0:
            pop = ops.pool(ops.evaluate(iter(pop)), size=len(pop))
        elif again == 1:
            pop = w.cls.evaluate_population(pop)
        elif again == 2:
            pop = ops.grouped_evaluate(pop, max_individuals_per_chunk=src.pick([None, 1, 2, 3]))
        else:
            for i in pop:
                i.evaluate()
    led.fail_p = led_p
    w.admit(pop, 're-evaluation', True)
    return pop
