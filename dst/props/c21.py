"""C21: whatever the random numbers, operators stay in bounds and conserve genes."""
import math

import numpy as np

from .. import world as W
from ..rng import Extreme

from leap_ec import ops
from leap_ec.algorithm import generational_ea
from leap_ec.binary_rep.initializers import create_binary_sequence
from leap_ec.binary_rep.ops import mutate_bitflip
from leap_ec.decoder import IdentityDecoder
from leap_ec.executable_rep.cgp import CGPDecoder, cgp_mutate
from leap_ec.individual import Individual
from leap_ec.int_rep.initializers import create_int_vector
from leap_ec.int_rep.ops import mutate_randint, mutate_binomial
from leap_ec.problem import FunctionProblem
from leap_ec.real_rep.initializers import create_real_vector
from leap_ec.real_rep.ops import mutate_gaussian
from leap_ec.representation import Representation
from leap_ec.segmented_rep import ops as seg
from leap_ec.segmented_rep.initializers import create_segmented_sequence

RUNS = dict(quick=9000, thorough=150000)
RULE = ('one generational run or one sequence of operator applications in which drawn random '
        'numbers come out as extreme but legal values of their distributions; non-trivial: at '
        'least one such draw, distinct by the hash of its event sequence')
REAL = ['all of leap_ec', 'numpy, toolz', 'random and numpy.random away from the extremes']
STUB = ['random and numpy.random at drawn calls (the edges of the support asked for)']
ASSUMPTIONS = ['initial genomes lie within the bounds the operators are given',
               'recombined genomes have equal lengths']
MUST_REACH = ['real', 'int', 'binary', 'cgp', 'segmented', 'selection', 'clipped', 'sus_round',
              'swapped', 'whole_run', 'zero_rate', 'rules', 'convexity', 'per_segment', 'parameters',
              'scaled', 'negative_refused']


def run(sim, src):
    mode = src.weighted([(4, 'whole_run'), (4, 'recombine'), (3, 'selection'), (2, 'segmented'), (1, 'rules'),
                         (1, 'convexity')])
    sim.event(mode)
    with Extreme(sim, src.pick([0.0, 0.02, 0.2, 0.6])):
        dict(whole_run=whole, recombine=recombine, selection=selection, segmented=segmented,
             rules=rules, convexity=convexity)[mode](sim, src)


# -- representations ----------------------------------------------------
class Kind:
    def __init__(self, src, sim):
        self.kind = k = src.pick(['real', 'int', 'binary', 'cgp'])
        sim.reach(k)
        n = src.size(1, 6, 40)
        self.dec = IdentityDecoder()
        num = src.pick([1, 0.5, n])
        how = src.draw(2)
        rate = dict(expected_num_mutations=num) if how == 0 else dict(probability=src.pick([1.0, 0.3, 0.0]))
        self.zero = how == 1 and rate['probability'] == 0.0
        self.all = (how == 0 and num == n) or (how == 1 and rate['probability'] == 1.0)
        if k == 'real':
            style = src.draw(3)
            lo = src.pick([-5.0, 0.0, -1e-3, 1e6])
            wid = src.pick([10.0, 1.0, 1e-6, 0.0])
            per = [(lo + i, lo + i + wid) for i in range(n)]
            if style == 0:
                self.bounds = [(lo, lo + wid)] * n
                b = (lo, lo + wid)
            elif style == 1:
                self.bounds = b = per
            else:
                self.bounds, b = per, np.array(per)
            std = src.pick([1.0, 0.01, 1e3, 0.0])
            if src.bool(0.3):
                std = [std] * n
            e = 'isotropic' if src.bool(0.5) else num
            self.zero, self.all = False, e == 'isotropic'
            self.init = create_real_vector(self.bounds)
            t = dict(transform_slope=src.pick([2.0, -1.0]), transform_intercept=3.0) if src.bool(0.2) else {}
            self.mut = mutate_gaussian(std=std, bounds=b, expected_num_mutations=e, **t)
        elif k == 'int':
            self.bounds = [(src.pick([0, -7, 3]), 0) for _ in range(n)]
            self.bounds = [(a, a + src.pick([0, 1, 9, 300, 10 ** 5, 2 ** 33])) for a, _ in self.bounds]
            self.init = create_int_vector(self.bounds)
            b = np.array(self.bounds) if src.bool(0.3) else self.bounds
            if src.bool(0.5):
                self.mut = mutate_randint(bounds=b, **rate)
            else:
                std = src.pick([1.5, 0.3, 20.0])
                self.mut = mutate_binomial(std=[std] * n if src.bool(0.3) else std, bounds=b, **rate)
        elif k == 'binary':
            self.bounds = [(0, 1)] * n
            self.init = create_binary_sequence(n)
            self.mut = mutate_bitflip(**rate)
        else:
            prim = [lambda *x: sum(x), lambda *x: x[0] - x[1], lambda *x: max(x)][:src.int(1, 3)]
            layers = src.int(1, 3)
            self.dec = CGPDecoder(prim, num_inputs=src.int(1, 3), num_outputs=src.int(1, 2),
                                  num_layers=layers, nodes_per_layer=src.int(1, 2), max_arity=2,
                                  levels_back=src.pick([None, 1, layers]), prune=src.bool(0.5))
            self.bounds = cgp_bounds(self.dec, len(prim))
            self.init = self.dec.initializer()
            n = len(self.bounds)
            if how == 0:
                rate = dict(expected_num_mutations=src.pick([1, 0.5, n]))
            self.mut = cgp_mutate(cgp_decoder=self.dec, **rate)
            self.all = how == 1 and rate['probability'] == 1.0
        self.n = n
        if self.zero:
            sim.reach('zero_rate')

    def check(self, sim, g, when):
        g = np.asarray(g)
        sim.check(g.shape == (self.n,), 'genome-length', f'{when}: {g.shape} genes instead of {self.n}')
        if self.kind in ('int', 'cgp'):
            sim.check(g.dtype.kind in 'iu', 'gene-type', f'{when}: {g.dtype}')
        for x, (lo, hi) in zip(g.tolist(), self.bounds):
            sim.check(math.isfinite(x), 'gene-out-of-bounds', f'{when}: {x}')
            sim.check(lo <= x <= hi, 'gene-out-of-bounds',
                      f'{when}: {self.kind} gene {x!r} outside [{lo!r}, {hi!r}]')
            if self.kind == 'binary':
                sim.check(x in (0, 1), 'gene-out-of-bounds', f'{when}: bit {x}')


def cgp_bounds(d, prims):
    """What a feed-forward circuit needs, from the definition."""
    out = []
    for layer in range(d.num_layers):
        first = d.num_inputs + layer * d.nodes_per_layer
        low = 0 if layer < d.levels_back else d.num_inputs + (layer - d.levels_back) * d.nodes_per_layer
        for _ in range(d.nodes_per_layer):
            out.append((0, prims - 1))
            out += [(low, first - 1)] * d.max_arity
    nodes = d.num_inputs + d.num_layers * d.nodes_per_layer
    return out + [(0, nodes - 1)] * d.num_outputs


def value(x):
    if hasattr(x, 'num_inputs'):          # a circuit
        return float(sum(x([1.0] * x.num_inputs)))
    return float(np.sum(x))


# -- whole runs ---------------------------------------------------------
def whole(sim, src):
    sim.reach('whole_run')
    k = Kind(src, sim)
    size, gens = src.size(2, 5, 20), src.size(1, 4, 12)
    seen = []

    def watch(tag):
        @ops.iteriter_op
        def op(it):
            for i in it:
                k.check(sim, i.genome, tag)
                seen.append(i)
                yield i
        return op
    before = {}

    @ops.iteriter_op
    def remember(it):
        for i in it:
            before[id(i)] = (i, np.array(i.genome, copy=True))
            yield i

    @ops.iteriter_op
    def compare(it):
        for i in it:
            _, old = before[id(i)]
            if k.zero:
                sim.check(np.array_equal(old, i.genome), 'zero-rate-mutation',
                          f'mutation with probability 0 changed {old} into {i.genome}')
            elif k.kind == 'binary' and k.all:
                sim.check(np.array_equal(1 - old, i.genome), 'full-rate-mutation',
                          f'mutation with probability 1 changed {old} into {i.genome}')
            for x, (lo, hi) in zip(np.asarray(i.genome).tolist(), k.bounds):
                if x in (lo, hi):
                    sim.reach('clipped')
                    break
            yield i
    pipe = [src.pick([ops.tournament_selection, ops.random_selection, ops.cyclic_selection]), ops.clone,
            remember, k.mut, compare, watch('after mutation')]
    if src.bool(0.6):
        pipe += [crossover(src, k.n), watch('after crossover')]
    pipe += [ops.evaluate, ops.pool(size=size)]

    def init(pop):
        for i in pop:
            k.check(sim, i.genome, 'initial')
        return Individual.evaluate_population(pop)
    pop = generational_ea(gens, size, FunctionProblem(value, maximize=src.bool(0.5)),
                          Representation(initialize=k.init, decoder=k.dec), pipe, init_evaluate=init,
                          context=W.new_context())
    for i in pop:
        k.check(sim, i.genome, 'at the end')
    sim.event(' '.join(f'{i.fitness:.6g}' for i in pop))
    sim.sample = dict(mode='whole_run', kind=k.kind, bounds=str(k.bounds)[:120], gens=gens, size=size,
                      faults=dict(sim.faults))


def crossover(src, n):
    p = src.pick([1.0, 0.5, 0.0])
    if src.bool(0.5):
        return ops.UniformCrossover(p_swap=src.pick([0.2, 0.5, 1.0, 0.0]), p_xover=p)
    return ops.NAryCrossover(num_points=src.int(1, n), p_xover=p)


# -- recombination ------------------------------------------------------
def recombine(sim, src):
    n = src.size(1, 7, 70)
    op = crossover(src, n)
    uniform = isinstance(op, ops.UniformCrossover)
    m = 2 * src.size(1, 4, 10)
    gs = [np.arange(n) * 100 + j for j in range(m)]          # every gene tells its origin
    inds = [Individual(np.array(g)) for g in gs]
    out = []
    it = op(iter(list(inds)))
    for _ in range(m):
        out.append(next(it))
    sim.check(len({id(x) for x in out}) == m, 'child-lost', 'the children are not as many as the parents')
    for j in range(0, m, 2):
        a, b = out[j].genome, out[j + 1].genome
        ga, gb = gs[j], gs[j + 1]
        for x in (a, b):
            sim.check(np.shape(x) == (n,), 'genome-length', f'{x} from parents of length {n}')
        same = [(a[i] == ga[i] and b[i] == gb[i]) for i in range(n)]
        swap = [(a[i] == gb[i] and b[i] == ga[i]) for i in range(n)]
        sim.check(all(s or w for s, w in zip(same, swap)), 'genes-not-conserved',
                  f'{ga} x {gb} gave {a} and {b}')
        if any(swap):
            sim.reach('swapped')
        if op.p_xover == 0.0:
            sim.reach('zero_rate')
            sim.check(all(same), 'zero-rate-crossover', f'p_xover=0 gave {a} and {b}')
        if uniform:
            if op.p_swap == 0.0:
                sim.check(all(same), 'zero-rate-swap', f'p_swap=0 gave {a} and {b}')
            elif op.p_swap == 1.0 and op.p_xover == 1.0:
                sim.check(all(swap), 'full-rate-swap', f'p_swap=1 gave {a} and {b}')
        else:
            turns = sum(1 for i in range(1, n) if swap[i] != swap[i - 1])
            sim.check(turns <= op.num_points, 'too-many-crossover-points',
                      f'{turns} exchanges with {op.num_points} points: {a}')
        sim.event(f'{a.tolist()}')
    sim.sample = dict(mode='recombine', n=n, op=type(op).__name__, pairs=m // 2, faults=dict(sim.faults))


# -- selection ----------------------------------------------------------
def selection(sim, src):
    sim.reach('selection')
    m = src.size(1, 7, 40)
    fits = [src.pick([1.0, 0.0, 0.1, 0.3, 7.0, 1e-9, 1e9, 1 / 3]) for _ in range(m)]
    if src.bool(0.25):
        fits[src.pick([0, -1])] = 0.0
    if sum(fits) == 0:
        fits[src.draw(m)] = 1.0
    prob = FunctionProblem(value, maximize=True)
    pop = []
    # the value of a member is (metric + offset) ** exponent
    scale = {}
    if src.bool(0.5):
        scale = dict(offset=src.pick([0, 'pop-min', 2.5]), exponent=src.pick([1, 2, 3]))
        if src.bool(0.4):
            scale['key'] = lambda i: i.genome[0]
        if scale['offset'] != 0:
            fits = [f - src.pick([0.0, 1.5, 2.5, 5.0]) for f in fits]
        sim.reach('scaled')
    metric = list(fits)
    for f in fits:
        i = Individual(np.array([f]), problem=prob)
        i.fitness = -f if 'key' in scale else f
        pop.append(i)
    name = src.pick(['proportional', 'sus', 'sus', 'tournament', 'random', 'cyclic', 'naive'])
    idx = []
    shuffle = src.bool(0.5)
    n = src.pick([m, m, 1, 2 * m])
    kk = src.size(1, 4, 12)
    worst = src.bool(0.4)
    keep = list(pop)
    sel = dict(proportional=lambda: ops.proportional_selection(pop, **scale),
               sus=lambda: ops.sus_selection(pop, n=n, shuffle=shuffle, **scale),
               tournament=lambda: ops.tournament_selection(pop, k=kk, select_worst=worst, indices=idx),
               random=lambda: ops.random_selection(pop, indices=idx),
               cyclic=lambda: ops.cyclic_selection(pop),
               naive=lambda: ops.naive_cyclic_selection(pop, indices=idx))[name]()
    draws = src.int(1, 4) * (n if name == 'sus' else m)
    got = []
    if name in ('proportional', 'sus') and scale:
        off = -min(metric) if scale['offset'] == 'pop-min' else scale['offset']
        fits = [(f + off) ** scale['exponent'] for f in metric]
        if min(fits) < 0:
            try:
                next(sel)
            except ValueError:
                sim.reach('negative_refused')
                return
            sim.fail('negative-accepted', f'{name} selection of values {fits}')
        if sum(fits) == 0:
            return
    for _ in range(draws):
        x = next(sel)
        j = [q for q, y in enumerate(pop) if y is x]
        sim.check(len(j) == 1, 'selected-a-stranger', f'{name} selected {x!r}')
        if name in ('tournament', 'random', 'naive'):
            sim.check(idx == j, 'wrong-index', f'{name} reports {idx} for member {j}')
        got.append(j[0])
    sim.check(all(a is b for a, b in zip(pop, keep)) and len(pop) == m, 'population-changed',
              f'{name} changed the list it selects from')
    if name == 'naive':
        sim.check(got == [q % m for q in range(draws)], 'order', f'{got}')
    if name == 'cyclic':
        sim.check(got[:m] == list(range(m)), 'order', f'first tour {got[:m]}')
        for r in range(0, draws, m):
            sim.check(sorted(got[r:r + m]) == list(range(m)), 'tour-incomplete', f'tour {got[r:r + m]} of {m}')
    if name == 'proportional':
        for j in got:
            sim.check(fits[j] > 0, 'selected-worthless', f'proportional selection of value 0 among {fits}')
    if name == 'sus':
        sim.reach('sus_round')
        total = math.fsum(fits)
        for r in range(0, draws, n):
            c = [got[r:r + n].count(j) for j in range(m)]
            for j in range(m):
                want = fits[j] / total * n
                tol = 1e-6
                sim.check(math.floor(want - tol) <= c[j] <= math.ceil(want + tol), 'sus-spread',
                          f'value {fits[j]} of {fits} selected {c[j]} times in {n}, expected {want:.3f}')
                if fits[j] == 0:
                    sim.check(c[j] == 0, 'selected-worthless', f'value 0 selected among {fits}')
    sim.event(f'{name} {got}')
    sim.sample = dict(mode='selection', name=name, fits=fits, got=got[:12], faults=dict(sim.faults))


# -- segments -----------------------------------------------------------
def per_segment(sim, src):
    """A circuit with real parameters: one mutation per segment, each with its own bounds."""
    from leap_ec.executable_rep.cgp import CGPWithParametersDecoder, cgp_genome_mutate
    from leap_ec.real_rep.ops import genome_mutate_gaussian
    sim.reach('per_segment')
    sim.reach('parameters')
    layers, per, pars = src.int(1, 3), src.int(1, 3), src.int(1, 2)
    dec = CGPWithParametersDecoder([lambda *x: sum(x[:2]), lambda *x: x[0] - x[-1]], num_inputs=src.int(1, 3),
                                   num_outputs=src.int(1, 2), num_layers=layers, nodes_per_layer=per,
                                   max_arity=2, num_parameters_per_node=pars)
    cb = cgp_bounds(dec, 2)
    k = layers * per * pars
    lo = src.pick([0.0, -2.0])
    init = dec.initialize(parameters_initializer=create_real_vector([(lo, lo + 1.0)] * k))
    p = src.pick([1.0, 0.3, 0.0])
    mut = seg.segmented_mutate(mutator_functions=[
        cgp_genome_mutate(dec, probability=p),
        genome_mutate_gaussian(std=src.pick([0.1, 10.0]), expected_num_mutations=src.pick([1, 0.5, k]),
                               bounds=(lo, lo + 1.0))])
    inds = [Individual(init()) for _ in range(src.int(1, 3))]

    def check(g, when):
        sim.check(len(g) == 2 and len(g[0]) == len(cb) and len(g[1]) == k, 'segments', f'{when}: {g}')
        for x, (a, b) in zip(g[0], cb):
            sim.check(a <= x <= b, 'gene-out-of-bounds', f'{when}: {x} outside [{a}, {b}]')
        for x in g[1]:
            sim.check(lo <= x <= lo + 1.0, 'gene-out-of-bounds', f'{when}: parameter {x} outside [{lo}, {lo + 1}]')
    for i in inds:
        check(i.genome, 'initial')
    for _ in range(src.int(1, 4)):
        old = [np.array(i.genome[0], copy=True) for i in inds]
        it = mut(iter(list(inds)))
        for i, o in zip(inds, old):
            i.fitness = 1.0
            sim.check(next(it) is i, 'other-individual', 'segmented_mutate')
            check(i.genome, 'mutated')
            sim.check(i.fitness is None, 'stale-fitness', 'a mutated individual kept its fitness')
            if p == 0.0:
                sim.check(np.array_equal(o, i.genome[0]), 'zero-rate-mutation', f'{o} became {i.genome[0]}')
        sim.event(f'{inds[0].genome[0].tolist()}')
    sim.sample = dict(mode='per_segment', layers=layers, per=per, faults=dict(sim.faults))


def segmented(sim, src):
    if src.bool(0.3):
        return per_segment(sim, src)
    sim.reach('segmented')
    n, k = src.size(1, 3, 10), src.size(1, 4, 12)
    count = [0]

    def fresh():
        count[0] += 1
        return np.full(n, count[0])
    ind = Individual(create_segmented_sequence(k, fresh)())
    sim.check(len(ind.genome) == k, 'segments', f'{len(ind.genome)} segments instead of {k}')
    for _ in range(src.int(1, 5)):
        p = src.pick([1.0, 0.5, 0.0])
        before = [s.copy() for s in ind.genome]
        old = [tuple(s) for s in before]
        what = src.pick(['add', 'remove', 'copy', 'add_end', 'copy_end', 'flip'])
        made = count[0]
        op = dict(add=lambda it: seg.add_segment(it, seq_initializer=fresh, probability=p),
                  add_end=lambda it: seg.add_segment(it, seq_initializer=fresh, probability=p, append=True),
                  remove=lambda it: seg.remove_segment(it, probability=p),
                  copy=lambda it: seg.copy_segment(it, probability=p),
                  copy_end=lambda it: seg.copy_segment(it, probability=p, append=True),
                  flip=lambda it: seg.apply_mutation(it, mutator=lambda s, expected_num_mutations: s + 0)
                  )[what]
        out = next(op(iter([ind])))
        sim.check(out is ind, 'other-individual', what)
        new = [tuple(s) for s in ind.genome]
        grown = len(new) - len(old)
        if what == 'flip':
            sim.check(new == old, 'segments', f'{old} became {new}')
            continue
        if p == 0.0:
            sim.reach('zero_rate')
            sim.check(new == old, 'zero-rate-segment', f'{what} with probability 0: {old} became {new}')
        if what == 'remove':
            want = (0, -1) if len(old) > 1 else (0,)
            sim.check(grown in want and (p < 1.0 or grown == want[-1]), 'segments', f'remove: {old} became {new}')
            ok = grown == 0 and new == old or any(old[:j] + old[j + 1:] == new for j in range(len(old)))
        else:
            sim.check(grown in (0, 1) and (p < 1.0 or grown == 1), 'segments', f'{what}: {old} became {new}')
            where = [len(old)] if what.endswith('_end') else range(len(old) + 1)
            extra = {tuple([made + 1] * n)} if what.startswith('add') else set(old)
            ok = grown == 0 and new == old or any(
                new[:j] + new[j + 1:] == old and new[j] in extra for j in where if grown)
        sim.check(ok, 'segments', f'{what}: {old} became {new}')
        sim.event(f'{what} {len(new)}')
    sim.sample = dict(mode='segmented', segments=len(ind.genome), faults=dict(sim.faults))


def rules(sim, src):
    """Rule sets: segments with conditions and an action, each in its own range."""
    from gymnasium import spaces
    from leap_ec.executable_rep.rules import PittRulesDecoder
    from leap_ec.int_rep.ops import individual_mutate_randint
    from leap_ec.real_rep.ops import genome_mutate_gaussian
    sim.reach('rules')
    m, acts, k = src.size(1, 3, 8), src.size(1, 4, 9), src.size(1, 4, 12)
    low = np.array([float(src.pick([0, -5, 10])) for _ in range(m)], dtype=np.float32)
    high = low + np.array([float(src.pick([1, 20, 0.5])) for _ in range(m)], dtype=np.float32)
    if src.bool(0.4):
        low, high = low.reshape(1, m), high.reshape(1, m)
    box, out = spaces.Box(low=low, high=high, dtype=np.float32), spaces.Discrete(acts)
    box.seed(src.seed32())
    out.seed(src.seed32())
    dec = PittRulesDecoder(input_space=box, output_space=out)
    want = []
    for a, b in zip(low.reshape(-1), high.reshape(-1)):
        want += [(a, b), (a, b)]
    want.append((0, acts - 1))

    def check(g, when):
        sim.check(len(g) == k, 'segments', f'{when}: {len(g)} rules instead of {k}')
        for r in g:
            sim.check(np.shape(r) == (2 * m + 1,), 'genome-length', f'{when}: rule {r}')
            for x, (a, b) in zip(r, want):
                sim.check(a <= x <= b, 'gene-out-of-bounds', f'{when}: rule gene {x} outside [{a}, {b}] in {r}')
            sim.check(float(r[-1]).is_integer(), 'gene-type', f'{when}: action {r[-1]}')
    inds = [Individual(dec.initializer(num_rules=k)()) for _ in range(src.int(1, 3))]
    for i in inds:
        check(i.genome, 'initial rules')
        sim.check([[tuple(map(float, b)) for b in r] for r in dec.bounds(k)] ==
                  [[tuple(map(float, b)) for b in want]] * k, 'wrong-bounds', f'{dec.bounds(k)}')
    num = src.pick([1, 0.5, 2 * m])
    p = src.pick([1.0, 0.3, 0.0])
    mut = dec.mutator(
        condition_mutator=genome_mutate_gaussian(std=src.pick([0.1, 5.0, 1e3]), expected_num_mutations=num,
                                                 bounds=dec.condition_bounds),
        action_mutator=individual_mutate_randint(bounds=dec.action_bounds, probability=p))
    for _ in range(src.int(1, 4)):
        acts_before = [[r[-1] for r in i.genome] for i in inds]
        it = mut(iter(list(inds)))
        for i, old in zip(inds, acts_before):
            i.fitness = 1.0
            sim.check(next(it) is i, 'other-individual', 'rules')
            check(i.genome, 'mutated rules')
            sim.check(i.fitness is None, 'stale-fitness', 'a mutated rule set kept its fitness')
            if p == 0.0:
                sim.check([r[-1] for r in i.genome] == old, 'zero-rate-mutation',
                          f'actions {old} became {[r[-1] for r in i.genome]}')
        sim.event(f'rules {[float(r[-1]) for r in inds[0].genome]}')
    sim.sample = dict(mode='rules', inputs=m, rules=k, faults=dict(sim.faults))


def convexity(sim, src):
    """Landscape features: points drawn between two points of a design."""
    from leap_ec.landscape_features.exploratory import ELAConvexity
    sim.reach('convexity')
    n, m, tests = src.size(1, 3, 10), src.size(3, 8, 30), src.size(1, 10, 60)
    calls = []

    def f(x):
        v = float(sum((j + 1) * y * y for j, y in enumerate(x)))
        calls.append((np.array(x, copy=True), v))
        return v
    prob = FunctionProblem(f, maximize=src.bool(0.5))
    rep = Representation(initialize=create_real_vector([(-3.0, 4.0 + j) for j in range(n)]))
    design = rep.create_population(m, prob)
    for i in design:
        i.evaluate()
    was = [(i, np.array(i.genome, copy=True), i.fitness) for i in design]
    calls.clear()
    e = ELAConvexity(prob, rep, design, num_convexity_tests=tests)
    sim.check(len(calls) == tests and len(e.pairs) == len(e.combinations) == len(e.deltas) == tests,
              'convexity-tests', f'{len(calls)} evaluations, {len(e.pairs)} pairs for {tests} tests')
    for (x, y), (fit, p), delta, (at, v) in zip(e.pairs, e.combinations, e.deltas, calls):
        sim.check(x is not y and any(x is i for i in design) and any(y is i for i in design),
                  'convexity-pair', 'a pair that is not two different points of the design')
        sim.check(np.array_equal(at, p.genome) and p.fitness == v, 'convexity-point', f'{p.genome}')
        d = x.genome - y.genome
        # the weight, from the locus that tells it best
        j = int(np.argmax(np.abs(d)))
        if abs(d[j]) < 1e-9:
            continue
        a = (p.genome[j] - y.genome[j]) / d[j]
        sim.check(-1e-9 <= a <= 1 + 1e-9, 'not-between', f'weight {a}')
        sim.check(np.allclose(p.genome, a * x.genome + (1 - a) * y.genome, atol=1e-7), 'not-between',
                  f'{p.genome} is not between {x.genome} and {y.genome}')
        sim.check(abs(fit - (a * x.fitness + (1 - a) * y.fitness)) <= 1e-6 * (1 + abs(x.fitness) + abs(y.fitness)),
                  'weights-differ', f'value {fit} combined otherwise than the point (weight {a})')
        sim.check(W.close(float(delta), float(v - fit)), 'wrong-delta', f'{delta} instead of {v - fit}')
    for i, g, v in was:
        sim.check(np.array_equal(i.genome, g) and i.fitness == v, 'design-altered', f'{g} became {i.genome}')
    sim.event(f'{[round(float(x), 6) for x in e.deltas[:5]]}')
    sim.sample = dict(mode='convexity', n=n, design=m, tests=tests, faults=dict(sim.faults))
