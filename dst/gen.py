"""A drawn generational workload as plain data, from which fresh operators can
be built as often as needed (C06, C09, C10, C20 run the same plan twice)."""
from . import world as W

from leap_ec import ops
from leap_ec.binary_rep.initializers import create_binary_sequence
from leap_ec.binary_rep.ops import mutate_bitflip
from leap_ec.real_rep.initializers import create_real_vector
from leap_ec.real_rep.ops import mutate_gaussian
from leap_ec.int_rep.initializers import create_int_vector
from leap_ec.int_rep.ops import mutate_randint, mutate_binomial
from leap_ec.problem import AverageFitnessProblem, FitnessOffsetProblem
from leap_ec.representation import Representation


def draw(src, pop=(1, 8), gens=(0, 6), offspring='any', kinds=('binary', 'real', 'int')):
    d = dict(kind=src.pick(list(kinds)), n=src.size(2, 6, 40), pop=src.size(*pop, max(30, pop[1])),
             gens=src.size(*gens, max(20, gens[1])), mut=src.draw(2), xover=src.draw(3),
             sel=src.draw(7), maximize=src.bool(0.5), mode=src.pick(['weighted', 'sum']),
             k=src.size(0, 3, 12), p_xover=src.pick([1.0, 0.5]), decoder=src.pick([1, 3]))
    if d['sel'] >= 5:
        # proportional selection needs positive values (and cannot take failed ones)
        d['sel'] = d['sel'] if d['kind'] != 'real' else 0
    d['num_points'] = src.size(1, min(2, d['n']), d['n'])
    d['offspring'] = d['pop'] if offspring == 'same' or src.bool(0.6) else src.size(1, 10, 40)
    d['infinite'] = d['sel'] < 5 and src.bool(0.1)
    return d


def initializer(d):
    n = d['n']
    if d['kind'] == 'binary':
        return create_binary_sequence(n)
    if d['kind'] == 'real':
        return create_real_vector([(-4.0 - i, 5.0 + i) for i in range(n)])
    return create_int_vector([(0, 9)] * n)


def mutator(d):
    n = d['n']
    if d['kind'] == 'binary':
        return [mutate_bitflip(expected_num_mutations=1), mutate_bitflip(probability=0.5)][d['mut']]
    if d['kind'] == 'real':
        return [mutate_gaussian(std=1.0, expected_num_mutations='isotropic'),
                mutate_gaussian(std=0.5, expected_num_mutations=1,
                                bounds=[(-4.0 - i, 5.0 + i) for i in range(n)])][d['mut']]
    b = [(0, 9)] * n
    return [mutate_randint(bounds=b, expected_num_mutations=1),
            mutate_binomial(std=1.5, bounds=b, expected_num_mutations=1)][d['mut']]


def selection(d):
    return [ops.tournament_selection, ops.random_selection, ops.cyclic_selection,
            ops.naive_cyclic_selection, ops.tournament_selection(k=3),
            ops.proportional_selection(offset=1000.0), ops.sus_selection(offset=1000.0),
            ][d['sel']]


def breeding(d):
    """selection, clone, mutation and possibly crossover (fresh operators)"""
    out = [selection(d), ops.clone, mutator(d)]
    if d['xover'] == 1:
        out.append(ops.UniformCrossover(p_swap=0.5, p_xover=d['p_xover']))
    elif d['xover'] == 2:
        out.append(ops.NAryCrossover(num_points=d['num_points'], p_xover=d['p_xover']))
    return out


def problem(d):
    return W.SimProblem(maximize=d['maximize'], mode=d['mode'], infinite=d['infinite'])


def wrapped(sim, src, inner):
    """The problem, or the library's wrappers around it; with the direction that holds."""
    how = src.weighted([(4, None), (1, 'average'), (1, 'offset'), (1, 'turned'), (1, 'both')])
    up = inner.maximize
    if how is None:
        return inner, up
    sim.reach('wrapped_problem')
    sim.event(f'wrapped: {how}')
    if how == 'average':
        return AverageFitnessProblem(inner, src.int(1, 3)), up
    if how == 'offset':
        return FitnessOffsetProblem(inner, src.pick([0.0, -3.5, 10.0])), up
    if how == 'turned':
        return FitnessOffsetProblem(inner, 2.0, maximize=not up), not up
    return AverageFitnessProblem(FitnessOffsetProblem(inner, 1.0, maximize=not up), 2), not up


def representation(d, cls):
    return Representation(initialize=initializer(d), decoder=W.SimDecoder(d['decoder']),
                          individual_cls=cls)


def digest(pop):
    """Everything about a population that is determined by the seeds."""
    out = []
    for i in pop:
        f = i.fitness
        out.append((W.freeze(i.genome), 'nan' if W.isnan(f) else f,
                    getattr(i, 'is_viable', None)))
    return out
