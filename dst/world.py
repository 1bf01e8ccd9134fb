"""Workload pieces shared by the properties: problems, genomes, pipelines,
contexts, and the ledger in which every simulated evaluation is recorded."""
import math

import numpy as np

from . import core
from .core import Violation  # noqa: F401

from leap_ec.problem import ScalarProblem
from leap_ec.decoder import Decoder, IdentityDecoder
from leap_ec.individual import Individual, RobustIndividual
from leap_ec.distrib.individual import DistributedIndividual
from leap_ec.representation import Representation
from leap_ec import ops
from leap_ec.binary_rep.initializers import create_binary_sequence
from leap_ec.binary_rep.ops import mutate_bitflip
from leap_ec.real_rep.initializers import create_real_vector
from leap_ec.real_rep.ops import mutate_gaussian
from leap_ec.int_rep.initializers import create_int_vector
from leap_ec.int_rep.ops import mutate_randint, mutate_binomial


class SimFault(Exception):
    """An application error the library has never heard of."""


EXCEPTIONS = [
    lambda: ValueError('simulated'), lambda: ZeroDivisionError('simulated'),
    lambda: RuntimeError('simulated'), lambda: OSError(28, 'No space left'),
    lambda: MemoryError(), lambda: KeyError('k'), lambda: AssertionError(),
    lambda: StopIteration(), lambda: SimFault('simulated'),
    lambda: TimeoutError('simulated'), lambda: Exception(),
    lambda: TypeError('simulated'), lambda: IndexError('simulated'),
    lambda: FloatingPointError('simulated'), lambda: ConnectionResetError(104, 'reset'),
    lambda: NotImplementedError(), lambda: RecursionError('simulated'),
    lambda: ArithmeticError(), lambda: LookupError(), lambda: ImportError('x'),
    lambda: np.linalg.LinAlgError('singular'), lambda: EOFError(), lambda: BufferError(),
    lambda: AttributeError('simulated'), lambda: NameError('simulated'),
    lambda: UnicodeError('simulated'), lambda: StopAsyncIteration(), lambda: Warning('w'),
]


class Ledger:
    """Every evaluation the simulated application performed, in order."""

    def __init__(self, sim):
        self.sim = sim
        self.entries = []
        self.fail_p = 0.0
        self.max_failures = 0
        self.failures = 0
        self.sleep = False
        self.jump_p = 0.0
        self.where = ('problem',)
        self.exceptions = EXCEPTIONS
        self.fail_list = None          # explicit set of evaluation ordinals
        sim.ledger = self

    def visit(self, site, payload):
        """Called by the application code while it evaluates."""
        sim, src = self.sim, self.sim.src
        if self.sleep:
            import time
            time.sleep(src.draw(32) / 4.0)
        m = sim.machine
        if m is not None and self.jump_p and src.bool(self.jump_p):
            m.skew += src.pick([100.0, -100.0])
            sim.fault('clock_jump_during_evaluation')
        if self.fail_p and site in self.where and self.failures < self.max_failures \
                and src.bool(self.fail_p):
            self.failures += 1
            e = src.pick(self.exceptions)()
            sim.fault('evaluation_error')
            self.entries.append(dict(site=site, phenome=payload, error=e,
                                     machine=m.id if m is not None else None))
            raise e

    def value(self, payload, fitness):
        m = self.sim.machine
        self.entries.append(dict(site='value', phenome=payload, fitness=fitness,
                                 machine=m.id if m is not None else None))


def ledger():
    s = core.CURRENT
    return getattr(s, 'ledger', None) if s is not None else None


def weigh(phenome):
    """A number that tells different genomes apart (well separated)."""
    total = 0
    for i, x in enumerate(np.asarray(phenome, dtype=float).ravel()):
        total += (i + 1) * float(x)
    return total


class SimProblem(ScalarProblem):
    """The application's fitness function, run by the library under test.

    mode: 'sum' (ties are common), 'weighted' (mostly distinct)
    kind: the python type of the fitness value
    """

    def __init__(self, maximize=True, mode='weighted', kind='float', scale=1.0, offset=0.0,
                 infinite=False, nans=False):
        super().__init__(maximize)
        self.nans = nans             # some genomes have no number for a fitness
        self.infinite = infinite     # some genomes have an infinite fitness
        self.mode, self.kind, self.scale, self.offset = mode, kind, scale, offset

    def pure(self, phenome):
        a = np.asarray(phenome, dtype=float).ravel()
        v = float(a.sum()) if self.mode == 'sum' else weigh(a)
        v = v * self.scale + self.offset
        if self.nans and int(abs(v)) % 5 == 2:
            return np.float64('nan') if self.kind == 'np' else math.nan
        if self.infinite and int(abs(v)) % 4 == 1:
            v = math.inf if int(abs(v)) % 8 == 1 else -math.inf
            return np.float64(v) if self.kind == 'np' else v
        if self.kind == 'int':
            return int(round(v))
        if self.kind == 'np':
            return np.float64(v)
        return float(v)

    def evaluate(self, phenome, *args, **kwargs):
        led = ledger()
        if led is not None:
            led.visit('problem', np.array(phenome, copy=True))
        v = self.pure(phenome)
        if led is not None:
            led.value(np.array(phenome, copy=True), v)
        return v


class SimDecoder(Decoder):
    """Identity with a fault point, or a real transformation."""

    def __init__(self, mult=1):
        super().__init__()
        self.mult = mult

    def decode(self, genome, *args, **kwargs):
        led = ledger()
        if led is not None and 'decoder' in led.where:
            led.visit('decoder', None)
        return np.array(genome) * self.mult if self.mult != 1 else np.array(genome)


def is_better(problem, a, b):
    """Strictly better, for viable scalar fitnesses (independent of the library)."""
    return a > b if problem.maximize else a < b


def new_context():
    return {'leap': {'distrib': {'non_viable': 0}}}


def reset_global_context():
    from leap_ec.global_vars import context
    context.clear()
    context.update(new_context())
    return context


def fresh_context(src):
    """(context to pass or None for the default, the dict that will be used)"""
    from leap_ec.global_vars import context
    reset_global_context()
    if src.bool(0.5):
        c = new_context() if src.bool(0.6) else {'leap': {}}
        return c, c
    return None, context


class Genomes:
    """One of the vector representations with matching operators."""

    def __init__(self, src, kinds=('binary', 'real', 'int')):
        self.kind = src.pick(kinds)
        self.n = src.size(2, 6, 40)
        n = self.n
        if self.kind == 'binary':
            self.init = create_binary_sequence(n)
            self.mutators = [mutate_bitflip(expected_num_mutations=1),
                             mutate_bitflip(probability=0.5)]
        elif self.kind == 'real':
            self.bounds = [(-4.0 - i, 5.0 + i) for i in range(n)]
            self.init = create_real_vector(self.bounds)
            self.mutators = [mutate_gaussian(std=1.0, expected_num_mutations='isotropic'),
                             mutate_gaussian(std=0.5, expected_num_mutations=1,
                                             bounds=self.bounds)]
        else:
            self.bounds = [(0, 9)] * n
            self.init = create_int_vector(self.bounds)
            self.mutators = [mutate_randint(bounds=self.bounds, expected_num_mutations=1),
                             mutate_binomial(std=1.5, bounds=self.bounds,
                                             expected_num_mutations=1)]

    def mutator(self, src):
        return src.pick(self.mutators)

    def crossover(self, src, persist=None):
        if persist is None:
            persist = src.bool(0.5)
        if src.bool(0.5):
            return ops.UniformCrossover(p_swap=src.pick([0.2, 0.5, 1.0]),
                                        p_xover=src.pick([1.0, 0.5, 0.0]),
                                        persist_children=persist)
        return ops.NAryCrossover(num_points=src.size(1, min(2, self.n), self.n),
                                 p_xover=src.pick([1.0, 0.5, 0.0]),
                                 persist_children=persist)


class Ragged(Genomes):
    """Binary genomes of different lengths."""

    def __init__(self, src):
        super().__init__(src, kinds=('binary',))
        self.n = 7

        def init():
            return create_binary_sequence(int(np.random.randint(2, 8)))()
        self.init = init


def problem_for(src, genomes):
    kind = src.pick(['float', 'int', 'np'])
    if genomes.kind == 'real' and kind == 'int':
        kind = 'float'
    return SimProblem(maximize=src.bool(0.5), mode=src.pick(['weighted', 'sum']),
                      kind=kind, scale=src.pick([1.0, 1000.0]),
                      offset=src.pick([0.0, -50.0]), infinite=src.bool(0.1))


def selector(src):
    return src.pick([ops.tournament_selection, ops.random_selection,
                     ops.cyclic_selection, ops.naive_cyclic_selection,
                     ops.tournament_selection(k=3)])


def cluster_faults(src, lose=False):
    """Swarm: each run enables its own subset of fault kinds."""
    f = {'fifo': not src.bool(0.5)}
    for kind, ps in (('crash_before', (0.05, 0.2)), ('crash_during', (0.05, 0.25)),
                     ('crash_after', (0.05, 0.25)), ('stall', (0.05, 0.2)),
                     ('slow', (0.3,)), ('skew', (0.5,)), ('clock_jump', (0.1, 0.3)),
                     ('client_stall', (0.1, 0.4))):
        if src.bool(0.45):
            f[kind] = src.pick(ps)
    if lose:
        f['lose'] = src.pick((0.05, 0.3))
    return f


def snap(ind):
    """Immutable view of an individual, for histories."""
    return dict(uuid=ind.uuid, genome=freeze(ind.genome), fitness=ind.fitness,
                viable=getattr(ind, 'is_viable', None),
                parents=frozenset(getattr(ind, 'parents', ()) or ()),
                birth_id=getattr(ind, 'birth_id', None))


def freeze(g):
    if isinstance(g, np.ndarray):
        return ('nd', str(g.dtype), g.shape, g.tobytes())
    if isinstance(g, (list, tuple)):
        return tuple(freeze(x) for x in g)
    return g


def same_number(a, b):
    if a is None or b is None:
        return a is b
    try:
        if math.isnan(a) and math.isnan(b):
            return True
    except TypeError:
        pass
    return bool(np.all(np.asarray(a) == np.asarray(b)))


def close(a, b):
    """Equal up to floating-point rounding."""
    try:
        return bool(a == b) or bool(abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b)))
    except TypeError:
        return False


def isnan(x):
    try:
        return math.isnan(x)
    except TypeError:
        return False


def check_order(sim, src, inds, maximize, cls='wrong-comparison'):
    """Pairs of evaluated individuals compare as their fitnesses and the direction say."""
    inds = [i for i in inds if i.fitness is not None]
    if not inds:
        return
    for _ in range(src.int(0, 3)):
        a, b = src.pick(inds), src.pick(inds)
        x, y = a.fitness, b.fitness
        if isnan(x) and isnan(y) or x != y and close(x, y):
            continue
        want = isnan(x) or not isnan(y) and (x < y if maximize else x > y)
        sim.check(bool(a < b) == want, cls,
                  f'an individual with fitness {x} is {"" if a < b else "not "}worse than one with {y}'
                  f' ({"maximising" if maximize else "minimising"})')
        if isnan(x) or isnan(y):
            continue
        sim.check(bool(a == b) == (x == y), cls,
                  f'fitness {x} {"equals" if a == b else "does not equal"} {y}')


class Names:
    """Stable short names for uuids, in order of first appearance (for logs)."""

    def __init__(self):
        self.d = {}

    def __call__(self, u):
        return self.d.setdefault(u, f'i{len(self.d)}')


SEAMS_REAL = ['all of leap_ec (client side and worker side)', 'numpy, toolz, csv',
              'pickling of tasks and results (cloudpickle/pickle)']
SEAMS_STUB = ['dask scheduler, workers, transport and clocks (simulated cluster)',
              'time.time/sleep, os.getpid, platform.node, os.urandom (simulated)',
              'the fitness function (simulated application with fault points)']
