"""C18: fitness in a simulated environment comes from whole, separate episodes."""
import numpy as np

from .. import world as W

from leap_ec import ops
from leap_ec.algorithm import generational_ea
from leap_ec.decoder import Decoder
from leap_ec.executable_rep.problems import EnvironmentProblem
from leap_ec.individual import Individual, RobustIndividual
from leap_ec.representation import Representation

RUNS = dict(quick=12000, thorough=150000)
RULE = ('one population (or one generational run) of controllers evaluated in a simulated '
        'environment whose episodes terminate, are truncated, or fail at drawn steps; '
        'non-trivial: at least one fault or early end, distinct by the hash of its event sequence')
REAL = ['all of leap_ec', 'numpy, toolz']
STUB = ['the environment (simulated, gym interface: reset, step, render, spaces) and the controller']
ASSUMPTIONS = ['the environment follows the gym interface']
MUST_REACH = ['terminated', 'truncated', 'ran_full', 'went_on_after_done', 'several_runs', 'reset_error',
              'step_error', 'controller_error', 'render_error', 'contained', 'reward', 'survival',
              'whole_run', 'failed_then_evaluated']


class EnvFault(Exception):
    pass


class Space:
    def __init__(self, shape):
        self.shape = shape


class Multi:
    def __init__(self, spaces):
        self.spaces = spaces


class Env:
    """A little world: keeps the history of everything that is done to it."""

    def __init__(self, sim, src, p_end, p_fail):
        self.sim, self.src = sim, src
        self.p_end, self.p_fail = p_end, p_fail
        self.episodes = []        # dicts
        self.cur = None
        self.count = 0
        self.renders = 0
        self.observation_space = src.pick([Space((3,)), Space((2, 2)), Multi([Space(()), Space((2,))])])
        self.action_space = src.pick([Space(()), Space((2,))])

    def obs(self):
        self.count += 1
        return np.array([self.count, self.src.draw(50), 7])

    def maybe_fail(self, where):
        if self.p_fail and self.src.bool(self.p_fail):
            self.sim.fault(where + '_error')
            self.sim.reach(where + '_error')
            raise EnvFault(where)

    def reset(self, *a, **k):
        self.cur = None
        self.maybe_fail('reset')
        o = self.obs()
        self.cur = dict(obs=[o.copy()], last=o, actions=[], rewards=[], done=[])
        self.episodes.append(self.cur)
        self.sim.event('reset')
        return o, {}

    def step(self, action):
        c = self.cur
        self.sim.check(c is not None, 'step-before-reset', 'an episode goes on without a reset')
        self.maybe_fail('step')
        o = self.obs()
        r = 0.0 if self.src.bool(0.2) else float(self.src.int(-5, 20)) + 0.25
        term, trunc = self.src.bool(self.p_end), self.src.bool(self.p_end)
        if term:
            self.sim.fault('episode_terminated')
            self.sim.reach('terminated')
        elif trunc:
            self.sim.fault('episode_truncated')
            self.sim.reach('truncated')
        c['actions'].append(action)
        c['obs'].append(o.copy())
        c['last'] = o
        c['rewards'].append(r)
        c['done'].append(term or trunc)
        self.sim.event(f'step {r} {term} {trunc}')
        return o, r, term, trunc, {}

    def render(self, *a, **k):
        self.maybe_fail('render')
        self.renders += 1


class Controller:
    def __init__(self, sim, genome, p_fail):
        self.sim, self.genome, self.p_fail = sim, np.array(genome, copy=True), p_fail

    def __call__(self, observation):
        if self.p_fail and self.sim.src.bool(self.p_fail):
            self.sim.fault('controller_error')
            self.sim.reach('controller_error')
            raise EnvFault('controller')
        return ('act', self.genome.tobytes(), np.array(observation).tobytes())


class Decode(Decoder):
    def __init__(self, sim, p_fail):
        self.sim, self.p_fail = sim, p_fail

    def decode(self, genome, *a, **k):
        return Controller(self.sim, genome, self.p_fail)


def expect(sim, env, a, runs, steps, stop, kind, genome, complete):
    """The episodes since index a are what one evaluation should have done."""
    eps = env.episodes[a:]
    if complete:
        sim.check(len(eps) == runs, 'wrong-number-of-runs', f'{len(eps)} episodes instead of {runs}')
    else:
        sim.check(len(eps) <= runs, 'wrong-number-of-runs', f'{len(eps)} episodes instead of at most {runs}')
    for k, e in enumerate(eps):
        n = len(e['rewards'])
        full = complete or k < len(eps) - 1
        sim.check(n <= steps, 'too-many-steps', f'{n} steps instead of at most {steps}')
        ended = [t for t, x in enumerate(e['done']) if x]
        if stop and ended:
            sim.check(ended[0] == n - 1, 'went-on-after-the-end',
                      f'episode ended at step {ended[0] + 1} but {n} steps were taken')
        elif full:
            sim.check(n == steps, 'too-few-steps', f'{n} steps instead of {steps}')
            sim.reach('ran_full')
        if not stop and ended and ended[0] < n - 1:
            sim.reach('went_on_after_done')
        for t, act in enumerate(e['actions']):
            sim.check(act[1] == np.asarray(genome).tobytes(), 'another-controller',
                      'the action comes from another individual')
            sim.check(act[2] == e['obs'][t].tobytes(), 'stale-observation',
                      f'the action of step {t + 1} is not the answer to the latest observation')
    if kind == 'reward':
        return float(np.mean([sum(e['rewards']) for e in eps])) if eps else None
    return float(np.mean([len(e['obs']) for e in eps])) if eps else None


def dims(sp):
    if isinstance(sp, Multi):
        return sum(int(np.prod(s.shape)) for s in sp.spaces)
    return int(np.prod(sp.shape))


def run(sim, src):
    runs, steps = src.size(1, 4, 12), src.size(1, 8, 60)
    if runs > 1:
        sim.reach('several_runs')
    stop = not src.bool(0.4)
    kind = src.pick(['reward', 'survival'])
    sim.reach(kind)
    gui = src.bool(0.3)
    p_fail = src.pick([0.0, 0.0, 0.03])
    env = Env(sim, src, src.pick([0.0, 0.1, 0.3]), p_fail)
    kw = {} if stop else dict(stop_on_done=False)
    problem = EnvironmentProblem(runs, steps, env, kind, gui, maximize=src.bool(0.5), **kw)
    sim.check(problem.num_inputs == dims(env.observation_space) and
              problem.num_outputs == dims(env.action_space), 'dimensions',
              f'{problem.num_inputs} inputs, {problem.num_outputs} outputs')
    dec = Decode(sim, p_fail)
    robust = src.bool(0.5)
    cls = RobustIndividual if robust else Individual
    done = []

    def judge(ind, a, error):
        eps = env.episodes[a:]
        value = expect(sim, env, a, runs, steps, stop, kind, ind.genome, error is None)
        if error is None:
            sim.check(W.close(float(ind.fitness), value), 'wrong-fitness',
                      f'{kind} fitness {ind.fitness}, the episodes give {value}')
            if any(d[1] for d in done):
                sim.reach('failed_then_evaluated')
        elif robust:
            sim.check(W.isnan(ind.fitness), 'failure-accepted', f'fitness {ind.fitness} although {error!r}')
            sim.reach('contained')
        done.append((ind, error, len(eps)))

    class Watched(cls):
        def evaluate(self):
            a, r, f = len(env.episodes), env.renders, dict(sim.faults)
            try:
                v = super().evaluate()
            except EnvFault as e:
                sim.check(not robust, 'failure-escaped', repr(e))
                judge(self, a, e)
                raise
            failed = any(sim.faults.get(k, 0) > f.get(k, 0) for k in
                         ('reset_error', 'step_error', 'controller_error', 'render_error'))
            sim.check(robust or not failed, 'error-hidden', 'the environment failed and nobody was told')
            judge(self, a, getattr(self, 'exception', None) or EnvFault('?') if failed else None)
            sim.check(gui or env.renders == r, 'rendered', 'rendered without being asked to')
            return v
    error = None
    try:
        if src.bool(0.5):
            pop = [Watched(np.array([k, src.draw(9)]), decoder=dec, problem=problem)
                   for k in range(src.int(1, 4))]
            for _ in range(src.int(1, 2)):
                it = ops.evaluate(iter(pop))
                for _ in pop:
                    next(it)
        else:
            sim.reach('whole_run')
            from leap_ec.int_rep.initializers import create_int_vector
            from leap_ec.int_rep.ops import mutate_randint
            b = [(0, 9)] * 3
            size, gens = src.int(1, 3), src.int(1, 2)
            generational_ea(gens, size, problem,
                            Representation(initialize=create_int_vector(b), decoder=dec,
                                           individual_cls=Watched),
                            [ops.tournament_selection, ops.clone,
                             mutate_randint(bounds=b, expected_num_mutations=1), ops.evaluate,
                             ops.pool(size=size)], init_evaluate=Watched.evaluate_population,
                            context=W.new_context())
            sim.check(len(done) == size * (gens + 1), 'evaluations', f'{len(done)}')
    except EnvFault as e:
        error = e
        sim.check(not robust, 'failure-escaped', repr(e))
    sim.sample = dict(runs=runs, steps=steps, stop=stop, kind=kind, episodes=len(env.episodes),
                      error=repr(error), faults=dict(sim.faults))
