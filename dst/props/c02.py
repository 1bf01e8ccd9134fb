"""C02: asynchronous evaluations are integrated exactly once."""
from collections import Counter

from .. import steady, world as W

from leap_ec.individual import Individual

RUNS = dict(quick=5000, thorough=80000)
RULE = ('one asynchronous steady-state run on the simulated cluster; non-trivial: at '
        'least one fault injected, distinct by the hash of its event sequence')
REAL = W.SEAMS_REAL
STUB = W.SEAMS_STUB
ASSUMPTIONS = ['inserters are the ones shipped with the library, observed from outside']
MUST_REACH = ['task_reexecuted', 'pop_overflow', 'loss_reported', 'application_error_reported',
              'plain_individuals']


def run(sim, src):
    kind = src.weighted([(7, 'ok'), (1, 'lost'), (1, 'raises')])
    if kind == 'lost':
        return lost(sim, src)
    if kind == 'raises':
        return raises(sim, src)
    h = steady.run(sim, src)
    c = h.cfg
    sub = [s['uuid'] for s in h.submitted]
    dup = [u for u, k in Counter(sub).items() if k > 1]
    sim.check(not dup, 'submitted-twice', f'{len(dup)} individuals submitted more than once')
    rep = Counter(s['uuid'] for s, _ in h.reported)
    for u in sub:
        sim.check(rep[u] == 1, 'not-reported-once',
                  f'an individual was evaluated but reported {rep[u]} times')
    sim.check(sum(rep.values()) == len(sub), 'reported-unknown',
              'something was reported that was never submitted')
    ins = Counter(i['snap']['uuid'] for i in h.inserts)
    for u in sub:
        sim.check(ins[u] == 1, 'not-inserted-once',
                  f'an evaluated individual was offered for insertion {ins[u]} times')
    sim.check(sum(ins.values()) == len(sub), 'inserted-unknown', 'unknown individual inserted')
    sim.check(len(h.pop_probes) == len(h.inserts), 'population-probe-count',
              f'{len(h.inserts)} insertions but {len(h.pop_probes)} population reports')
    first = {s['uuid']: s for s, _ in h.reported}
    prev = []
    reported_so_far = set()
    for k, step in enumerate(h.inserts):
        sim.check([s['uuid'] for _, s in step['before']] == prev, 'population-changed-outside',
                  'population changed between two insertions')
        uu = [s['uuid'] for _, s in step['after']]
        sim.check(len(set(uu)) == len(uu), 'duplicate-in-population', f'after insertion {k}')
        sim.check(len(uu) <= c['pop'], 'population-too-large', f'{len(uu)} > {c["pop"]}')
        sim.check(len(uu) == min(c['pop'], k + 1), 'population-lost-members',
                  f'{len(uu)} members after {k + 1} insertions, capacity {c["pop"]}')
        for ind, s in step['after']:
            f = first.get(s['uuid'])
            sim.check(f is not None, 'unevaluated-in-population', 'member never reported')
            sim.check(s['fitness'] is not None, 'unevaluated-in-population', 'fitness is None')
            sim.check(W.same_number(s['fitness'], f['fitness']) and s['genome'] == f['genome'],
                      'member-altered', 'a member changed after it was evaluated')
        sim.check(uu == h.pop_probes[k][0] and h.pop_probes[k][1] == k + 1,
                  'population-report-wrong', f'report {k} does not show the population after insertion {k}')
        prev = uu
        if k >= c['pop']:
            sim.reach('pop_overflow')
    sim.check([i.uuid for i in h.final] == prev, 'final-population',
              'returned population is not the population after the last insertion')
    for ind in h.final:
        f = first[ind.uuid]
        sim.check(W.same_number(ind.fitness, f['fitness']) and W.freeze(ind.genome) == f['genome'],
                  'member-altered', 'a member of the returned population changed after evaluation')
    if any(len(t.executions) > 1 for t in h.cluster.order):
        sim.reach('task_reexecuted')


def lost(sim, src):
    """A task that no worker survives must not be lost silently."""
    h = steady.run(sim, src, lose=True)
    lost_tasks = [t for t in h.cluster.order if t.plan == 'lose' and t.state in ('error', 'cancelled')]
    if h.error is None:
        sim.check(not lost_tasks, 'silent-loss',
                  f'{len(lost_tasks)} evaluations were lost for good and the run returned normally')
    else:
        sim.check(lost_tasks, 'spurious-error', repr(h.error))
        sim.reach('loss_reported')


def raises(sim, src):
    """Individuals that do not contain errors: the application's error must
    reach the caller, and without one the run goes through."""
    h = steady.run(sim, src, cls=Individual, may_raise=True, fail_p=src.pick([0.0, 0.1, 0.3]))
    bad = [t for t in h.cluster.order if t.state in ('error', 'cancelled')]
    if h.error is None:
        sim.check(not bad, 'silent-loss',
                  f'{len(bad)} evaluations raised and the run returned normally')
        n = len(h.submitted)
        sim.check(len(h.reported) == n and len(h.inserts) == n, 'not-reported-once',
                  f'{n} submitted, {len(h.reported)} reported, {len(h.inserts)} inserted')
        sim.reach('plain_individuals')
    else:
        errs = [t.executions[-1]['app_error'] for t in bad]
        sim.check(any(type(x) is type(h.error) and x.args == h.error.args for x in errs),
                  'wrong-error', f'raised {h.error!r}, the application raised {errs!r}')
        sim.reach('application_error_reported')
