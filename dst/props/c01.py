"""C01: the birth budget of asynchronous steady-state runs is exact."""
from .. import steady, world as W

RUNS = dict(quick=4000, thorough=60000)
RULE = ('one asynchronous steady-state run on the simulated cluster, with drawn '
        'population sizes, budget, batch size, completion order, worker crashes, '
        'stalls, clock faults and evaluation failures; non-trivial: at least one '
        'fault was injected, distinct by the hash of its event sequence')
REAL = W.SEAMS_REAL
STUB = W.SEAMS_STUB
ASSUMPTIONS = ['the offspring pipeline ends in a list of known size',
               'evaluation failures eventually stop (at most 25 per run)']
MUST_REACH = ['uncounted_failure', 'counted_failure', 'failure_in_last_completion']


def run(sim, src):
    h = steady.run(sim, src, probes=not src.bool(0.15))
    c = h.cfg
    n, m, b = c['init'], c['max_births'], c['batch']
    seen = [s for s, _ in h.reported] if c['probes'] else [i['snap'] for i in h.inserts]
    total = len(seen)
    bad = sum(1 for s in seen if s['viable'] is False)
    viable = total - bad
    spent = total - n - (0 if c['count_nonviable'] else bad)
    sim.check(spent >= m, 'budget-underspent',
              f'budget {m}, initial {n}, batch {b}, count_nonviable={c["count_nonviable"]}: '
              f'only {spent} births charged ({total} evaluations, {bad} failed)')
    sim.check(spent < m + b, 'budget-overspent',
              f'budget {m}, initial {n}, batch {b}, count_nonviable={c["count_nonviable"]}: '
              f'{spent} births charged ({total} evaluations, {bad} failed)')
    sim.check(len(h.submitted) == total, 'evaluations-not-collected',
              f'{len(h.submitted)} evaluations started, {total} collected')
    got = h.ctx['leap'].get('births')
    sim.check(got == spent, 'published-birth-count',
              f'context reports {got} births, {spent} were charged')
    if bad:
        sim.reach('counted_failure' if c['count_nonviable'] else 'uncounted_failure')
        if seen[-1]['viable'] is False:
            sim.reach('failure_in_last_completion')
    if viable:
        sim.reach('viable')
