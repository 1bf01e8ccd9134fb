"""C03: steady-state replacement never trades a better solution for a worse one."""
from .. import steady, world as W

RUNS = dict(quick=8000, thorough=80000)
RULE = ('one asynchronous steady-state run; every insertion of the run is compared with '
        'a reference model of the replacement policy; non-trivial: at least one fault '
        'injected, distinct by the hash of its event sequence')
REAL = W.SEAMS_REAL
STUB = W.SEAMS_STUB
ASSUMPTIONS = ['successful evaluations return ordinary numbers (no NaN)']
MUST_REACH = ['nonviable_incumbent_replaced', 'nonviable_arrival_rejected',
              'worse_arrival_rejected', 'better_arrival_accepted', 'equal_arrival', 'ragged']


def run(sim, src):
    ragged = src.bool(0.15)
    if ragged:
        sim.reach('ragged')
    h = steady.run(sim, src, genomes=W.Ragged(src) if ragged else None,
                   **(dict(crossover=False) if ragged else {}), max_births=src.size(4, 30, 120), batch=src.pick([1, 1, 2]))
    p, greedy = h.problem, h.cfg['inserter'] == 'greedy'
    best_ever = None
    for step in h.inserts:
        new, before, after = step['snap'], [s for _, s in step['before']], [s for _, s in step['after']]
        if new['viable'] and (best_ever is None or W.is_better(p, new['fitness'], best_ever)):
            best_ever = new['fitness']
        a_ids = [s['uuid'] for s in after]
        b_ids = [s['uuid'] for s in before]
        if len(before) < step['size']:
            sim.check(set(a_ids) == set(b_ids) | {new['uuid']} and len(a_ids) == len(b_ids) + 1,
                      'not-admitted-below-capacity', 'population below capacity did not just grow by one')
        else:
            gone = [s for s in before if s['uuid'] not in a_ids]
            came = [u for u in a_ids if u not in b_ids]
            sim.check(len(gone) <= 1 and len(gone) == len(came) and len(after) == len(before)
                      and all(u == new['uuid'] for u in came), 'more-than-one-replaced',
                      f'{len(gone)} left, {len(came)} arrived')
            bad = [s for s in before if not s['viable']]
            worse = [s for s in before if s['viable'] and new['viable']
                     and W.is_better(p, new['fitness'], s['fitness'])]
            loser_ok = {s['uuid'] for s in bad} | {s['uuid'] for s in worse}
            if gone:
                g = gone[0]
                sim.check(g['uuid'] in loser_ok, 'better-replaced-by-worse',
                          f'viable={g["viable"]} fitness {g["fitness"]} replaced by '
                          f'viable={new["viable"]} fitness {new["fitness"]} (maximize={p.maximize})')
            if greedy:
                if bad:
                    sim.check(gone and not gone[0]['viable'], 'nonviable-kept',
                              'a failed incumbent was not the one displaced')
                elif worse:
                    w = worst(p, before)
                    sim.check(gone and W.same_number(gone[0]['fitness'], w), 'greedy-not-worst',
                              f'displaced {gone and gone[0]["fitness"]}, worst was {w}')
            elif len(loser_ok) == len(before):
                sim.check(gone, 'better-arrival-rejected',
                          'arrival beats every member but was not admitted')
            if gone and not gone[0]['viable']:
                sim.reach('nonviable_incumbent_replaced')
            elif gone:
                sim.reach('better_arrival_accepted')
            elif not new['viable']:
                sim.reach('nonviable_arrival_rejected')
            elif any(s['viable'] and W.same_number(s['fitness'], new['fitness']) for s in before):
                sim.reach('equal_arrival')
            else:
                sim.reach('worse_arrival_rejected')
        if best_ever is not None:
            have = [s['fitness'] for s in after if s['viable']]
            sim.check(any(not W.is_better(p, best_ever, f) for f in have), 'best-lost',
                      f'best fitness ever evaluated {best_ever}, population has {have}')
    if best_ever is not None:
        have = [i.fitness for i in h.final if i.is_viable]
        sim.check(any(not W.is_better(p, best_ever, f) for f in have), 'best-lost',
                  f'best fitness ever evaluated {best_ever}, final population has {have}')


def worst(p, snaps):
    f = [s['fitness'] for s in snaps]
    return min(f) if p.maximize else max(f)
