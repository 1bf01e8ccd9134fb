"""C23: a repertoire remembers what was learnt and hands all of it on."""
import numpy as np

from .. import gen, world as W
from ..storage import Disk

from leap_ec import ops
from leap_ec.contrib.transfer.sequential import PopulationSeedingRepertoire
from leap_ec.decoder import IdentityDecoder
from leap_ec.individual import Individual
from leap_ec.problem import FunctionProblem

RUNS = dict(quick=9000, thorough=80000)
RULE = ('one history of training, exporting to and importing from a simulated disk, and applying a '
        'repertoire, with interleaved runs, failing evaluations and disk errors; non-trivial: at '
        'least one fault or interleaving, distinct by the hash of its event sequence')
REAL = ['all of leap_ec', 'numpy, toolz']
STUB = ['the file system (simulated, with failing open, write and close)']
ASSUMPTIONS = ['the wrapped algorithm yields (step, best individual so far), as the documentation of '
               'the module shows']
MUST_REACH = ['trained', 'training_failed', 'exported', 'export_error', 'imported', 'applied', 'interleaved',
              'more_seeds_than_population', 'fresh_individuals', 'changed_in_place', 'trained_after_import', 'started_over', 'reported_nothing']

PATH = Disk.PREFIX + 'repertoire.csv'


class Trouble(Exception):
    pass


def run(sim, src):
    d = gen.draw(src, pop=(1, 5))
    fresh = gen.initializer(d)
    made = []                     # genomes the ordinary initializer made
    mutate = gen.mutator(d)

    def initialize():
        g = fresh()
        made.append(g)
        return g

    def algorithm(problem, init, pop=3, steps=2, clone=True, rec=None, first=0, by=1, silent=False):
        """a little EA; yields (step, best so far)"""
        if silent:
            return
        pop = Individual.create_population(pop, init, IdentityDecoder(), problem)
        if rec is not None:
            rec['initial'] = [np.array(i.genome, copy=True) for i in pop]
            rec['types'] = [type(i.genome) for i in pop]
        pop = Individual.evaluate_population(pop)
        best = max(pop)
        if rec is not None:
            rec['best'] = best
        yield first, best
        for s in range(steps):
            nxt = ops.cyclic_selection(pop)
            if clone:
                nxt = ops.clone(nxt)
            pop = ops.pool(ops.evaluate(mutate(nxt)), size=len(pop))
            best = max([best] + pop)
            if rec is not None:
                rec['best'] = best
            yield first + by * (s + 1), best

    def make_problem(fail_at=None):
        n = [0]
        w = src.size(1, 5, 30)

        def f(x):
            n[0] += 1
            if fail_at is not None and n[0] >= fail_at:
                sim.fault('evaluation_error')
                raise Trouble()
            return float(sum((k + w) * y for k, y in enumerate(x)))
        return FunctionProblem(f, maximize=d['maximize'])

    def same(rep, mem, what):
        got = [np.array(g, dtype=float) for g in rep.repertoire]
        sim.check(len(got) == len(mem) and all(np.array_equal(a, b) for a, b in zip(got, mem)),
                  'memory-changed', f'{what}: the repertoire holds {got}, it should hold {mem}')

    disk = Disk(sim)
    with disk:
        rep = PopulationSeedingRepertoire(initialize, algorithm)
        memory = []               # what it has to remember
        on_disk = None            # what the file holds, None = nothing reliable
        imported = False
        for _ in range(src.size(2, 6, 15)):
            act = src.pick(['build', 'build', 'export', 'import', 'apply', 'apply']) if src.bool(0.95) else 'new'
            if act == 'new':
                sim.event('new')
                rep, memory, imported = PopulationSeedingRepertoire(initialize, algorithm), [], False
                sim.reach('started_over')
                continue
            if act == 'build':
                k = src.size(0, 3, 60)
                bad = src.draw(k) if k and src.bool(0.2) else None
                probs = [make_problem(src.int(1, 8) if j == bad else None) for j in range(k)]
                recs = [dict() for _ in probs]
                pops = [src.int(1, 4) for _ in probs]
                kws = [dict(rec=r, pop=p, steps=src.int(0, 2), first=src.pick([0, 0, 7]), by=src.pick([1, 1, 0, -1])) for r, p in zip(recs, pops)]
                mute = bad is None and k > 0 and src.bool(0.05)     # a run that reports no solution at all
                if mute:
                    kws[src.draw(k)]['silent'] = True
                sim.event(f'build {k} {bad} {mute}')
                try:
                    rep.build_repertoire(probs, kws)
                except Trouble:
                    sim.check(bad is not None, 'unexpected-exception', 'Trouble')
                    sim.reach('training_failed')
                    same(rep, memory, 'after a training that failed')
                    continue
                except Exception as e:
                    sim.check(mute, f'unexpected-exception {type(e).__name__}', repr(e))
                    sim.reach('reported_nothing')
                    same(rep, memory, 'after a training that reported nothing')
                    continue
                sim.check(not mute, 'error-hidden', 'a training that reported no solution went unnoticed')
                for r, p in zip(recs, pops):
                    sim.check(len(r['initial']) == p, 'wrong-parameters', f'a training run on {len(r["initial"])} '
                              f'individuals instead of {p}')
                    memory.append(np.array(r['best'].genome, dtype=float, copy=True))
                if k:
                    sim.reach('trained')
                    if imported:
                        sim.reach('trained_after_import')
                    # the run that found it goes its way
                    if src.bool(0.3):
                        g = recs[-1]['best'].genome
                        g[:] = g[::-1].copy()
                same(rep, memory, 'after training')
            elif act == 'export':
                disk.faults.clear()
                if src.bool(0.4):
                    disk.faults.update({src.pick(['open', 'write', 'flush']): src.pick([0.3, 1.0])})
                disk.raised.clear()
                sim.event('export')
                try:
                    rep.export(PATH)
                except OSError as e:
                    sim.check(any(e is x for x in disk.raised), 'unexpected-exception', repr(e))
                    sim.reach('export_error')
                    on_disk = None
                else:
                    sim.check(not disk.raised, 'error-hidden', 'a disk error disappeared')
                    on_disk = [m.copy() for m in memory]
                    sim.reach('exported')
                disk.faults.clear()
                same(rep, memory, 'after exporting')
            elif act == 'import':
                if on_disk is None:
                    continue
                sim.event('import')
                rep = PopulationSeedingRepertoire(initialize, algorithm, repfile=PATH)
                memory = [m.copy() for m in on_disk]
                same(rep, memory, 'after importing')
                imported = True
                sim.reach('imported')
                sim.nontrivial = True
            else:
                n = src.int(1, 3)
                sizes = [src.size(1, 6, 70) for _ in range(n)]
                recs = [dict() for _ in range(n)]
                # genomes of a type the operators can work on, changed in place or not
                clones = [src.bool(0.6) for _ in range(n)]
                fails = [src.int(1, 6) if src.bool(0.15) else None for _ in range(n)]
                start = len(made)
                runs = [rep.apply(make_problem(fl), rec=r, pop=s, clone=c, steps=src.int(0, 2))
                        for r, s, c, fl in zip(recs, sizes, clones, fails)]
                live = list(range(n))
                if n > 1:
                    sim.reach('interleaved')
                    sim.nontrivial = True
                order = []
                while live:
                    j = src.pick(live)
                    sim.event(f'step {j}')
                    order.append(j)
                    try:
                        next(runs[j])
                    except StopIteration:
                        live.remove(j)
                    except Trouble:
                        sim.check(fails[j] is not None, 'unexpected-exception', 'Trouble')
                        live.remove(j)
                    else:
                        if not clones[j]:
                            sim.reach('changed_in_place')
                want_fresh = 0
                for r, s in zip(recs, sizes):
                    sim.check('initial' in r, 'not-run', 'a run had no initial population')
                    seeds = min(s, len(memory))
                    got = r['initial']
                    sim.check(len(got) == s, 'wrong-parameters', f'{len(got)} individuals instead of {s}')
                    sim.check(all(np.array_equal(a, m) for a, m in zip(got[:seeds], memory)), 'not-seeded',
                              f'the initial population {got} does not start with the memory {memory}')
                    want_fresh += s - seeds
                    if s < len(memory):
                        sim.reach('more_seeds_than_population')
                    if s > seeds:
                        sim.reach('fresh_individuals')
                sim.check(len(made) - start == want_fresh, 'fresh-individuals',
                          f'{len(made) - start} fresh individuals instead of {want_fresh}')
                sim.reach('applied')
                same(rep, memory, 'after applying')
    sim.sample = dict(kind=d['kind'], memory=len(memory), faults=dict(sim.faults))
