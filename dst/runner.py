"""Runs a property's simulations: seeded search, minimisation, replay, evidence.

Each simulated run executes in a freshly forked child, so that a run is a pure
function of its choice sequence and of the code (no state leaks between runs).
"""
import gc
import hashlib
import importlib
import json
import os
import pickle
import resource
import select
import signal
import struct
import sys
import time
import traceback

from . import core
from .choice import Source

REAL_TIME = time.time
REAL_MONO = time.monotonic
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
WALL_KILL = 400


class Result:
    """What a child reports about one run."""
    __slots__ = ('status', 'cls', 'msg', 'choices', 'log', 'sched', 'n_sched',
                 'faults', 'probes', 'simtime', 'nontrivial', 'sample', 'events')

    def as_tuple(self):
        return tuple(getattr(self, k, None) for k in self.__slots__)

    @classmethod
    def of(cls, t):
        r = cls()
        for k, v in zip(cls.__slots__, t):
            setattr(r, k, v)
        return r


def load_property(pid):
    core.load_leap()
    return importlib.import_module(f'dst.props.{pid.lower()}')


def _frames_in_library(tb):
    root = os.path.realpath(os.environ.get('LEAP_ROOT', '/repo')) + os.sep
    for f, _ in traceback.walk_tb(tb):
        fn = os.path.realpath(f.f_code.co_filename)
        if fn.startswith(root):
            return True
    return False


def _exc_class(e):
    """A class for an unexpected exception: type and innermost library function."""
    root = os.path.realpath(os.environ.get('LEAP_ROOT', '/repo')) + os.sep
    where = ''
    for f, _ in traceback.walk_tb(e.__traceback__):
        fn = os.path.realpath(f.f_code.co_filename)
        if fn.startswith(root):
            where = os.path.basename(fn)[:-3]
    return f'unexpected-exception {type(e).__name__} in {where}'


def execute(mod, src, keep_log):
    """One run, in this process.  Returns a Result."""
    import random
    import numpy as np
    import warnings
    warnings.simplefilter('ignore')
    r = Result()
    r.status, r.cls, r.msg = 'ok', None, None
    sim = core.Sim(src)

    def on_cpu(signum, frame):
        sim.fail('no-progress', f'no answer after {core.GUARD_CPU_S} s of CPU time')
    signal.signal(signal.SIGVTALRM, on_cpu)
    signal.setitimer(signal.ITIMER_VIRTUAL, core.GUARD_CPU_S)
    try:
        with core.active(sim):
            random.seed(src.seed32())
            np.random.seed(src.seed32())
            mod.run(sim, src)
        if sim.failed is not None:
            r.status, r.cls, r.msg = 'violation', sim.failed.cls, sim.failed.msg
    except core.Violation as v:
        v = sim.failed or v
        r.status, r.cls, r.msg = 'violation', v.cls, v.msg
    except BaseException as e:
        tb = ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
        if sim.failed is not None:
            r.status, r.cls, r.msg = 'violation', sim.failed.cls, sim.failed.msg
        elif _frames_in_library(e.__traceback__):
            r.status, r.cls, r.msg = 'violation', _exc_class(e), tb
        elif isinstance(e, (KeyError, IndexError, TypeError, AttributeError, ValueError,
                            AssertionError, StopIteration)):
            # what the library produced is not even of the expected shape
            r.status, r.cls, r.msg = 'violation', f'history-does-not-fit {type(e).__name__}', tb
        else:
            r.status, r.cls, r.msg = 'harness', type(e).__name__, tb
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    r.choices = list(src.out)
    r.sched = sim.sched.hexdigest()[:16]
    r.n_sched = sim.n_sched
    r.log = sim.log if keep_log else None
    r.faults, r.probes = sim.faults, sim.probes
    r.simtime = sim.now - sim.t0
    r.nontrivial = sim.nontrivial
    r.events = sim.events
    r.sample = getattr(sim, 'sample', None)
    if r.status == 'ok' and not keep_log:
        r.choices = None
    return r


def _child(fd, mod, src, keep_log):
    try:
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        r = execute(mod, src, keep_log)
        blob = pickle.dumps(r.as_tuple())
    except BaseException:
        r = Result()
        r.status, r.cls, r.msg = 'harness', 'child', traceback.format_exc()
        blob = pickle.dumps(r.as_tuple())
    try:
        blob = struct.pack('<I', len(blob)) + blob
        view = memoryview(blob)
        while view:
            n = os.write(fd, view)
            view = view[n:]
    finally:
        os._exit(0)


def run_forked(mod, src, keep_log=False):
    """Run once in a forked child; returns a Result."""
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(rfd)
        _child(wfd, mod, src, keep_log)
    os.close(wfd)
    data = b''
    deadline = REAL_MONO() + WALL_KILL
    while True:
        left = deadline - REAL_MONO()
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            break
        ok, _, _ = select.select([rfd], [], [], left)
        if not ok:
            continue
        b = os.read(rfd, 1 << 16)
        if not b:
            break
        data += b
    os.close(rfd)
    os.waitpid(pid, 0)
    if len(data) < 4 or len(data) - 4 != struct.unpack('<I', data[:4])[0]:
        r = Result()
        r.status, r.cls, r.msg = 'harness', 'died', 'the run ended without a report'
        r.choices, r.faults, r.probes = list(src.out), {}, {}
        r.log, r.sched, r.n_sched, r.simtime, r.nontrivial = [], '', 0, 0, False
        return r
    return Result.of(pickle.loads(data[4:]))


def seed_of(pid, seed, i):
    return f'{pid}/{seed}/{i}'


# -- minimisation -----------------------------------------------------------
def minimise(mod, choices, cls, budget_runs=600, budget_s=40):
    best = list(choices)
    t0 = REAL_MONO()
    runs = 0

    def attempt(cand):
        nonlocal runs, best
        if runs >= budget_runs or REAL_MONO() - t0 > budget_s:
            return False
        runs += 1
        r = run_forked(mod, Source(replay=cand), keep_log=True)
        if r.status == 'violation' and r.cls == cls:
            out = r.choices
            while out and out[-1] == 0:
                out.pop()
            if (len(out), out) < (len(best), best):
                best = out
                return True
        return False

    attempt(best)
    improved = True
    while improved and runs < budget_runs and REAL_MONO() - t0 < budget_s:
        improved = False
        n = max(1, len(best) // 2)
        while n >= 1:
            i = 0
            while i < len(best):
                if attempt(best[:i] + best[i + n:]):
                    improved = True
                elif any(best[i:i + n]) and attempt(
                        best[:i] + [0] * len(best[i:i + n]) + best[i + n:]):
                    improved = True
                    i += n
                else:
                    i += n
                if runs >= budget_runs:
                    break
            n //= 2
        i = 0
        while i < len(best):
            v = best[i]
            for c in (1, v // 2, v - 1):
                if 0 <= c < v and attempt(best[:i] + [c] + best[i + 1:]):
                    improved = True
                    break
            i += 1
    return best, runs


# -- search --------------------------------------------------------------
def _merge(a, b):
    for k, v in b.items():
        a[k] = a.get(k, 0) + v


def _worker(fd, mod, pid, seed, indices, stop_at, classes_wanted):
    """Runs its share of the seeds; writes aggregated results."""
    agg = dict(runs=0, faults={}, probes={}, simtime=0.0, scheds=set(), events=0,
               nontrivial=set(), viol=[], harness=[], samples=[])
    seen = {}
    known = {k['class'] for k in known_findings() if k['property'] == pid}
    for i in indices:
        if REAL_MONO() > stop_at:
            break
        r = run_forked(mod, Source(seed=seed_of(pid, seed, i)))
        agg['runs'] += 1
        _merge(agg['faults'], r.faults or {})
        _merge(agg['probes'], r.probes or {})
        agg['simtime'] += r.simtime or 0
        agg['events'] += r.n_sched or 0
        agg['scheds'].add(r.sched)
        if r.nontrivial:
            agg['nontrivial'].add(r.sched)
        if r.status == 'violation':
            n = seen.get(r.cls, 0)
            seen[r.cls] = n + 1
            if n < 2:
                agg['viol'].append((i, r.cls, r.msg, r.choices))
            if sum(n for c, n in seen.items() if c not in known) >= classes_wanted:
                break
        elif r.status == 'harness':
            agg['harness'].append((i, r.cls, r.msg))
            if len(agg['harness']) > 3:
                break
        elif r.sample is not None and len(agg['samples']) < 2 and r.nontrivial:
            agg['samples'].append(dict(run=i, case=r.sample))
    blob = pickle.dumps(agg)
    with os.fdopen(fd, 'wb') as f:
        f.write(struct.pack('<I', len(blob)))
        f.write(blob)
    os._exit(0)


def search(mod, pid, seed, runs, jobs, wall):
    gc.collect()
    gc.freeze()
    stop_at = REAL_MONO() + wall
    procs = []
    for w in range(jobs):
        rfd, wfd = os.pipe()
        p = os.fork()
        if p == 0:
            os.close(rfd)
            try:
                _worker(wfd, mod, pid, seed, range(w, runs, jobs), stop_at, 6)
            finally:
                os._exit(3)
        os.close(wfd)
        procs.append((p, rfd))
    total = dict(runs=0, faults={}, probes={}, simtime=0.0, scheds=set(), events=0,
                 nontrivial=set(), viol=[], harness=[], samples=[])
    for p, rfd in procs:
        with os.fdopen(rfd, 'rb') as f:
            data = f.read()
        os.waitpid(p, 0)
        if len(data) < 4:
            total['harness'].append((-1, 'worker', 'a search process died'))
            continue
        a = pickle.loads(data[4:])
        total['runs'] += a['runs']
        total['simtime'] += a['simtime']
        total['events'] += a['events']
        _merge(total['faults'], a['faults'])
        _merge(total['probes'], a['probes'])
        for k in ('scheds', 'nontrivial'):
            total[k] |= a[k]
        for k in ('viol', 'harness', 'samples'):
            total[k] += a[k]
    total['viol'].sort(key=lambda v: v[0])
    total['samples'].sort(key=lambda v: v['run'])
    return total


# -- known findings ------------------------------------------------------
def known_findings():
    """Open findings: {'property', 'class', 'what'}.  Fixed ones suppress nothing."""
    out = []
    path = os.path.join(VERIF, 'KNOWN_FINDINGS.jsonl')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('{'):
                d = json.loads(line)
                if d.get('status') == 'open':
                    out.append(d)
    return out


def write_replay(pid, cls, msg, choices, seed, run, log, minimised_from, confirmed):
    d = os.path.join(VERIF, 'evidence', 'replays')
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256((pid + cls + json.dumps(choices)).encode()).hexdigest()[:10]
    path = os.path.join(d, f'{pid}-{h}.json')
    with open(path, 'w') as f:
        json.dump(dict(property=pid, violation_class=cls, message=msg,
                       verif_seed=seed, run=run, choices=choices,
                       minimised_from=minimised_from, confirmed=confirmed,
                       trace=log), f, indent=1)
    return path


def replay_file(path):
    d = json.load(open(path))
    mod = load_property(d['property'])
    r = run_forked(mod, Source(replay=d['choices']), keep_log=True)
    return d, r


def main(pid):
    t0 = REAL_MONO()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    jobs = int(os.environ.get('VERIF_JOBS', '0')) or min(8, os.cpu_count() or 1)
    mod = load_property(pid)
    runs = mod.RUNS[tier]
    if os.environ.get('VERIF_RUNS'):
        runs = int(os.environ['VERIF_RUNS'])
    # The number of runs is fixed, so what is explored does not depend on the
    # machine; the wall limit is only a guard.
    wall = 600 if tier == 'quick' else 3 * 3600
    tot = search(mod, pid, seed, runs, jobs, wall)

    violations = 0
    printed_known = set()
    # one representative per class, smallest run first
    by_cls = {}
    for i, cls, msg, ch in tot['viol']:
        by_cls.setdefault(cls, (i, msg, ch))
    exit_code = 0
    known = [k for k in known_findings() if k['property'] == pid]
    for n, (cls, (i, msg, ch)) in enumerate(sorted(by_cls.items(), key=lambda kv: kv[1][0])):
        k = next((k for k in known if k['class'] == cls), None)
        if k:
            if cls not in printed_known:
                print(f"KNOWN-FINDING: property={pid} {k['what']}")
                printed_known.add(cls)
            continue
        violations += 1
        if violations > 3:
            continue
        small, tries = minimise(mod, ch, cls, budget_s=30 if violations == 1 else 8)
        r = run_forked(mod, Source(replay=small), keep_log=True)
        if not (r.status == 'violation' and r.cls == cls):
            small = ch
            r = run_forked(mod, Source(replay=small), keep_log=True)
        path = write_replay(pid, cls, r.msg or msg, small, seed, i, r.log or [],
                            len(ch), True)
        # confirm in a fresh interpreter
        import subprocess
        env = dict(os.environ, PYTHONHASHSEED='77')
        c = subprocess.run([sys.executable, '-m', 'dst.replay', path], cwd=VERIF,
                           env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        confirmed = c.returncode == 1
        if not confirmed:
            write_replay(pid, cls, r.msg or msg, small, seed, i, r.log or [], len(ch), False)
        print(f'{pid}: {cls}: {(r.msg or msg)[:1500]}')
        print(f'{pid}: seed {seed} run {i}; {len(ch)} choices minimised to {len(small)} '
              f'in {tries} runs; replay in a fresh process '
              f'{"reproduces it" if confirmed else "did NOT reproduce it"}')
        print(f'VIOLATION property={pid} replay={path}')
        exit_code = 1
    wall_s = REAL_MONO() - t0
    ev = dict(property=pid, tier=tier, seed=seed, level='exploration',
              coverage=dict(
                  evaluations=tot['runs'],
                  distinct_nontrivial=len(tot['nontrivial']),
                  rule=mod.RULE,
                  samples=tot['samples'][:3] or [dict(note='no nontrivial sample')],
                  runs_per_hour=int(tot['runs'] / max(wall_s, 1e-9) * 3600),
                  simulated_seconds=round(tot['simtime'], 1),
                  schedule_events=tot['events'],
                  distinct_interleavings=len(tot['scheds']),
                  interleaving_measure='distinct SHA-256 hashes of the recorded event sequence of a run',
                  faults_injected=dict(sorted(tot['faults'].items())),
                  conditions_reached=dict(sorted(tot['probes'].items())),
                  real_components=mod.REAL, stub_components=mod.STUB),
              assumptions=mod.ASSUMPTIONS, wall_s=round(wall_s, 2),
              violations=violations)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{pid}.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    if tot['harness']:
        for i, cls, msg in tot['harness'][:3]:
            print(f'HARNESS ERROR {pid} run {i}: {cls}\n{msg}')
        if exit_code == 0:
            exit_code = 2
    never = [k for k in getattr(mod, 'MUST_REACH', ()) if not tot['probes'].get(k)]
    if never and exit_code == 0 and runs >= mod.RUNS['quick']:
        print(f'{pid}: warning: never reached: {never}')
    print(f'{pid}: {tot["runs"]} runs, {len(tot["scheds"])} interleavings, '
          f'{violations} violation(s), {wall_s:.1f} s')
    return exit_code
