"""Simulated world: virtual clock, identity of the executing machine, seams.

`install_seams()` must run before `leap_ec` is imported.  It replaces, once
and for all, the process-wide sources of nondeterminism that LEAP meets by
functions that ask the currently active `Sim`; with no simulation active they
behave as the originals.
"""
import hashlib
import heapq
import os
import random
import sys
import time

REAL = {}
CURRENT = None            # the active Sim
GUARD_CPU_S = 40


class Violation(BaseException):
    """A listed property does not hold.

    A BaseException, so that code under test that contains `except Exception`
    cannot swallow it.
    """

    def __init__(self, cls, msg):
        super().__init__(f'{cls}: {msg}')
        self.cls = cls
        self.msg = str(msg)[:2000]


class Sim:
    """State of one simulated run."""

    def __init__(self, src, log_events=True):
        self.src = src
        self.now = 1000.0 + src.draw(1000)      # virtual seconds
        self.t0 = self.now
        self.queue = []                          # (time, seq, fn)
        self.seq = 0
        self.events = 0
        self.max_events = 200000
        self.log = []                            # event log (strings)
        self.sched = hashlib.sha256()            # hash of the interleaving
        self.n_sched = 0
        self.faults = {}                         # injected faults, by kind
        self.probes = {}                         # rare conditions reached
        self.machine = None                      # executing worker, or None = client
        self.client_skew = 0.0
        self.client_host = 'client'
        self.client_pid = 4000
        self.failed = None
        self.urandom = random.Random('urandom' + str(src.draw(1 << 30)))
        self.popen = None                        # simulated process factory
        self.nontrivial = False
        self.sleep_hook = None

    # -- reporting -----------------------------------------------------
    def fail(self, cls, msg):
        if self.failed is None:
            self.failed = Violation(cls, msg)
        raise self.failed

    def check(self, cond, cls, msg):
        if not cond:
            self.fail(cls, msg() if callable(msg) else msg)

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n
        self.nontrivial = True

    def reach(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def event(self, text):
        """Record one step of the schedule."""
        self.n_sched += 1
        self.sched.update(text.encode())
        self.sched.update(b'\n')
        if len(self.log) < 4000:
            self.log.append(f't={self.now - self.t0:.3f} {text}')

    # -- discrete-event time ------------------------------------------
    def after(self, delay, fn):
        self.seq += 1
        heapq.heappush(self.queue, (self.now + delay, self.seq, fn))

    def step(self):
        if not self.queue:
            return False
        self.events += 1
        if self.events > self.max_events:
            self.fail('no-termination',
                      f'still running after {self.max_events} simulated events')
        t, _, fn = heapq.heappop(self.queue)
        if t > self.now:
            self.now = t
        fn()
        return True

    # -- clocks and identity, as seen by the code under test ------------
    def read_clock(self):
        m = self.machine
        if m is None:
            return self.now + self.client_skew
        return m.read_clock(self)

    def sleep(self, d):
        m = self.machine
        if m is not None:
            m.elapsed += max(0.0, d)
        else:
            # the client sleeps: the world goes on
            end = self.now + max(0.0, d)
            while self.queue and self.queue[0][0] <= end:
                self.step()
            self.now = max(self.now, end)


class active:
    """Context manager: make `sim` the simulated world."""

    def __init__(self, sim):
        self.sim = sim

    def __enter__(self):
        global CURRENT
        CURRENT = self.sim
        return self.sim

    def __exit__(self, *a):
        global CURRENT
        CURRENT = None
        return False


class _SimPopen:
    """Stands in for subprocess.Popen: real unless a simulation overrides."""

    def __class_getitem__(cls, item):
        return cls

    def __new__(cls, *a, **k):
        s = CURRENT
        if s is not None and s.popen is not None:
            return s.popen(*a, **k)
        return REAL['Popen'](*a, **k)


def install_seams():
    if REAL:
        return
    import platform
    import socket
    import subprocess
    import uuid
    REAL.update(time=time.time, time_ns=time.time_ns, sleep=time.sleep,
                monotonic=time.monotonic, perf_counter=time.perf_counter,
                getpid=os.getpid, node=platform.node,
                gethostname=socket.gethostname, urandom=os.urandom,
                Popen=subprocess.Popen)

    def _time():
        s = CURRENT
        return REAL['time']() if s is None else s.read_clock()

    def _time_ns():
        s = CURRENT
        return REAL['time_ns']() if s is None else int(s.read_clock() * 1e9)

    def _monotonic():
        s = CURRENT
        if s is None:
            return REAL['monotonic']()
        m = s.machine
        return s.now + (m.elapsed if m is not None else 0.0)

    def _perf():
        s = CURRENT
        if s is None:
            return REAL['perf_counter']()
        m = s.machine
        return s.now + (m.elapsed if m is not None else 0.0)

    def _sleep(d):
        s = CURRENT
        if s is None:
            return REAL['sleep'](d)
        s.sleep(d)

    def _getpid():
        s = CURRENT
        if s is None:
            return REAL['getpid']()
        return s.client_pid if s.machine is None else s.machine.pid

    def _node():
        s = CURRENT
        if s is None:
            return REAL['node']()
        return s.client_host if s.machine is None else s.machine.hostname

    def _hostname():
        s = CURRENT
        if s is None:
            return REAL['gethostname']()
        return s.client_host if s.machine is None else s.machine.hostname

    def _urandom(n):
        s = CURRENT
        return REAL['urandom'](n) if s is None else s.urandom.randbytes(n)

    time.time, time.time_ns, time.sleep = _time, _time_ns, _sleep
    time.monotonic, time.perf_counter = _monotonic, _perf
    os.getpid = _getpid
    platform.node = _node
    socket.gethostname = _hostname
    os.urandom = _urandom
    random._urandom = _urandom             # SystemRandom, secrets, numpy's SeedSequence
    import numpy as np
    REAL.update(seed=random.seed, npseed=np.random.seed)

    def _seed(a=None, version=2):
        s = CURRENT
        if a is None and s is not None:
            a = s.urandom.getrandbits(64)
        return REAL['seed'](a, version)

    def _npseed(seed=None):
        s = CURRENT
        if seed is None and s is not None:
            seed = s.urandom.getrandbits(32)
        return REAL['npseed'](seed)
    random.seed, np.random.seed = _seed, _npseed
    subprocess.Popen = _SimPopen
    import distributed
    import distributed.client
    import distributed.worker
    import dask.distributed as dd
    from . import cluster
    cluster.REAL_GET_WORKER = distributed.get_worker
    cluster.REAL_AS_COMPLETED = distributed.as_completed
    cluster.REAL_WAIT = distributed.wait
    for mod in (distributed, distributed.client, distributed.worker, dd):
        for name, fn in (('get_worker', cluster.get_worker),
                         ('as_completed', cluster.as_completed),
                         ('wait', cluster.wait)):
            if hasattr(mod, name):
                setattr(mod, name, fn)


def load_leap():
    """Import the library under test from /repo's working tree."""
    install_seams()
    root = os.environ.get('LEAP_ROOT', '/repo')
    if sys.path[0] != root:
        sys.path.insert(0, root)
    import leap_ec
    got = os.path.realpath(os.path.dirname(os.path.dirname(leap_ec.__file__)))
    if got != os.path.realpath(root):
        raise RuntimeError(f'leap_ec imported from {got}, expected {root}')
    return leap_ec
