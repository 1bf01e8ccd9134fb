"""A simulated dask cluster: scheduler, workers, network and client in one
process, stepped by the discrete-event loop of `core.Sim`.

Stub: the dask scheduler/worker/transport.  Real: everything LEAP runs on the
client and on the workers (tasks are cloudpickled at submission, executed from
those bytes in a worker's identity, and their results pickled back, as dask
does, so nothing is shared between client and workers by accident).
"""
import itertools
import pickle
import random

import cloudpickle
import numpy as np

from . import core

REAL_GET_WORKER = REAL_AS_COMPLETED = REAL_WAIT = None


try:
    from distributed.scheduler import KilledWorker as _Killed
    from distributed.client import CancelledError as _Cancelled
except ImportError:
    _Killed = _Cancelled = Exception


class KilledWorker(_Killed):
    """As dask: the task was on too many workers that died."""

    def __init__(self, text):
        Exception.__init__(self, text)

    def __str__(self):
        return f'killed: {self.args}'

    __repr__ = __str__


class CancelledError(_Cancelled):
    pass


class Worker:
    """A simulated worker process."""

    def __init__(self, cluster, index):
        self.cluster = cluster
        self.index = index
        self.restarts = 0
        self.hostname = f'node{index // cluster.per_host}'
        self.busy = False
        self.up = True
        self.elapsed = 0.0          # time spent inside the current task
        self.skew = 0.0
        self.slow = 1.0
        self._boot()

    def _boot(self):
        src = self.cluster.sim.src
        self.pid = 5000 + 100 * self.index + self.restarts
        self.id = f'w{self.index}r{self.restarts}'
        self.name = self.index
        self.address = f'sim://{self.id}'
        # A worker process has random state of its own.
        rng = random.Random(src.draw(1 << 30))
        self.py_state = rng.getstate()
        self.np_state = np.random.RandomState(rng.getrandbits(32)).get_state()
        for name in ('logger', 'leap_context'):
            self.__dict__.pop(name, None)
        for p in self.cluster.plugins:
            self.setup_plugin(p)

    def setup_plugin(self, plugin):
        self.cluster.run_on(self, lambda: plugin.setup(self))

    def read_clock(self, sim):
        return sim.now + self.elapsed + self.skew

    def crash(self):
        self.restarts += 1
        self.busy = False
        self._boot()


class Task:
    __slots__ = ('key', 'payload', 'index', 'state', 'result', 'error', 'deaths',
                 'max_deaths', 'executions', 'watchers', 'future_refs', 'label',
                 'delivered', 'plan')

    def __init__(self, key, payload, index, label):
        self.key, self.payload, self.index, self.label = key, payload, index, label
        self.state = 'pending'
        self.result = self.error = None
        self.deaths = 0
        self.executions = []         # completed executions, for provenance
        self.watchers = []
        self.delivered = None
        self.plan = None


class Cluster:
    """Fault knobs are probabilities; the choice source decides every use."""

    def __init__(self, sim, workers=3, per_host=2, threads=1, faults=None,
                 process_workers=True, latency=0.05, jitter=1.0):
        self.sim = sim
        self.per_host = per_host
        self.plugins = []
        self.ready = []
        self.tasks = {}
        self.order = []
        self.faults = faults or {}
        self.latency, self.jitter = latency, jitter
        self.allowed_failures = 3
        self.process_workers = process_workers
        self.counter = itertools.count()
        self.on_execute = None       # harness callback(task, worker, result)
        self.workers = []
        for i in range(workers):
            self.workers.append(Worker(self, i))
            w = self.workers[-1]
            if sim.src.bool(self.p('skew')):
                w.skew = sim.src.pick([-0.5, 3.0, -3600.0, 86400.0])
                sim.fault('clock_skew')
            if sim.src.bool(self.p('slow')):
                w.slow = sim.src.pick([2.0, 20.0])
                sim.fault('slow_worker')

    def p(self, kind):
        return self.faults.get(kind, 0.0)

    # -- identity swapping ----------------------------------------------
    def run_on(self, worker, fn):
        """Run fn() as if inside `worker`'s process."""
        sim = self.sim
        prev = sim.machine
        saved = (random.getstate(), np.random.get_state())
        random.setstate(worker.py_state)
        np.random.set_state(worker.np_state)
        ctx = None
        if self.process_workers:
            # A worker process has a module-global context of its own.
            ctx = globals_of_leap()['context']
            saved_ctx = _snapshot(ctx)
            _restore(ctx, worker.__dict__.setdefault(
                'leap_context', {'leap': {'distrib': {'non_viable': 0}}}))
        sim.machine = worker
        try:
            return fn()
        finally:
            sim.machine = prev
            worker.py_state, worker.np_state = random.getstate(), np.random.get_state()
            random.setstate(saved[0])
            np.random.set_state(saved[1])
            if ctx is not None:
                worker.leap_context = _snapshot(ctx)
                _restore(ctx, saved_ctx)

    # -- scheduling -------------------------------------------------------
    def submit(self, key, payload, label):
        if key in self.tasks:            # pure task already known
            return self.tasks[key]
        t = Task(key, payload, next(self.counter), label)
        if self.sim.src.bool(self.p('lose')):
            t.plan = 'lose'
        self.tasks[key] = t
        self.order.append(t)
        self.sim.event(f'submit {t.index}')
        self.ready.append(t)
        self.sim.after(self._net(), self.dispatch)
        return t

    def _net(self):
        s = self.sim.src
        return self.latency + self.jitter * s.draw(64) / 64.0

    def dispatch(self):
        src = self.sim.src
        while self.ready:
            idle = [w for w in self.workers if w.up and not w.busy]
            if not idle:
                return
            w = idle[src.draw(len(idle))]
            if self.faults.get('fifo', True):
                t = self.ready.pop(0)
            else:
                t = self.ready.pop(src.draw(len(self.ready)))
            if t.state != 'pending':
                continue
            w.busy = True
            t.state = 'running'
            self.start(w, t)

    def start(self, w, t):
        sim, src = self.sim, self.sim.src
        if src.bool(self.p('clock_jump')):
            w.skew += src.pick([60.0, -60.0, 1e6, -0.01])
            sim.fault('clock_jump')
        can_die = t.deaths < self.allowed_failures
        if t.plan == 'lose':
            sim.fault('crash_before_execution')
            self.die(w, t, 'before')
            return
        if can_die and src.bool(self.p('crash_before')):
            sim.fault('crash_before_execution')
            self.die(w, t, 'before')
            return
        sim.event(f'exec {t.index} on {w.index}')
        w.elapsed = 0.0
        outcome = self.execute(w, t)
        dur = (w.elapsed + src.draw(64) / 16.0) * w.slow
        if can_die and src.bool(self.p('crash_during')):
            sim.fault('crash_during_execution')
            sim.after(dur * 0.5, lambda: self.die(w, t, 'during'))
            return
        if can_die and src.bool(self.p('crash_after')):
            # finished, but died before the result left the worker
            sim.fault('crash_after_execution')
            sim.after(dur, lambda: self.die(w, t, 'after'))
            return
        if src.bool(self.p('stall')):
            sim.fault('stalled_worker')
            dur += src.pick([30.0, 600.0])
        sim.after(dur, lambda: self.finish(w, t, outcome))

    def die(self, w, t, when):
        t.deaths += 1
        self.sim.event(f'die {t.index} {when}')
        w.elapsed = 0.0
        w.crash()
        if t.deaths > self.allowed_failures:
            if self.sim.src.bool(0.3):        # the scheduler forgot it
                self.sim.fault('task_cancelled')
                t.state = 'cancelled'
            else:
                self.sim.fault('task_lost')
                t.state, t.error = 'error', KilledWorker(f'task {t.index}')
            self.notify(t)
        else:
            t.state = 'pending'
            self.ready.append(t)
        self.sim.after(0.5 + self._net(), self.dispatch)

    def execute(self, w, t):
        def body():
            fn, args, kwargs = pickle.loads(t.payload)
            try:
                r = fn(*args, **kwargs)
            except Exception as e:
                return ('error', e)
            try:
                blob = cloudpickle.dumps(r)
            except Exception as e:
                return ('error', TypeError(f'could not serialize result: {e!r}'))
            return ('ok', blob)
        t0 = w.read_clock(self.sim)
        led = getattr(self.sim, 'ledger', None)
        n0 = len(led.entries) if led is not None else 0
        outcome = self.run_on(w, body)
        t1 = w.read_clock(self.sim)
        err = None
        if led is not None:
            err = next((e['error'] for e in led.entries[n0:] if 'error' in e), None)
        t.executions.append(dict(host=w.hostname, pid=w.pid, worker=w.index,
                                 t0=t0, t1=t1, outcome=outcome[0],
                                 app_error=err,
                                 evaluations=None if led is None else sum(
                                     1 for e in led.entries[n0:] if 'error' in e or e['site'] == 'value')))
        return outcome

    def finish(self, w, t, outcome):
        w.busy = False
        if t.state == 'running':
            self.sim.event(f'done {t.index}')
            if outcome[0] == 'ok':
                t.state, t.result = 'finished', outcome[1]
                t.delivered = t.executions[-1]
            else:
                t.state, t.error = 'error', outcome[1]
            self.notify(t)
        self.dispatch()

    def notify(self, t):
        ws, t.watchers = t.watchers, []
        for cb in ws:
            self.sim.after(self._net(), cb)

    def done(self, t):
        return t.state in ('finished', 'error', 'cancelled')

    def watch(self, t, cb):
        if self.done(t):
            self.sim.after(self._net(), cb)
        else:
            t.watchers.append(cb)

    def run_until(self, cond, what):
        sim = self.sim
        while not cond():
            if not sim.step():
                sim.fail('deadlock', f'client blocked for ever waiting for {what}')


def _snapshot(d):
    return {k: (_snapshot(v) if isinstance(v, dict) else v) for k, v in d.items()}


def _restore(d, snap):
    """Make d equal to snap in place, keeping nested dict objects alive."""
    for k in list(d):
        if k not in snap:
            del d[k]
    for k, v in snap.items():
        if isinstance(v, dict) and isinstance(d.get(k), dict):
            _restore(d[k], v)
        elif isinstance(v, dict):
            d[k] = _snapshot(v)
        else:
            d[k] = v


_GV = {}


def globals_of_leap():
    if 'context' not in _GV:
        from leap_ec import global_vars
        _GV['context'] = global_vars.context
    return _GV


class Future:
    def __init__(self, client, task):
        self.client, self._task = client, task
        self.key = task.key

    @property
    def status(self):
        return {'running': 'pending'}.get(self._task.state, self._task.state)

    def done(self):
        return self.client.cluster.done(self._task)

    def cancelled(self):
        return self._task.state == 'cancelled'

    def cancel(self, **kw):
        if not self.done():
            self._task.state = 'cancelled'
            self.client.cluster.notify(self._task)

    def retry(self, **kw):
        raise NotImplementedError

    def _wait(self):
        self.client.cluster.run_until(self.done, f'task {self._task.index}')

    def result(self, timeout=None):
        self._wait()
        t = self._task
        if t.state == 'error':
            raise t.error
        if t.state == 'cancelled':
            raise CancelledError(self.key)
        return pickle.loads(t.result)

    def exception(self, timeout=None, **kw):
        self._wait()
        return self._task.error

    def traceback(self, timeout=None, **kw):
        self._wait()
        return getattr(self._task.error, '__traceback__', None)

    def add_done_callback(self, fn):
        self.client.cluster.watch(self._task, lambda: fn(self))

    def release(self):
        pass

    def __hash__(self):
        return self._task.index

    def __eq__(self, other):
        return self is other

    def __repr__(self):
        return f'<SimFuture {self._task.index} {self.status}>'


class Client:
    """The subset of dask.distributed.Client that a LEAP program can use."""

    def __init__(self, cluster):
        self.cluster = cluster
        self.status = 'running'
        self.submitted = []      # deserialised copies, for the oracle
        self.on_submit = None

    def _submit(self, fn, args, kwargs, key, pure):
        args = tuple(self._resolve(a) for a in args)
        kwargs = {k: self._resolve(v) for k, v in kwargs.items()}
        if key is None:
            if pure:
                from dask.base import tokenize
                key = 'sim-' + tokenize(fn, kwargs, *args)
            else:
                key = f'sim-{len(self.cluster.order)}-{next(self.cluster.counter)}u'
        payload = cloudpickle.dumps((fn, args, kwargs))
        if self.on_submit is not None:
            self.on_submit(args, kwargs)
        t = self.cluster.submit(key, payload, None)
        return Future(self, t)

    def _resolve(self, a):
        return a.result() if isinstance(a, Future) else a

    def submit(self, func, *args, key=None, workers=None, resources=None,
               retries=None, priority=0, fifo_timeout=None, allow_other_workers=False,
               actor=False, actors=False, pure=True, **kwargs):
        return self._submit(func, args, kwargs, key, pure)

    def map(self, func, *iterables, key=None, workers=None, retries=None,
            resources=None, priority=0, allow_other_workers=False,
            fifo_timeout=None, actor=False, actors=False, pure=True,
            batch_size=None, **kwargs):
        rows = list(zip(*iterables))
        keys = key if isinstance(key, (list, tuple)) else [None] * len(rows)
        return [self._submit(func, r, kwargs, k, pure) for r, k in zip(rows, keys)]

    def gather(self, futures, errors='raise', direct=None, asynchronous=None):
        single = isinstance(futures, Future)
        if isinstance(futures, dict):
            return {k: self.gather(v, errors) for k, v in futures.items()}
        fs = [futures] if single else list(futures)
        self.cluster.run_until(lambda: all(f.done() for f in fs), 'gather')
        out = []
        for f in fs:
            if f._task.state == 'finished':
                out.append(f.result())
            elif errors == 'skip':
                continue
            else:
                f.result()
        return out[0] if single else out

    def scatter(self, data, broadcast=False, direct=None, hash=True, **kw):
        one = not isinstance(data, (list, tuple))
        items = [data] if one else data
        fs = [self._submit(_identity, (x,), {}, None, False) for x in items]
        return fs[0] if one else fs

    def register_worker_plugin(self, plugin=None, name=None, nanny=None):
        self.cluster.plugins.append(plugin)
        for w in self.cluster.workers:
            w.setup_plugin(plugin)

    register_plugin = register_worker_plugin

    def cancel(self, futures, **kw):
        for f in ([futures] if isinstance(futures, Future) else futures):
            f.cancel()

    def ncores(self, *a, **k):
        return {w.address: 1 for w in self.cluster.workers}

    nthreads = ncores

    def scheduler_info(self, **k):
        return {'workers': {w.address: {'nthreads': 1} for w in self.cluster.workers}}

    def close(self, *a, **k):
        self.status = 'closed'

    shutdown = close

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def _identity(x):
    return x


class SimAsCompleted:
    def __init__(self, futures=None, loop=None, with_results=False,
                 raise_errors=True, timeout=None):
        self.with_results = with_results
        self.raise_errors = raise_errors
        self.pending = 0
        self.queue = []
        self.cluster = None
        if futures:
            self.update(futures)

    def add(self, future):
        self.cluster = future.client.cluster
        self.pending += 1

        def arrived():
            self.pending -= 1
            self.cluster.sim.event(f'notify {future._task.index}')
            self.queue.append(future)
        self.cluster.watch(future._task, arrived)

    def update(self, futures):
        for f in futures:
            self.add(f)

    def _pop(self):
        f = self.queue.pop(0)
        if self.with_results:
            if f._task.state == 'error' and not self.raise_errors:
                return f, f._task.error
            if f._task.state == 'cancelled':
                return f, CancelledError(f.key)
            return f, f.result()
        return f

    def __iter__(self):
        return self

    def __next__(self):
        if not self.queue:
            if not self.pending:
                raise StopIteration
            self.cluster.run_until(lambda: self.queue, 'next completed task')
        # the client may be slow: let more of the world happen first
        sim = self.cluster.sim
        if sim.src.bool(self.cluster.p('client_stall')):
            sim.fault('client_stall')
            for _ in range(1 + sim.src.draw(12)):
                if not sim.step():
                    break
        return self._pop()

    def next_batch(self, block=True):
        if not self.queue and block:
            if not self.pending:
                raise StopIteration
            self.cluster.run_until(lambda: self.queue, 'next batch')
        out = []
        while self.queue:
            out.append(self._pop())
        return out

    def batches(self):
        while True:
            try:
                yield self.next_batch(block=True)
            except StopIteration:
                return

    def has_ready(self):
        return bool(self.queue)

    def is_empty(self):
        return not self.pending and not self.queue

    def count(self):
        return self.pending + len(self.queue)

    def clear(self):
        self.queue.clear()
        self.pending = 0

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


# -- seams installed in dask's namespaces --------------------------------
def get_worker():
    s = core.CURRENT
    if s is None:
        return REAL_GET_WORKER()
    if s.machine is None:
        raise ValueError('No worker found')      # as dask, outside a task
    return s.machine


def as_completed(*a, **k):
    if core.CURRENT is None:
        return REAL_AS_COMPLETED(*a, **k)
    return SimAsCompleted(*a, **k)


def wait(fs, timeout=None, return_when='ALL_COMPLETED'):
    if core.CURRENT is None:
        return REAL_WAIT(fs, timeout, return_when)
    fs = [fs] if isinstance(fs, Future) else list(fs)
    if fs:
        any_ = return_when == 'FIRST_COMPLETED'
        fs[0].client.cluster.run_until(
            lambda: (any if any_ else all)(f.done() for f in fs), 'wait')
    import collections
    R = collections.namedtuple('DoneAndNotDoneFutures', 'done not_done')
    return R({f for f in fs if f.done()}, {f for f in fs if not f.done()})
