"""Cooperative threads: several complete runs of the library in one process,
exactly one of which executes at any time.

A run gives up control only at `pause()`, which the harness calls from the
places where application code runs (fitness functions, probes, stop
conditions).  The scheduler then draws who goes on.  Each run has its own
state of the two standard random number generators, saved and restored at
every switch, so that a run draws the same numbers alone and interleaved.
"""
import random
import threading

import numpy as np


class Coop:
    def __init__(self, sim):
        self.sim = sim
        self.tasks = []
        self.current = None
        self.back = threading.Semaphore(0)

    def spawn(self, name, fn, seed):
        t = dict(name=name, fn=fn, go=threading.Semaphore(0), done=False, error=None, result=None,
                 seed=seed, state=None, switches=0)
        self.tasks.append(t)
        return t

    def _body(self, t):
        t['go'].acquire()
        if t.get('kill'):
            t['done'] = True
            self.back.release()
            return
        try:
            random.seed(t['seed'])
            np.random.seed(t['seed'] % (1 << 32))
            t['result'] = t['fn']()
        except Killed:
            pass
        except BaseException as e:      # handed to the scheduler
            t['error'] = e
        t['done'] = True
        self.back.release()

    def pause(self):
        """Called by the running task: let somebody else run."""
        t = self.current
        if t is None:
            return
        t['state'] = (random.getstate(), np.random.get_state(), self.sim.machine)
        self.back.release()
        t['go'].acquire()
        if t.get('kill'):
            raise Killed()
        random.setstate(t['state'][0])
        np.random.set_state(t['state'][1])
        self.sim.machine = t['state'][2]

    def run(self):
        sim, src = self.sim, self.sim.src
        for t in self.tasks:
            t['thread'] = threading.Thread(target=self._body, args=(t,), daemon=True)
            t['thread'].start()
        try:
            prev = None
            while True:
                ready = [t for t in self.tasks if not t['done']]
                if not ready:
                    break
                t = src.pick(ready)
                if prev is not None and t is not prev:
                    sim.fault('context_switch')
                prev = t
                sim.event(f'run {t["name"]}')
                self.current = t
                t['go'].release()
                self.back.acquire()
                self.current = None
                if t['error'] is not None:
                    raise t['error']
        finally:
            for t in self.tasks:
                if not t['done']:
                    t['kill'] = True
                    t['go'].release()
                    self.back.acquire()


class Killed(BaseException):
    """The simulation is over; unwind the thread."""
