"""C14: the logs of an asynchronous run are complete and durable at every moment."""
import csv
import io

from .. import steady, world as W
from ..storage import SimFile, Crash

from leap_ec.distrib.probe import log_worker_location, log_pop

RUNS = dict(quick=8000, thorough=80000)
RULE = ('one asynchronous run on the faulty simulated cluster that logs to simulated files, '
        'with the client process killed at a drawn write, flush or probe call, or with I/O '
        'errors; what is on the simulated disk is compared with what had happened; non-trivial: '
        'at least one fault, distinct by the hash of its event sequence')
REAL = W.SEAMS_REAL
STUB = W.SEAMS_STUB + ['files (simulated: buffered until flushed, with disk faults)']
ASSUMPTIONS = ['the stream becomes durable when flushed, as an ordinary text file handed to '
               'the operating system does when the process (not the machine) dies']
MUST_REACH = ['crashed_run', 'finished_run', 'io_error_surfaced', 'snapshot_skipped', 'failed_logged',
              'no_header', 'torn_tail']

WORKER_COLS = ['hostname', 'pid', 'uuid', 'birth_id', 'start_eval_time', 'stop_eval_time', 'fitness']
POP_COLS = ['interval', 'uuid', 'birth_id', 'start_eval_time', 'stop_eval_time', 'fitness']


def row_of(ind, cols, **extra):
    d = dict(extra)
    for c in cols:
        if c not in d:
            v = getattr(ind, c)
            d[c] = '' if v is None else str(v)
    return {k: str(v) for k, v in d.items()}


def run(sim, src):
    mode = src.pick(['plain', 'crash', 'crash', 'errors'])
    header = src.bool(0.8)
    every = src.size(1, 4, 15)
    if not header:
        sim.reach('no_header')
    f1, f2 = {}, {}
    c1 = c2 = None
    kill = None
    if mode == 'errors':
        which = src.pick(['write', 'flush', 'full'])
        f = src.pick([f1, f2])
        if which != 'full':
            f[which] = src.pick([0.05, 0.2])
    cap1 = cap2 = None
    if mode == 'errors' and which == 'full':
        if f is f1:
            cap1 = src.int(150, 2500)
        else:
            cap2 = src.int(150, 4000)
    if mode == 'crash':
        where = src.pick(['file1', 'file2', 'probe'])
        if where == 'file1':
            c1 = src.int(2, 40)
        elif where == 'file2':
            c2 = src.int(2, 60)
        else:
            kill = src.int(1, 20)
    file1 = SimFile(sim, {}, cap1, c1)
    file2 = SimFile(sim, {}, cap2, c2)
    log1 = log_worker_location(file1, header=header)
    log2 = log_pop(every, file2, header=header)
    file1.faults, file2.faults = f1, f2
    done1, done2 = [], []          # what completed calls must have logged
    open1, open2 = [], []          # what the call under way was to log
    n = [0]

    def maybe_kill():
        n[0] += 1
        if kill is not None and n[0] >= kill:
            sim.fault('crash_between_calls')
            raise Crash()

    def check_now():
        judge(sim, file1.durable, WORKER_COLS, header, done1, [], True)
        judge(sim, file2.durable, POP_COLS, header, done2, [], True)

    def on_report(h, ind):
        maybe_kill()
        open1.append(row_of(ind, WORKER_COLS))
        before = (W.snap(ind), len(ind.__dict__))
        log1(ind)
        sim.check((W.snap(ind)['genome'], len(ind.__dict__)) == (before[0]['genome'], before[1]),
                  'individual-altered', 'logging changed the individual')
        done1.extend(open1)
        open1.clear()
        if W.isnan(ind.fitness):
            sim.reach('failed_logged')
        check_now()
        maybe_kill()

    calls = [0]

    def on_pop(h, pop):
        if calls[0] % every == 0:
            open2.extend(row_of(i, POP_COLS, interval=calls[0]) for i in pop)
        else:
            sim.reach('snapshot_skipped')
        ids = [id(i) for i in pop]
        log2(pop)
        sim.check([id(i) for i in pop] == ids, 'population-altered', 'logging changed the population')
        calls[0] += 1
        done2.extend(open2)
        open2.clear()
        check_now()
        maybe_kill()
    died = failed = None
    try:
        steady.run(sim, src, on_report=on_report, on_pop=on_pop)
    except Crash:
        died = True
        sim.reach('crashed_run')
    except OSError as e:
        failed = e
        sim.reach('io_error_surfaced')
        sim.check(any(e is x for x in file1.raised + file2.raised), 'unexpected-exception OSError',
                  repr(e))
    if not died:
        sim.check(bool(failed) == bool(file1.raised or file2.raised), 'io-error-hidden',
                  f'writing the log failed ({(file1.raised + file2.raised)[:1]}) and the run went on')
    if not died and not failed:
        sim.reach('finished_run')
    judge(sim, file1.durable, WORKER_COLS, header, done1, open1, False)
    judge(sim, file2.durable, POP_COLS, header, done2, open2, False)
    if getattr(sim, 'sample', None):
        sim.sample = dict(sim.sample, log_mode=mode, rows=len(done1), every=every)
    else:
        sim.sample = dict(log_mode=mode, rows=len(done1), every=every, header=header,
                          faults=dict(sim.faults), trace=sim.log[:12])


def judge(sim, text, cols, header, done, current, complete):
    """`done` rows are all on disk, in order; at most a part of `current` follows."""
    whole, sep, tail = text.rpartition('\n')
    lines = (whole + sep)
    if tail:
        sim.reach('torn_tail')
        sim.check(not complete, 'torn-row', f'an incomplete row is on disk between calls: {tail[-200:]!r}')
    rows = list(csv.reader(io.StringIO(lines)))
    rows = [r for r in rows if r]
    if header:
        if rows or done:
            sim.check(bool(rows) and rows[0] == cols, 'header', f'first row {rows[:1]}, expected {cols}')
            rows = rows[1:]
    got = [dict(zip(cols, r)) if len(r) == len(cols) else r for r in rows]
    sim.check(len(got) >= len(done), 'rows-not-durable',
              f'{len(done)} rows were logged, {len(got)} are on disk')
    for a, b in zip(got, done):
        sim.check(a == b, 'wrong-row', f'{a} instead of {b}')
    extra = got[len(done):]
    sim.check(len(extra) <= len(current) and extra == current[:len(extra)], 'extra-rows',
              f'{len(extra)} rows nobody logged: {extra[:2]}')
