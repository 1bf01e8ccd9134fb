"""A simulated text file.  What is written sits in a buffer; only what has been
flushed survives a crash.  Faults: full disk, I/O error, short write, failing
flush, and the death of the process in the middle of a call."""
import errno
import io


class Crash(BaseException):
    """The process dies here."""


class SimFile(io.TextIOBase):
    def __init__(self, sim, faults=None, capacity=None, crash_at=None):
        super().__init__()
        self.sim = sim
        self.buffer_ = ''
        self.durable = ''
        self.faults = faults or {}
        self.capacity = capacity           # characters that fit on the disk
        self.crash_at = crash_at           # number of the call that kills the process
        self.calls = 0
        self.flushes = 0
        self.raised = []                   # errors raised to the writer
        self.last_error_call = None
        self.tick = None                   # called after each successful flush

    # -- file protocol -------------------------------------------------
    def writable(self):
        return True

    def _fail(self, code, text):
        e = OSError(code, text)
        self.raised.append(e)
        raise e

    def _error(self):
        return self.sim.src.pick([(errno.EIO, 'Input/output error'), (errno.ENOSPC, 'No space left on device'),
                                  (errno.EDQUOT, 'Disk quota exceeded'), (errno.EPIPE, 'Broken pipe'),
                                  (errno.EINTR, 'Interrupted system call')])

    def _call(self, kind, data=''):
        self.calls += 1
        if self.crash_at is not None and self.calls >= self.crash_at:
            # the kernel may or may not have got some of it
            self.buffer_ += data[:self.sim.src.draw(len(data) + 1)]
            self.durable += self.buffer_[:self.sim.src.draw(len(self.buffer_) + 1)]
            self.sim.fault(f'crash_in_{kind}')
            raise Crash()

    def write(self, s):
        if not isinstance(s, str):
            raise TypeError('write() argument must be str')
        self._call('write', s)
        src = self.sim.src
        if self.faults.get('write') and src.bool(self.faults['write']):
            if src.bool(0.5):
                self.buffer_ += s[:src.draw(len(s) + 1)]
                self.sim.fault('short_write')
            else:
                self.sim.fault('write_error')
            self._fail(*self._error())
        if self.capacity is not None and \
                len(self.durable) + len(self.buffer_) + len(s) > self.capacity:
            self.sim.fault('disk_full')
            self._fail(errno.ENOSPC, 'No space left on device')
        self.buffer_ += s
        return len(s)

    def flush(self):
        if self.closed:
            return
        self._call('flush')
        src = self.sim.src
        self.flushes += 1
        if self.faults.get('flush') and src.bool(self.faults['flush']):
            self.sim.fault('flush_error')
            n = src.draw(len(self.buffer_) + 1)
            self.durable += self.buffer_[:n]
            self.buffer_ = self.buffer_[n:]
            self._fail(*self._error())
        self.durable += self.buffer_
        self.buffer_ = ''
        if self.tick:
            self.tick()

    def everything(self):
        return self.durable + self.buffer_


class _Handle(SimFile):
    """A file of the simulated disk, opened for writing."""

    def __init__(self, disk, path, keep=''):
        super().__init__(disk.sim, disk.faults)
        self.disk, self.path = disk, path
        self.raised = disk.raised
        self.durable = keep
        disk.files[path] = keep

    def flush(self):
        if not self.closed:
            try:
                super().flush()
            finally:
                self.disk.files[self.path] = self.durable

    def close(self):
        if not self.closed:
            try:
                self.flush()
            finally:
                super().close()


class Disk:
    """A simulated disk, mounted at PREFIX while active: `open` of a path below
    it yields simulated files.  Everything else is left alone."""
    PREFIX = '/simulated-disk/'

    def __init__(self, sim, faults=None):
        self.sim, self.faults = sim, faults or {}
        self.files = {}
        self.raised = []

    def open(self, path, mode='r', *a, **kw):
        import os
        if isinstance(path, int) or not str(os.fspath(path)).startswith(self.PREFIX):
            return self.real(path, mode, *a, **kw)
        path = str(os.fspath(path))
        if self.faults.get('open') and self.sim.src.bool(self.faults['open']):
            self.sim.fault('open_error')
            e = OSError(errno.EACCES, 'Permission denied')
            self.raised.append(e)
            raise e
        if 'r' in mode:
            if path not in self.files:
                raise FileNotFoundError(errno.ENOENT, 'No such file', path)
            return io.StringIO(self.files[path])
        return _Handle(self, path, self.files.get(path, '') if 'a' in mode else '')

    def __enter__(self):
        import builtins
        self.real = builtins.open
        self.real_io = io.open
        builtins.open = io.open = self.open
        import os
        self.real_stat = os.path.exists, os.path.isfile, os.path.getsize
        os.path.exists = lambda p: self.name(p) in self.files or self.real_stat[0](p)
        os.path.isfile = lambda p: self.name(p) in self.files or self.real_stat[1](p)
        os.path.getsize = lambda p: len(self.files[self.name(p)]) if self.name(p) in self.files \
            else self.real_stat[2](p)
        return self

    def name(self, path):
        """The name of a file on this disk."""
        return path

    def __exit__(self, *exc):
        import builtins
        import os
        builtins.open, io.open = self.real, self.real_io
        os.path.exists, os.path.isfile, os.path.getsize = self.real_stat
