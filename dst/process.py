"""A simulated external evaluation program (stands in for subprocess.Popen)."""
import io
import math

from . import world as W

FAULTS = ['launch', 'exit_code', 'exit_code_partial', 'signal', 'torn', 'missing', 'extra',
          'garbage', 'blank', 'blanked', 'empty']


def _number(t):
    try:
        return float(t)
    except ValueError:
        return None


class Program:
    """Behaviour of the program, and the record of what it was told."""

    def __init__(self, sim, fault_p=0.0, max_faults=0, kinds=FAULTS, noise=False, unit=1.0,
                 nans=False):
        self.sim, self.fault_p, self.left, self.kinds = sim, fault_p, max_faults, kinds
        self.noise = noise           # 'rows': repeated rows of one launch differ; 'runs': all do
        self.unit = unit
        self.nans = nans             # 'nan' is what the program prints for some rows
        self.seen = {}
        self.printed = []
        self.neutral = 0
        self.launched = []           # (argv, rows, fault)
        sim.popen = self.popen

    def pure(self, row):
        v = W.weigh(row)
        if self.nans and not self.noise and int(abs(v)) % 4 == 1:
            return math.nan
        return v * self.unit

    def value(self, row, count):
        v = self.pure(row)
        if self.noise:
            k = count.get(tuple(row), 0)
            count[tuple(row)] = k + 1
            v += 0.001 * k * k * self.unit
            if self.nans and (int(abs(W.weigh(row))) + k) % 4 == 1:
                return math.nan       # this time
        return v

    def popen(self, args, *a, **kw):
        sim = self.sim
        fault = None
        if self.left > 0 and sim.src.bool(self.fault_p):
            fault = sim.src.pick(self.kinds)
            self.left -= 1
            sim.fault(f'process_{fault}')
        if fault == 'launch':
            self.launched.append((args, None, fault))
            raise sim.src.pick([FileNotFoundError(2, 'No such file'), OSError(12, 'Cannot allocate memory'),
                                BlockingIOError(11, 'Resource temporarily unavailable'),
                                PermissionError(13, 'Permission denied')])
        return Process(self, args, fault, kw)

    def output(self, rows, fault):
        src = self.sim.src
        lines, count = [], self.seen if self.noise == 'runs' else {}
        for r in rows:
            v = self.value(r, count)
            self.printed.append(v)
            lines.append(repr(v) if src.bool(0.7) else f' {v!r} ')
        rc = 0
        if fault == 'missing':
            del lines[src.draw(len(lines))]
        elif fault == 'extra':
            lines.insert(src.draw(len(lines) + 1), '5.0')
        elif fault == 'garbage':
            lines[src.draw(len(lines))] = src.pick(
                ['oops', 'Traceback:', '1.0,2.0', 'None', '--', '1.0 oops', '1.0 2.0', 'x1.0', '1.0e', '(1.0)', '2,5'])
        elif fault == 'blank':
            self.neutral += 1
            lines.insert(src.draw(len(lines)), '')
        elif fault == 'blanked':
            lines[src.draw(len(lines))] = src.pick(['', ' '])
        text = ''.join(x + '\n' for x in lines)
        if fault == 'torn':
            text = text[:len(text) - 1 - src.draw(len(text))]
            if len(text) and text.count('\n') == len(rows) - 1 and W.same_number(_number(text.rpartition('\n')[2]), v):
                self.neutral += 1         # only white space was lost
        elif fault == 'empty':
            text = ''
        elif fault in ('exit_code', 'exit_code_partial', 'signal'):
            rc = src.pick([-9, -1, -2, -6, -11, -13, -15]) if fault == 'signal' else \
                src.pick([1, 2, 3, 100, 127, 137, 143, 255])
            if fault != 'exit_code':
                text = text[:src.draw(len(text) + 1)]
        return text, rc


class Process:
    def __init__(self, program, args, fault, kw):
        self.program, self.args, self.fault = program, args, fault
        self.text = bool(kw.get('text') or kw.get('universal_newlines') or kw.get('encoding')
                         or kw.get('errors'))
        self.returncode = None
        self.pid = 7777
        self.stdin = io.StringIO() if self.text else io.BytesIO()
        self.stdout = self.stderr = None

    def communicate(self, input=None, timeout=None):
        if input is None:
            input = self.stdin.getvalue()
        s = input if isinstance(input, str) else input.decode()
        rows = [[float({'True': 1, 'False': 0}.get(x, x)) for x in line.split(',')]
                for line in s.splitlines() if line]
        self.program.launched.append((self.args, rows, self.fault))
        self.program.sim.event(f'process {len(rows)} {self.fault}')
        out, self.returncode = self.program.output(rows, self.fault)
        err = '' if self.returncode == 0 else 'simulated failure\n'
        if not self.text:
            out, err = out.encode(), err.encode()
        return out, err

    def wait(self, timeout=None):
        return self.returncode

    def poll(self):
        return self.returncode

    def kill(self):
        pass

    terminate = kill

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False
