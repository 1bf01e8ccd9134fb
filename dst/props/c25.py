"""C25: a controller answers from its own genome, the question and the keys pressed so far."""
import copy
import io
import math

import cloudpickle
import numpy as np

from ..rng import Extreme
from .c21 import cgp_bounds

from leap_ec.executable_rep import neural_network as nn
from leap_ec.executable_rep.cgp import (CGPDecoder, CGPWithParametersDecoder, FunctionPrimitive, NAND,
                                        NotX)
from leap_ec.executable_rep.executable import (ArgmaxExecutable, KeyboardExecutable,
                                               RandomExecutable, WrapperDecoder)
from leap_ec.executable_rep.problems import ImageXYProblem, TruthTableProblem
from leap_ec.executable_rep.rules import PittRulesDecoder, PittRulesExecutable
from leap_ec.individual import Individual

RUNS = dict(quick=8000, thorough=120000)
RULE = ('one interleaved history of decodings, questions, key strokes, transports and evaluations '
        'over several controllers that share decoders and primitives, with failing primitives; '
        'non-trivial: at least one fault or three questions, distinct by the hash of its event sequence')
REAL = ['leap_ec.executable_rep, leap_ec.individual', 'numpy, networkx, Pillow, cloudpickle',
        'random and numpy.random away from the extremes']
STUB = ['the spaces, the keyboard and its handler thread, time.sleep (virtual clock)',
        'the primitives of the circuits (simulated, with fault points)',
        'random and numpy.random at drawn calls (the edges of the support asked for)']
ASSUMPTIONS = ['circuits satisfy the constraints of their decoder',
               'a primitive answers the same question the same way unless it fails']
MUST_REACH = ['cgp', 'parameters', 'network', 'rules', 'argmax', 'keyboard', 'random', 'primitive_error',
              'asked_after_error', 'key_while_asked', 'wildcard', 'partial_match', 'exact_conflict',
              'shipped', 'truth_table', 'padded', 'image', 'torn_image', 'refused_genome', 'shared_decoder',
              'same_question',
              'saturated', 'zero_layer', 'key_nine']


class PrimFault(Exception):
    pass


class Arm:
    """How many primitive applications until one fails (None: none does)."""
    left = None
    sim = None
    raised = None


def point():
    if Arm.left is None:
        return
    if Arm.left == 0:
        Arm.left = None
        Arm.sim.fault('primitive_error')
        Arm.sim.reach('primitive_error')
        Arm.raised = PrimFault('simulated')
        raise Arm.raised
    Arm.left -= 1


M = 1000003


def p_sub(x, y, *p):
    point()
    return (x - 2 * y + sum(p)) % M


def p_mul(x, y, *p):
    point()
    return (x * (y + 1) + 3 * sum(p)) % M


def p_any(*a):
    point()
    return sum((k + 1) * v for k, v in enumerate(a)) % M


def p_neg(x, *p):
    point()
    return (7 - x + sum(p)) % M


def p_const(*p):
    point()
    return 5 + sum(p)


def p_nand(x, y):
    point()
    return not (x and y)


def p_not(x):
    point()
    return not x


class ByHand:
    """A reference primitive: what it computes and how many of its ports it uses."""

    def __init__(self, real, ref, arity):
        self.real, self.ref, self.arity = real, ref, arity


def r_any(*a):
    return sum((k + 1) * v for k, v in enumerate(a)) % M


PRIMS = [ByHand(p_any, r_any, None),
         ByHand(FunctionPrimitive(p_sub, 2), lambda x, y, *p: (x - 2 * y + sum(p)) % M, 2),
         ByHand(FunctionPrimitive(p_mul, 2), lambda x, y, *p: (x * (y + 1) + 3 * sum(p)) % M, 2),
         ByHand(FunctionPrimitive(p_neg, 1), lambda x, *p: (7 - x + sum(p)) % M, 1),
         ByHand(FunctionPrimitive(p_const, 0), lambda *p: 5 + sum(p), 0)]
LOGIC = [ByHand(NAND(), lambda x, y: not (x and y), 2), ByHand(NotX(), lambda x: not x, 1),
         ByHand(FunctionPrimitive(p_nand, 2), lambda x, y: not (x and y), 2),
         ByHand(FunctionPrimitive(p_not, 1), lambda x: not x, 1)]
ARRAYS = PRIMS[:4]


# -- spaces -------------------------------------------------------------
class Box:
    def __init__(self, src, n):
        self.src = src
        self.shape = src.pick([(n,), (1, n)])
        self.low = np.zeros(self.shape)
        self.high = np.ones(self.shape)

    def sample(self):
        return np.array([self.src.draw(11) / 10 for _ in range(int(np.prod(self.shape)))]).reshape(self.shape)


class Discrete:
    shape = ()

    def __init__(self, src, n):
        self.src, self.n, self.sampled = src, n, []

    def sample(self):
        self.sampled.append(self.src.draw(self.n))
        return self.sampled[-1]


class MultiBinary:
    def __init__(self, n):
        self.shape = (n,)


# -- controllers and their references ------------------------------------
class CGP:
    kind = 'cgp'

    def __init__(self, sim, src, pool=None, ni=None, no=None, params=None):
        self.sim, self.src = sim, src
        logic = pool is LOGIC or (pool is None and src.bool(0.3))
        self.params = 0 if logic else src.pick([0, 0, 1, 2]) if params is None else params
        pool = pool or (LOGIC if logic else PRIMS)
        self.logic = logic
        self.prims = [src.pick(pool) for _ in range(src.int(1, 4))]
        self.ni, self.no = ni or src.int(1, 3), no or src.int(1, 3)
        self.layers, self.nodes = src.int(1, 4), src.int(1, 3)
        self.arity = src.int(2, 3)
        lb = src.pick([None, 1, 2])
        prune = src.bool(0.6)
        args = ([p.real for p in self.prims], self.ni, self.no, self.layers, self.nodes, self.arity)
        if self.params:
            sim.reach('parameters')
            self.dec = CGPWithParametersDecoder(*args, num_parameters_per_node=self.params, prune=prune,
                                                levels_back=lb)
        else:
            self.dec = CGPDecoder(*args, prune=prune, levels_back=lb)
        sim.reach('cgp')

    def genome(self):
        src = self.src
        g = []
        for lo, hi in cgp_bounds(self.dec, len(self.prims)):
            g.append(src.int(int(lo), int(hi)))
        g = np.array(g) if src.bool(0.5) else g
        if self.params:
            p = [src.draw(9) for _ in range(self.params * self.layers * self.nodes)]
            return [g, p]
        return g

    def question(self):
        if self.logic:
            return [self.src.draw(2) for _ in range(self.ni)]
        return [self.src.draw(20) for _ in range(self.ni)]

    def reference(self, genome, x):
        g, par = genome if self.params else (genome, None)
        vals = list(x)
        w = self.arity + 1
        for n in range(self.layers * self.nodes):
            p = self.prims[int(g[n * w])]
            a = [vals[int(s)] for s in g[n * w + 1:n * w + w]]
            if p.arity is not None:
                a = a[:p.arity]
            if par is not None:
                a += list(par[n * self.params:(n + 1) * self.params])
            vals.append(p.ref(*a))
        return [vals[int(s)] for s in g[self.layers * self.nodes * w:]]

    def same(self, got, want):
        return len(got) == len(want) and all(a == b for a, b in zip(got, want))


class Net:
    kind = 'network'

    def __init__(self, sim, src):
        self.sim, self.src = sim, src
        self.shape = [src.int(1, 3)] + [src.int(1, 3) for _ in range(src.int(0, 2))] + [src.int(1, 3)]
        given = list(self.shape)
        if src.bool(0.2):
            given.insert(src.int(1, len(given) - 1), 0)
            sim.reach('zero_layer')
        self.act = src.pick(['sigmoid', 'relu', 'softmax', 'tanh'])
        kw = dict(activation=dict(sigmoid=nn.sigmoid, relu=nn.relu, softmax=nn.softmax,
                                  tanh=np.tanh)[self.act])
        if self.act == 'sigmoid' and src.bool(0.5):
            kw = {}
        self.dec = nn.SimpleNeuralNetworkDecoder(src.pick([given, tuple(given)]), **kw)
        self.ni, self.no = self.shape[0], self.shape[-1]
        sim.reach('network')

    def genome(self):
        n = sum((a + 1) * b for a, b in zip(self.shape, self.shape[1:]))
        s = self.src.pick([1.0, 1.0, 300.0])
        if s > 1:
            self.sim.reach('saturated')
        g = [(self.src.draw(41) - 20) / 10 * s for _ in range(n)]
        return np.array(g) if self.src.bool(0.7) else g

    def question(self):
        return [(self.src.draw(41) - 20) / 4 for _ in range(self.ni)]

    def reference(self, genome, x):
        sig, at = [float(v) for v in x], 0
        for a, b in zip(self.shape, self.shape[1:]):
            sig.append(1.0)
            out = [sum(sig[r] * float(genome[at + r * b + c]) for r in range(a + 1)) for c in range(b)]
            at += (a + 1) * b
            if self.act == 'relu':
                sig = [max(0.0, v) for v in out]
            elif self.act == 'tanh':
                sig = [math.tanh(v) for v in out]
            elif self.act == 'sigmoid':
                sig = [1 / (1 + math.exp(-v)) if v > -700 else 0.0 for v in out]
            else:
                e = [math.exp(v - max(out)) for v in out]
                sig = [v / sum(e) for v in e]
        return sig

    def same(self, got, want):
        return len(got) == len(want) and all(abs(a - b) <= 1e-7 * max(1.0, abs(b)) for a, b in zip(got, want))


class Rules:
    kind = 'rules'

    def __init__(self, sim, src):
        self.sim, self.src = sim, src
        self.ni = src.int(1, 3)
        self.box = Box(src, self.ni)
        self.no = src.pick([1, 1, 2])
        self.out = Discrete(src, src.int(2, 5)) if self.no == 1 else MultiBinary(2)
        kw = {}
        if src.bool(0.3):
            kw['priority_metric'] = PittRulesExecutable.PriorityMetric.RULE_ORDER
        self.dec = PittRulesDecoder(input_space=self.box, output_space=self.out, **kw)
        sim.reach('rules')

    def genome(self):
        src = self.src
        rules = []
        for _ in range(src.size(1, 5, 12)):
            r = []
            for _ in range(self.ni):
                a, b = src.draw(9) / 8, src.draw(9) / 8
                if a > b and src.bool(0.5):
                    a, b = b, a
                if a > b:
                    self.sim.reach('wildcard')
                r += [a, b]
            r += [src.draw(getattr(self.out, 'n', 2)) for _ in range(self.no)]
            if src.bool(0.2):
                r[-1] += src.pick([0.25, -0.25])
            rules.append(np.array(r))
        return rules if src.bool(0.6) else np.array(rules)

    def question(self):
        x = [self.src.draw(9) / 8 if self.src.bool(0.7) else self.src.draw(21) / 8 - 0.75 for _ in range(self.ni)]
        return x if len(self.box.shape) == 1 else np.array(x).reshape(self.box.shape)

    def reference(self, genome, x):
        """The permitted answers."""
        x = np.asarray(x).reshape(-1)
        scores = []
        for r in genome:
            s = 0.0
            for c in range(self.ni):
                lo, hi = r[2 * c], r[2 * c + 1]
                if lo <= hi and not lo <= x[c] <= hi:
                    s += min(abs(lo - x[c]), abs(hi - x[c])) ** 2
            scores.append(s)
        exact = [k for k, s in enumerate(scores) if s == 0]
        if exact:
            if len(exact) > 1:
                self.sim.reach('exact_conflict')
            ok = exact[:1]
        else:
            self.sim.reach('partial_match')
            ok = [k for k, s in enumerate(scores) if s <= min(scores) + 1e-9]
        acts = [[int(round(float(v))) for v in genome[k][2 * self.ni:]] for k in ok]
        return acts if self.no > 1 else [a[0] for a in acts]

    def same(self, got, want):
        return got in want


class Arg:
    """Any of the others, behind the index of its highest output."""
    kind = 'argmax'

    def __init__(self, sim, src, inner):
        self.sim, self.src, self.inner = sim, src, inner
        self.dec = WrapperDecoder(inner.dec, ArgmaxExecutable)
        self.genome, self.question, self.ni, self.no = inner.genome, inner.question, inner.ni, inner.no
        sim.reach('argmax')

    def reference(self, genome, x):
        v = [float(a) for a in self.inner.reference(genome, x)]
        if self.inner.kind == 'cgp':
            return [v.index(max(v))]
        return [k for k, a in enumerate(v) if a >= max(v) - 1e-7 * max(1.0, abs(max(v)))]

    def same(self, got, want):
        return np.ndim(got) == 0 and int(got) in want


class Keys:
    """A person at the keyboard."""

    def __init__(self, sim, src):
        self.sim, self.src, self.action = sim, src, 0
        self.out = Discrete(src, 10)
        kw = {}
        self.map = self.default
        if src.bool(0.4):
            table = {k: src.draw(4) for k in range(50, 60)}
            self.map = lambda k: table.get(k, 0)
            kw['keymap'] = self.map
        self.real = KeyboardExecutable(None, self.out, **kw)
        sim.reach('keyboard')

    @staticmethod
    def default(k):
        return k - 48 if 48 <= k <= 57 else 0

    def stroke(self):
        k = self.src.pick([49, 50, 51, 48, 57, 58, 47, 97])
        press = self.src.bool(0.6)
        self.sim.event(f'key {k} {"down" if press else "up"}')
        if press:
            self.real.key_press(k, 0)
            self.action = self.map(k)
            if k == 57:
                self.sim.reach('key_nine')
        else:
            self.real.key_release(k, 0)
            if self.map(k) == self.action:
                self.action = 0

    def ask(self):
        sim = self.sim
        n = sim.n_sched
        for _ in range(self.src.draw(3)):
            sim.after(self.src.draw(8) / 100, self.stroke)      # 0 .. 0.07 s, the answer takes 0.05 s
        got = self.real(None)
        if sim.n_sched > n:
            sim.reach('key_while_asked')
        sim.check(got == self.action, 'wrong-answer',
                  f'keyboard answers {got}, the keys pressed so far mean {self.action}')


# -- one history ----------------------------------------------------------
def run(sim, src):
    Arm.sim, Arm.left, Arm.raised = sim, None, None
    with Extreme(sim, src.pick([0.0, 0.2, 0.6])):
        mode = src.weighted([(8, 'history'), (2, 'table'), (1, 'image'), (1, 'constraints'), (1, 'refused')])
        sim.event(mode)
        globals()[mode](sim, src)
    while sim.step():
        pass


def draw_kind(sim, src):
    k = src.pick(['cgp', 'network', 'rules', 'argmax'])
    if k == 'cgp':
        return CGP(sim, src)
    if k == 'network':
        return Net(sim, src)
    if k == 'rules':
        return Rules(sim, src)
    return Arg(sim, src, CGP(sim, src) if src.bool(0.5) else Net(sim, src))


def show(v):
    return np.asarray(v).tolist() if not isinstance(v, (int, float, bool)) else v


def history(sim, src):
    kinds = [draw_kind(sim, src) for _ in range(src.int(1, 3))]
    live = []                     # [kind, genome, executable, failed before]
    keys = [Keys(sim, src) for _ in range(src.draw(3))]
    rand = None
    if src.bool(0.2):
        sim.reach('random')
        rand = RandomExecutable(None, Discrete(src, 50))
    said = []                     # (answer given, what it was)
    asked = 0
    faulty = src.bool(0.5)

    def decode():
        k = src.pick(kinds)
        if any(x[0] is k for x in live):
            sim.reach('shared_decoder')
        g = k.genome()
        keep = copy.deepcopy(g)
        how = src.draw(3)
        if how == 0:
            ex = k.dec.decode(g)
        elif how == 1:
            ex = Individual(g, decoder=k.dec).decode()
        else:
            ex = cloudpickle.loads(cloudpickle.dumps(k.dec)).decode(g)
            sim.reach('shipped')
        sim.event(f'decode {k.kind} {[show(s) for s in g]}')
        sim.check(repr(g) == repr(keep), 'genome-changed', f'{k.kind}: decoding changed the genome')
        n_in, n_out = getattr(ex, 'num_inputs', k.ni), getattr(ex, 'num_outputs', k.no)
        sim.check((n_in, n_out) == (k.ni, k.no), 'dimensions', f'{k.kind}: {n_in} inputs, {n_out} outputs')
        live.append([k, keep, ex, False, None])

    def ask(x):
        nonlocal asked
        k, g, ex, failed = x[:4]
        last = x[4]
        if last is not None and src.bool(0.5 if failed else 0.1):
            q = copy.deepcopy(last)
            sim.reach('same_question')
        else:
            q = k.question()
            if src.bool(0.3) and isinstance(q, list):
                q = src.pick([tuple, np.array])(q)
        x[4] = copy.deepcopy(q)
        keep = copy.deepcopy(q)
        Arm.raised = None
        Arm.left = src.draw(6) if faulty and src.bool(0.2) else None
        sim.event(f'ask {[y is x for y in live].index(True)} {show(q)} {Arm.left}')
        try:
            got = ex(q)
        except PrimFault as e:
            Arm.left = None
            sim.check(e is Arm.raised, 'another-error', repr(e))
            x[3] = True
            return
        Arm.left = None
        sim.check(Arm.raised is None, 'error-hidden', f'{k.kind} answers {got} although a primitive failed')
        x[3] = False
        if failed:
            sim.reach('asked_after_error')
        want = k.reference(g, np.asarray(keep).tolist() if k.kind != 'rules' else keep)
        sim.check(k.same(got, want), 'wrong-answer',
                  f'{k.kind} {[show(s) for s in g]} answers {got} to {show(keep)}, should be {want}')
        sim.check(type(q) is type(keep) and show(q) == show(keep), 'question-changed', f'{k.kind}: {keep} became {q}')
        said.append((got, copy.deepcopy(got), k.kind))
        asked += 1
    for _ in range(src.size(2, 14, 60)):
        what = src.weighted([(4, 'ask'), (2, 'decode'), (2 if keys else 0, 'keys'), (1 if rand else 0, 'rand'),
                             (1, 'ship'), (1, 'drop')])
        if what == 'decode' or (not live and what in ('ask', 'ship', 'drop')):
            decode()
        elif what == 'ask':
            ask(src.pick(live))
        elif what == 'keys':
            k = src.pick(keys)
            if src.bool(0.6):
                k.stroke()
            else:
                k.ask()
        elif what == 'rand':
            n = len(rand.output_space.sampled)
            got = rand(None)
            sim.check(len(rand.output_space.sampled) == n + 1 and got == rand.output_space.sampled[-1],
                      'wrong-answer', f'random: {got}, drawn {rand.output_space.sampled[n:]}')
        elif what == 'ship':
            x = src.pick(live)
            if x[0].kind == 'rules' or (x[0].kind == 'argmax' and x[0].inner.kind == 'rules'):
                ex = copy.copy(x[2])
            else:
                ex = copy.deepcopy(x[2]) if src.bool(0.5) else cloudpickle.loads(cloudpickle.dumps(x[2]))
            live.append([x[0], x[1], ex, x[3], x[4]])
            sim.reach('shipped')
            sim.event('ship')
        elif len(live) > 1:
            del live[src.draw(len(live))]
    for got, was, kind in said:
        sim.check(show(got) == show(was), 'answer-changed', f'{kind}: an answer {was} became {got} afterwards')
    if asked > 2:
        sim.nontrivial = True
    sim.sample = dict(kinds=[k.kind for k in kinds], asked=asked, keyboards=len(keys), faults=dict(sim.faults))


def table(sim, src):
    """Circuits scored on every row of a truth table, several problems interleaved."""
    sim.reach('truth_table')
    k = CGP(sim, src, pool=LOGIC)
    # the goal looks at `rows` inputs; with fewer than the circuit has, the rest is padded with zeros
    rows = src.int(1, k.ni)
    pad = rows < k.ni
    if pad:
        sim.reach('padded')
    goals = [k.genome() for _ in range(src.int(1, 2))]
    problems = []
    for g in goals:
        def goal(x, g=g):
            return k.reference(g, list(x)[:rows] + [0] * (k.ni - rows))
        problems.append((g, TruthTableProblem(goal, rows, k.no, pad_inputs=pad or src.bool(0.3))))
    pop = goals + [k.genome() for _ in range(src.int(0, 3))]
    for _ in range(src.int(1, 6)):
        g, p = src.pick(problems)
        mine = src.pick(pop)
        Arm.raised = None
        Arm.left = src.draw(20) if src.bool(0.2) else None
        sim.event(f'score {show(mine)} against {show(g)} {Arm.left}')
        try:
            ind = Individual(copy.deepcopy(mine), decoder=k.dec, problem=p)
            ind.evaluate()
        except PrimFault as e:
            Arm.left = None
            sim.check(e is Arm.raised, 'another-error', repr(e))
            continue
        Arm.left = None
        sim.check(Arm.raised is None, 'error-hidden', 'a primitive failed and the table was scored')
        hits = 0
        for r in range(2 ** rows):
            x = [(r >> b) & 1 for b in range(rows)] + [0] * (k.ni - rows)
            hits += k.reference(g, x) == k.reference(mine, x)
        sim.check(abs(float(ind.fitness) - hits / 2 ** rows) < 1e-12, 'wrong-fitness',
                  f'{ind.fitness}, {hits} of {2 ** rows} rows agree')
    sim.nontrivial = True
    sim.sample = dict(mode='table', rows=rows, inputs=k.ni, outputs=k.no)


def image(sim, src):
    """Pictures drawn by circuits against a picture read from a file that may be torn."""
    from PIL import Image
    sim.reach('image')
    sim.nontrivial = True
    w, h = src.int(1, 5), src.int(1, 4)
    px = [(src.draw(256), src.draw(256), src.draw(256)) for _ in range(w * h)]
    im = Image.new('RGB', (w, h))
    im.putdata(px)
    buf = io.BytesIO()
    im.save(buf, format=src.pick(['PNG', 'BMP']))
    data = buf.getvalue()
    if src.bool(0.25):
        sim.fault('torn_file')
        sim.reach('torn_image')
        try:
            ImageXYProblem(io.BytesIO(data[:src.int(0, 40)]))
        except Exception as e:
            sim.event(f'refused {type(e).__name__}')
            return
        sim.fail('torn-image-accepted', f'{len(data)} bytes cut')
    p = ImageXYProblem(io.BytesIO(data))
    k = CGP(sim, src, pool=ARRAYS, ni=2, no=3, params=0)
    for _ in range(src.int(1, 3)):
        g = k.genome()
        sim.event(f'draw {show(g)}')
        ind = Individual(copy.deepcopy(g), decoder=k.dec, problem=p)
        ind.evaluate()
        s = 0
        for n, (r, gg, b) in enumerate(px):
            out = k.reference(g, [n % w, n // w])
            s += sum((int(a) - c) ** 2 for a, c in zip(out, (r, gg, b)))
        sim.check(abs(float(ind.fitness) - math.sqrt(s)) <= 1e-6 * max(1.0, math.sqrt(s)), 'wrong-fitness',
                  f'{ind.fitness} instead of {math.sqrt(s)}')
    sim.sample = dict(mode='image', size=(w, h))


def constraints(sim, src):
    """Circuits pass the gate in order; one that breaks a constraint is refused there."""
    sim.nontrivial = True
    k = CGP(sim, src, params=0)
    bounds = cgp_bounds(k.dec, len(k.prims))
    pop, bad = [], None
    for n in range(src.int(1, 5)):
        g = list(k.genome())
        if bad is None and src.bool(0.3):
            how = src.draw(4)
            j = src.draw(len(g))
            if how == 0:
                g[j] = int(bounds[j][1]) + 1 + src.draw(2)
            elif how == 1:
                g[j] = int(bounds[j][0]) - 1 - src.draw(2)
            elif how == 2:
                g = g + [0] if src.bool(0.5) else g[:-1]
            else:
                g = np.array(g, dtype=float)
            bad = n
            sim.reach('refused_genome')
        pop.append(Individual(np.array(g), decoder=k.dec))
    it = k.dec.check_constraints(iter(pop))
    sim.event(f'gate {[i.genome.tolist() for i in pop]}')
    for n, ind in enumerate(pop):
        try:
            got = next(it)
        except ValueError as e:
            sim.check(n == bad, 'refused', f'{ind.genome} {e}')
            return
        sim.check(n != bad, 'accepted', f'{ind.genome} breaks the constraints {bounds}')
        sim.check(got is ind, 'another-individual', '')
    sim.sample = dict(mode='constraints', bad=bad)


def refused(sim, src):
    """What cannot be decoded or controlled is refused, and decoding goes on afterwards."""
    sim.nontrivial = True
    sim.reach('refused_genome')
    n = Net(sim, src)
    g = list(n.genome())
    for bad in (g + [0.5], g[:-1]):
        try:
            n.dec.decode(bad)
        except ValueError:
            continue
        sim.fail('accepted', f'{len(bad)} weights for {len(g)}')
    q = n.question()
    got, want = n.dec.decode(g)(q), n.reference(g, q)
    sim.check(n.same(got, want), 'wrong-answer', f'{got} instead of {want}')
    try:
        KeyboardExecutable(None, MultiBinary(2))
    except ValueError:
        pass
    else:
        sim.fail('accepted', 'one key for two outputs')
    r = Rules(sim, src)
    for m in (PittRulesExecutable.PriorityMetric.GENERALITY, PittRulesExecutable.PriorityMetric.PERIMETER):
        try:
            PittRulesDecoder(input_space=r.box, output_space=r.out, priority_metric=m).decode(r.genome())
        except ValueError:
            continue
        sim.fail('accepted', f'{m} is not implemented')
    sim.sample = dict(mode='refused')
