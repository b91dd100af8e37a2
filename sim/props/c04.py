"""C04: symbolic counts denote integers: every operation that answers, answers
what the integers do, whatever was built, interrupted or interleaved before."""
import random

import baton
import env
import numsem
from core import Violation

ID = 'C04'
BUILDS = ('ref', 'ext')
RUST_IS_HOST = True
RUNS = {'quick': 16000, 'thorough': 1_500_000}
CPU_LIMIT = 30
RULE = ('one run = 1-4 callers over one shared expression store, each with 8-40 operations (sum, difference, product, '
        'exact quotient, power, remainder, order) over one base; operations of the callers are interleaved by the '
        'seeded scheduler, some are interrupted at a chosen source line and retried, some callers repeat the operations '
        'of another; non-trivial = at least five symbolic results judged')
REAL = ['tm/num.py (whole module, one store per process)']
STUB = ['callers (their operations are interleaved one at a time)', 'asynchronous interrupt (raised at a traced line)']
MEASURE = 'distinct (operation, left kind, right kind, result kind) and refusal sites'
ASSUME = ['operations may refuse (NotImplementedError, assertion, modulus or depth limit)',
          'order is judged for counts built from positive parts, against each other and against integers',
          'towers are judged modulo three primes']

PRIMES = (1_000_003, 998_244_353, 2_147_483_647)
N = None
REFUSE = ()


def setup(conf):
    global N, REFUSE
    env.setup(conf['so'])
    import tm.num
    N = tm.num
    numsem.setup(N)
    REFUSE = (NotImplementedError, AssertionError, N.ExpModLimit, N.ModDepthLimit, OverflowError, RecursionError)


BASES = [2, 2, 2, 2, 3, 3, 3, 4, 5, 6, 7, 8, 9, 10]
MODS = [2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 15, 16, 18, 20, 21, 24, 30, 32, 36, 48, 54, 64, 162, 486]


def gen_ops(rng, b, n):
    ops = []
    for _ in range(n):
        k = rng.random()
        i, j = rng.randrange(1 << 16), rng.randrange(1 << 16)
        c = rng.choice([1, 2, 3, -1, -2, 5, -7, b, b * b, -b, rng.randint(-1000, 1000), rng.randint(1, 9)])
        if k < .2:
            ops.append(['add', i, j])
        elif k < .28:
            ops.append(['sub', i, j])
        elif k < .4:
            ops.append(['addi', i, c, rng.random() < .5])
        elif k < .5:
            ops.append(['muli', i, c, rng.random() < .5])
        elif k < .6:
            ops.append(['mul', i, j])
        elif k < .72:
            ops.append(['div', i, rng.choice([2, 3, 4, 5, 6, 7, 8, 9, 10, 12, b, b * b, b ** 3])])
        elif k < .77:
            ops.append(['pow', i, rng.random() < .5])
        elif k < .80:
            ops.append(['table', i, rng.randint(1, 22), j])
        elif k < .9:
            ops.append(['mod', i, rng.choice(MODS)])
        else:
            ops.append(['cmp', i, j if rng.random() < .7 else -1, c])
    return ops


def gen(rng, tier):
    if rng.random() < .06:
        # a sweep over the residues of one modulus 2 * 3**n
        n = rng.choice([3, 4, 5, 5, 6, 6, 6, 6, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21])
        at = rng.randrange(1 << 16)
        return {'callers': [{'base': rng.choice([2, 2, 4, 8]), 'start': [rng.randint(60, 400)],
                             'ops': [['table', 0, n, at + i, n <= 6] for i in range(80)]}],
                'irq': [], 'seed': rng.randrange(1 << 30)}
    b = rng.choice(BASES)
    callers = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        callers.append({'base': b if rng.random() < .8 else rng.choice(BASES),
                        'start': [rng.randint(60, 400) for _ in range(2)],
                        'ops': gen_ops(rng, b, rng.choice([8, 16, 40]))})
    if rng.random() < .6:
        callers.append(dict(rng.choice(callers)))
    irq = []
    if rng.random() < .5:
        for _ in range(rng.choice([1, 3, 8])):
            irq.append([rng.randrange(len(callers)), rng.randrange(40), 1 + int(2 ** (rng.random() * 7))])
    return {'callers': callers, 'irq': irq, 'seed': rng.randrange(1 << 30)}


# ------------------------------------------------------------ own semantics

class Sem:
    """exact value when flat, else an own expression tree"""
    __slots__ = ('val', 'op', 'memo', 'nat', 'lin')

    def __init__(self, val=None, op=None):
        self.val, self.op, self.memo = val, op, {}
        self.lin = True     # a sum of integer multiples of powers
        self.nat = True     # built the way block lengths are: no negative parts

    def mod(self, m):
        if self.val is not None:
            return self.val % m
        if m == 1:
            return 0
        r = self.memo.get(m)
        if r is None:
            r = self.memo[m] = self._mod(m)
        return r

    def _mod(self, m):
        k, *a = self.op
        if k == '+':
            return (a[0].mod(m) + a[1].mod(m)) % m
        if k == '-':
            return (a[0].mod(m) - a[1].mod(m)) % m
        if k == '*':
            return a[0].mod(m) * a[1].mod(m) % m
        if k == '/':
            return a[0].mod(m * a[1]) // a[1]
        b, e = a
        if e.val is not None:
            return pow(b, e.val, m)
        phi = numsem.totient(m)
        return pow(b, e.mod(phi) + phi * (m.bit_length() // phi + 1), m)


CAP = 60_000
_hints = None


def hints(below):
    """integers the module itself mentions: likely table entries"""
    global _hints
    if _hints is None:
        seen = set()
        todo = [f.__code__ for f in vars(N).values() if hasattr(f, '__code__')]
        while todo:
            c = todo.pop()
            for k in getattr(c, 'co_consts', c if isinstance(c, tuple) else ()):
                if isinstance(k, int) and not isinstance(k, bool) and k >= 0:
                    seen.add(k)
                elif isinstance(k, tuple) or hasattr(k, 'co_consts'):
                    todo.append(k)
        _hints = sorted(seen)
    return [k for k in _hints if k < below]


def lift(k, a, b):
    if a.val is not None and (b.val if isinstance(b, Sem) else b) is not None:
        x, y = a.val, b.val if isinstance(b, Sem) else b
        if k == '+':
            v = x + y
        elif k == '-':
            v = x - y
        elif k == '/':
            v = x // y
        else:
            v = x * y if x.bit_length() + y.bit_length() < CAP else None
        if v is not None and v.bit_length() < CAP:
            return Sem(v)
    return Sem(None, (k, a, b))


def num(n):
    return Sem(n)


class Caller:
    def __init__(self, spec, k, out):
        self.b = max(2, spec['base'])
        self.out = out
        self.k = k
        self.ops = spec['ops']
        self.pool = []
        self.results = []
        for e in spec['start']:
            e = max(60, e)
            self.pool.append((N.make_exp(self.b, e), Sem(self.b ** e)))
        self.at = 0

    def pick(self, i):
        return self.pool[i % len(self.pool)]

    def step(self, irq):
        """one operation; an interrupted one is tried again"""
        op = self.ops[self.at]
        self.at += 1
        if irq:
            with baton.LineFaults(('tm/num.py',), at=irq) as lf:
                try:
                    self.do(op, dry=True)
                except baton.Interrupt:
                    pass
                except REFUSE:
                    pass
            if lf.fired:
                self.out.faults['interrupt'] += 1
                self.out.mark('irq', lf.fired)
        try:
            r = self.do(op)
        except REFUSE as e:
            self.out.stats['refused:' + type(e).__name__] += 1
            r = ('refused', type(e).__name__)
        self.results.append(r)

    def do(self, op, dry=False):
        kind = op[0]
        x, sx = self.pick(op[1])
        tx = type(x).__name__
        b = self.b
        if kind == 'table':
            # a power of two whose exponent has a chosen residue, modulo 2 * 3**n
            m = 2 * 3 ** max(1, op[2])
            if b not in (2, 4, 8) or isinstance(x, int) or not (sx.nat and sx.lin) or (sx.val is None and not tower(sx)):
                return None
            hs = hints(m // 3)
            direct = op[4] if len(op) > 4 else op[3] % 4 == 0
            want = hs[op[3] % len(hs)] if hs and not direct else op[3] % (m // 3)
            k = (want - sx.mod(m // 3)) % (m // 3)
            g = (2 ** (x + k)) % m
            if not dry:
                self.out.stats['judged:table'] += 1
                self.out.mark(kind, m, want)
                w = Sem(None, ('^', 2, lift('+', sx, num(k)))).mod(m)
                if g != w:
                    raise Violation('wrong-remainder', f'(2 ** {show(x + k)}) % {m} gives {g}, the integer leaves {w}')
            return g
        if kind == 'mod':
            m = max(1, op[2])
            if isinstance(x, int):
                return None
            g = x % m
            if not dry:
                self.out.stats['judged:mod'] += 1
                self.out.mark(kind, tx, m, g)
                if g != sx.mod(m):
                    raise Violation('wrong-remainder', f'{show(x)} % {m} gives {g}, the integer leaves {sx.mod(m)}')
            return g
        if kind == 'cmp':
            y, sy = self.pick(op[2]) if op[2] >= 0 else (op[3], num(op[3]))
            return self.compare(x, sx, y, sy, dry)
        if kind == 'add':
            y, sy = self.pick(op[2])
            r, s = x + y, lift('+', sx, sy)
        elif kind == 'sub':
            y, sy = self.pick(op[2])
            r, s = x - y, lift('-', sx, sy)
        elif kind == 'addi':
            y = op[2]
            r, s = (x + y if op[3] else y + x), lift('+', sx, num(y))
        elif kind == 'muli':
            y = op[2]
            r, s = (x * y if op[3] else y * x), lift('*', sx, num(y))
        elif kind == 'mul':
            y, sy = self.pick(op[2])
            r, s = x * y, lift('*', sx, sy)
        elif kind == 'div':
            y = d = max(1, op[2])
            rem = sx.mod(d)
            if rem:
                x, sx = x + -rem, lift('+', sx, num(-rem))
            r, s = x // d, lift('/', sx, d)
        elif kind == 'pow':
            y = b
            if sx.val is not None and not 60 <= sx.val:
                return None
            if not (sx.nat and sx.lin) or (sx.val is None and not tower(sx)):
                return None     # exponents of the shape rules produce
            r = b ** x if not isinstance(x, int) else N.make_exp(b, x)
            s = Sem(b ** sx.val) if sx.val is not None and sx.val * b.bit_length() < CAP else Sem(None, ('^', b, sx))
        else:
            return None
        if dry:
            return None
        other = sy.nat if kind in ('add', 'mul') else kind != 'sub' and (kind != 'muli' or y > 0)
        s.nat = sx.nat and other
        s.lin = kind == 'pow' or (kind in ('addi', 'muli') and sx.lin) or (kind == 'add' and sx.lin and sy.lin)
        self.judge(kind, tx, type(y).__name__, r, s, x, y)
        if not isinstance(r, int) and (r.depth < 40) and len(self.pool) < 60:
            self.pool.append((r, s))
        return r

    def judge(self, kind, tx, ty, r, s, x, y):
        out = self.out
        out.mark(kind, tx, ty, type(r).__name__)
        try:
            bad = None
            if s.val is not None:
                v = r if isinstance(r, int) else numsem.small(r, 4 * CAP)
                if v is not None and v != s.val:
                    bad = 'exactly'
                out.stats['judged:exact'] += 1
            if bad is None:
                for p in PRIMES:
                    if numsem.value_mod(r, p) != s.mod(p):
                        bad = f'modulo {p}'
                        break
                out.stats['judged:residue'] += 1
        except numsem.Unknown:
            out.stats['unjudged'] += 1
            return
        if bad:
            raise Violation('wrong-' + kind, f'{show(x)} {kind} {show(y)} gives {show(r)}, which differs {bad}')

    def compare(self, x, sx, y, sy, dry):
        if not (sx.nat and sy.nat) or isinstance(x, int) or sx.val is None or sy.val is None or sx.val <= 0 or sy.val <= 0:
            return None
        if min(sx.val.bit_length(), 64) < 40 or (not isinstance(y, int) and sy.val.bit_length() < 40):
            return None
        d = sx.val - sy.val
        if x is not y and not isinstance(y, int) and d.bit_length() < sx.val.bit_length() - 16:
            return None     # finding near-equal-powers: replayed by its own plan
        lt, gt = x < y, y < x
        eq = x == y
        if dry:
            return None
        self.out.stats['judged:order'] += 1
        self.out.mark('cmp', type(x).__name__, type(y).__name__, lt)
        if lt != (d < 0):
            raise Violation('wrong-order', f'{show(x)} < {show(y)} answers {lt}')
        if gt != (d > 0):
            raise Violation('wrong-order', f'{show(y)} < {show(x)} answers {gt}')
        if eq and d:
            raise Violation('wrong-equality', f'{show(x)} == {show(y)}')
        return lt


def tower(s):
    """certainly positive and large: powers, products and sums of such"""
    if s.val is not None:
        return s.val > 0
    k, a, b = s.op
    if k == '^':
        return True
    if k in '+*':
        return tower(a) and tower(b)
    return False


def show(e):
    try:
        t = str(e)
    except Exception:
        t = f'<{type(e).__name__}>'
    return t if len(t) < 300 else t[:300] + '...'


def run(plan, out):
    if 'near' in plan:
        return run_near(plan, out)
    rng = random.Random(plan['seed'])
    callers = [Caller(c, k, out) for k, c in enumerate(plan['callers'])]
    irq = {(c, n): line for c, n, line in plan['irq']}
    live = [c for c in callers if c.ops]
    while live:
        c = live[rng.randrange(len(live))]
        c.step(irq.get((c.k, c.at)))
        out.stats['t:operations'] += 1
        out.ev(c.k, c.at, show(c.results[-1])[:80])
        if c.at >= len(c.ops):
            live.remove(c)
    # the same operations give the very same values to every caller
    for i, a in enumerate(callers):
        for b in callers[:i]:
            if plan['callers'][i] == plan['callers'][b.k]:
                out.stats['repeat-compared'] += 1
                for n, (p, q) in enumerate(zip(a.results, b.results)):
                    same = p is q or p == q
                    if not same:
                        raise Violation('not-repeatable', f'operation {n} {a.ops[n]}: {show(p)} for one caller, '
                                        f'{show(q)} for another that did the same')
    out.nontrivial = out.stats['judged:residue'] + out.stats['judged:table'] >= 5


def run_near(plan, out):
    x = N.make_exp(2, plan['near'][0])
    y = plan['near'][1] + x
    out.ev('near')
    if not x < y:
        raise Violation('near-equal-powers', f'{show(x)} < {show(y)} answers False')


def finding_key(res):
    return 'near-equal-powers' if res['violation'][0] == 'near-equal-powers' else \
        res['violation'][0] + res['violation'][1]
