"""C05: applying an inferred rule is repeating the observed change, all of it or
none of it."""
import random

import env
import numsem
from core import Violation

ID = 'C05'
BUILDS = ('ref', 'ext')
RUST_IS_HOST = True
RUNS = {'quick': 16000, 'thorough': 1_500_000}
CPU_LIMIT = 10
RULE = ('one run = rules (given, or inferred from four observations of a simulated tape) applied over a shared '
        'expression store to tapes with plain, symbolic and too-deep counts, behind a tape that may refuse a read; '
        'the history continues after every refusal; non-trivial = at least one application was made and judged')
REAL = ['tm/rules.py make_rule, apply_rule', 'tm/num.py']
STUB = ['tape (records every read and write, refuses reads on plan)']
MEASURE = 'distinct (rule shape, count kinds, outcome) tuples'
ASSUME = ['applications with symbolic counts are judged modulo three primes']
PRIMES = (1_000_003, 998_244_353, 2_147_483_647)
R = N = None


def setup(conf):
    global R, N
    env.setup(conf['so'])
    import tm.num
    import tm.rules
    R, N = tm.rules, tm.num
    numsem.setup(N)


class Refusal(Exception):
    pass


class SimTape:
    def __init__(self, left, right, refuse=None):
        self.c = (list(left), list(right))
        self.reads = self.writes = 0
        self.refuse = refuse

    def get_count(self, index):
        self.reads += 1
        if self.reads == self.refuse:
            raise R.RuleLimit('tape refuses')
        s, i = index
        return self.c[s][i]

    def set_count(self, index, val):
        self.writes += 1
        s, i = index
        self.c[s][i] = val


def gen_count(rng):
    k = rng.random()
    if k < .5:
        return rng.choice([1, 2, 3, rng.randint(1, 12), rng.randint(1, 60), rng.randint(1, 10 ** 6)])
    # [base, exponent, multiplier, addend, extra tower levels, depth padding]
    return [2, rng.randint(40, 200), rng.choice([1, 1, 3, 5]), rng.randint(-9, 9), rng.choice([0, 0, 0, 1]),
            rng.choice([0, 0, 0, 0, 24])]


def gen(rng, tier):
    steps = []
    for _ in range(rng.choice([1, 2, 4, 8])):
        d = rng.random()
        if d < .4:
            steps.append(gen_infer(rng))
            continue
        if d < .5:
            steps.append(gen_tower(rng))
            continue
        n = [rng.randint(0, 3), rng.randint(1, 3)]
        rule = []
        slots = [[s, i] for s in (0, 1) for i in range(n[s])]
        rng.shuffle(slots)
        k = rng.randint(1, len(slots))
        for m, pos in enumerate(slots[:k]):
            d = rng.random()
            if m == 0 or d < .35:
                rule.append([pos, -rng.choice([1, 1, 2, 3, 4, 5, 8])])
            elif d < .6:
                rule.append([pos, rng.choice([1, 2, 3, 6])])
            else:
                rule.append([pos, [rng.choice([2, 2, 3, 4]) if rng.random() < .8 else 2, rng.choice([0, 1, 2, 5, -1])]])
        rng.shuffle(rule)
        steps.append({'rule': rule, 'tape': [[gen_count(rng) for _ in range(n[0])], [gen_count(rng) for _ in range(n[1])]],
                      'refuse': rng.choice([None] * 4 + [1, 2, 3, 4, 5]), 'repeat': rng.choice([1, 1, 2, 3])})
    return {'steps': steps, 'seed': rng.randrange(1 << 30)}


def gen_infer(rng):
    n = [rng.randint(0, 2), rng.randint(1, 2)]
    pos = []
    for s in (0, 1):
        for i in range(n[s]):
            k = rng.random()
            pos.append([[s, i], rng.randint(1, 9) if k > .3 else rng.randint(10, 60),
                        ['+', 0] if k < .2 else ['+', rng.randint(1, 5)] if k < .4 else
                        ['-', rng.randint(1, 6)] if k < .75 else
                        ['*', rng.choice([2, 3, 4]), rng.randint(0, 6)] if k < .95 else
                        ['?', rng.randrange(1 << 20)]])
    if rng.random() < .4:
        # one sighting breaks the pattern
        p = rng.choice(pos)
        p[2] = p[2] + [[rng.randrange(4), rng.choice([-3, -2, -1, 1, 2, 3, 7])]]
    return {'infer': pos, 'n': n, 'apply': rng.choice([None, [rng.randint(1, 40) for _ in range(4)]])}


def gen_tower(rng):
    """a symbolic count that grows by the same operations every time"""
    ops = []
    for _ in range(rng.choice([1, 2, 3])):
        k = rng.random()
        ops.append(['*', rng.choice([2, 3, 5, 7])] if k < .3 else ['+', rng.choice([-3, -1, 1, 2, 5])] if k < .6 else
                   ['**', 2] if k < .85 else ['//', rng.choice([3, 5, 7])])
    if all(op[0] != '**' for op in ops):
        ops.insert(rng.randrange(len(ops) + 1), ['**', 2])
    return {'tower': ops, 'start': [rng.randint(40, 80), rng.choice([1, 3, 5]), rng.randint(-9, 9)],
            'break': rng.choice([None] * 3 + [0, 1, 2, 3]), 'down': rng.choice([1, 2])}


def build(c):
    """-> (count, residues, exact or None)"""
    if isinstance(c, int):
        c = max(1, c)
        return c, c
    base, e, mul, add, tower, pad = c
    e = max(40, e)
    x = N.make_exp(2, e)
    v = 2 ** e
    if mul > 1:
        x, v = mul * x, v * mul
    x, v = x + add, v + add
    for _ in range(tower):
        x, v = 2 ** x, None
    if pad:
        for k in range(pad):
            x = x + (2 ** (2 ** N.make_exp(2, 300 + 7 * k)))
            v = None
    return x, v


def res(x):
    return [numsem.value_mod(x, p) for p in PRIMES]


def shape(rule):
    return sorted('-' if isinstance(d, int) and d < 0 else '+' if isinstance(d, int) else '*' for _, d in rule)


def same(a, b):
    return a is b or (isinstance(a, int) and a == b)


def run(plan, out):
    out.nontrivial = False
    for k, st in enumerate(plan['steps']):
        if 'tower' in st:
            tower(st, out, k)
        elif 'infer' in st:
            infer(st, out, k)
        else:
            apply(st, out, k, plan)


def apply(st, out, k, plan):
    built = [[build(c) for c in side] for side in st['tape']]
    rule = {}
    for (s, i), d in st['rule']:
        if s not in (0, 1) or not 0 <= i < len(built[s]):
            return
        if isinstance(d, list):
            if len(d) != 2 or d[0] < 2:
                return
            d = tuple(d)
        rule[(s, i)] = d
    if not any(isinstance(d, int) and d < 0 for d in rule.values()):
        return
    tape = SimTape([c for c, _ in built[0]], [c for c, _ in built[1]], st['refuse'])
    vals = [[v for _, v in side] for side in built]
    for _ in range(st['repeat']):
        before = [list(tape.c[0]), list(tape.c[1])]
        try:
            times = R.apply_rule(rule, tape)
        except (R.RuleLimit, N.ExpModLimit, N.ModDepthLimit, NotImplementedError, AssertionError,
                RecursionError, OverflowError) as e:
            out.stats['refused:' + type(e).__name__] += 1
            if tape.reads == st['refuse']:
                out.faults['refused-read'] += 1
            else:
                out.faults['limit'] += 1
            out.mark('refused', shape(st['rule']), type(e).__name__)
            out.ev(k, 'refused')
            if plan.get('strict'):
                unchanged(before, tape, 'a refused application', st)
            elif any(not same(a, b) for x, y in zip(before, tape.c) for a, b in zip(x, y)):
                out.stats['seen:finding-partial-application'] += 1
                return      # the tape is no longer one the rule describes
            continue
        out.ev(k, str(times)[:60], tape.writes)
        out.mark(shape(st['rule']), times is None, isinstance(times, int), tape.writes)
        if times is None:
            unchanged(before, tape, 'an application that did not apply', st)
            for pos, d in rule.items():
                if isinstance(d, int) and d < 0:
                    c = before[pos[0]][pos[1]]
                    if isinstance(c, int) and c <= -d:
                        break
            else:
                raise Violation('not-applied', f'{st}: no count would run out, yet the rule was declined')
            return
        judge(rule, before, vals, times, tape, st, out)
        for s in (0, 1):
            for i in range(len(vals[s])):
                c = tape.c[s][i]
                vals[s][i] = c if isinstance(c, int) else numsem.small(c, 100_000)


def unchanged(before, tape, what, st):
    for s in (0, 1):
        for i, c in enumerate(before[s]):
            if not same(c, tape.c[s][i]):
                raise Violation('partial-application', f'{st}: {what} changed the count at {(s, i)} from {str(c)[:80]} '
                                f'to {str(tape.c[s][i])[:80]}')


def judge(rule, before, vals, times, tape, st, out):
    down = {pos: -d for pos, d in rule.items() if isinstance(d, int) and d < 0}
    known = [vals[s][i] for s, i in down]
    tval = times if isinstance(times, int) else numsem.small(times, 100_000)
    if all(v is not None for v in known):
        # close calls between huge symbolic counts are the finding listed under C04
        bounds = sorted((v - 1) // d for v, d in zip(known, down.values()))
        want = bounds[0]
        close = len(bounds) > 1 and any(b != want and b.bit_length() > 30 and (b - want).bit_length() < b.bit_length() - 16
                                        for b in bounds)
        if want < 1:
            if not all(isinstance(before[s][i], int) for s, i in down):
                return
            raise Violation('wrong-times', f'{st}: applied {str(times)[:60]} times although a count runs out')
        if close:
            out.stats['skipped:close'] += 1
        elif tval is not None and tval != want:
            raise Violation('wrong-times', f'{st}: applied {str(times)[:60]} times, the counts allow {str(want)[:60]}')
        out.stats['judged:times'] += 1
    try:
        tres = res(times)
        for pos, d in rule.items():
            b, a = before[pos[0]][pos[1]], tape.c[pos[0]][pos[1]]
            br, ar = res(b), res(a)
            for p, t, x, y in zip(PRIMES, tres, br, ar):
                if isinstance(d, int):
                    w = (x + d * t) % p
                else:
                    mul, add = d
                    e = pow(mul, numsem.value_mod(times, p - 1), p)
                    w = (x * e + add * (e - 1) * pow(mul - 1, -1, p)) % p
                if w != y:
                    raise Violation('wrong-result', f'{st}: position {pos} change {d}: {str(b)[:80]} became {str(a)[:80]} '
                                    f'after {str(times)[:60]} applications')
            if isinstance(d, int) and d < 0:
                v = a if isinstance(a, int) else None
                if v is not None and v < 1:
                    raise Violation('wrong-result', f'{st}: position {pos} falls to {v}')
    except numsem.Unknown:
        out.stats['unjudged'] += 1
        return
    touched = {tuple(p) for p, _ in st['rule']} if 'rule' in st else set(rule)
    for s in (0, 1):
        for i, c in enumerate(before[s]):
            if (s, i) not in touched and not same(c, tape.c[s][i]):
                raise Violation('wrong-result', f'{st}: untouched position {(s, i)} changed')
    out.stats['judged:applications'] += 1
    out.stats['t:applications'] += 1
    out.nontrivial = True


def evolve(c, f):
    op = f[0]
    if op == '+':
        return c + f[1]
    if op == '-':
        return c - f[1]
    if op == '*':
        return c * f[1] + f[2]
    return (c * 7 + f[1]) % 23 + 1


def infer(st, out, k):
    n = st['n']
    pos = [p for p in st['infer']]
    cur = {tuple(p): c + (4 * f[1] if f[0] == '-' else 0) for p, c, f in pos}
    fs = {tuple(p): f for p, _, f in pos}
    seen = []
    for _ in range(4):
        if any(c < 1 for c in cur.values()):
            return
        seen.append(dict(cur))
        cur = {p: evolve(c, fs[p]) for p, c in cur.items()}
    for p, f in fs.items():
        if isinstance(f[-1], list):
            seen[f[-1][0] % 4][p] += f[-1][1]
            if seen[f[-1][0] % 4][p] < 1:
                return

    def counts(s):
        return tuple(tuple(s[(side, i)] for i in range(n[side]) if (side, i) in s) for side in (0, 1))
    try:
        rule = R.make_rule(*map(counts, seen))
    except (R.InfiniteRule, R.SuspectedRule, R.RuleLimit) as e:
        name = type(e).__name__
        out.stats['infer:' + name] += 1
        out.ev(k, name)
        out.mark(name, sorted(f[0] for f in fs.values()))
        if isinstance(e, R.InfiniteRule) and any(f[0] == '-' and not isinstance(f[-1], list) for f in fs.values()):
            raise Violation('infinite-with-decrease', f'{st}: a count shrinks every round, yet the change was called unending')
        return
    out.ev(k, str(rule))
    out.stats['infer:none' if rule is None else 'infer:rule'] += 1
    out.mark('infer', rule is None, sorted(f[0] for f in fs.values()))
    if rule is None:
        return
    # one application at a time must retrace what was seen
    for a, b in zip(seen, seen[1:]):
        for p in a:
            d = rule.get(p)
            w = a[p] if d is None else a[p] + d if isinstance(d, int) else a[p] * d[0] + d[1]
            if w != b[p]:
                raise Violation('wrong-rule', f'{st}: observed {a[p]} -> {b[p]} at {p}, the rule says {d}')
    if not any(isinstance(d, int) and d < 0 for d in rule.values()):
        raise Violation('wrong-rule', f'{st}: a rule without a decreasing count: {rule}')
    start = seen[0]
    if st['apply']:
        start = {p: max(1, c) for p, c in zip(seen[0], st['apply'])}
        if len(start) < len(seen[0]):
            return
    tape = SimTape(*map(list, counts(start)))
    vals = [list(tape.c[0]), list(tape.c[1])]
    times = R.apply_rule(rule, tape)
    if times is not None:
        judge(rule, vals, vals, times, tape, st, out)


def tower(st, out, k):
    e, mul, add = st['start']
    x = N.make_exp(2, max(40, e))
    seen = []
    try:
        x = max(1, mul) * x + add
        for n in range(4):
            seen.append(x if st['break'] != n else x + 1)
            for op, v in st['tower']:
                if op == '*':
                    x = x * v
                elif op == '+':
                    x = x + v
                elif op == '//':
                    x = (x - x % v) // v
                else:
                    x = 2 ** x
        rule = R.make_rule(*([[c], [20 - n * st['down']]] for n, c in enumerate(seen)))
    except (R.InfiniteRule, R.SuspectedRule, R.RuleLimit, N.ExpModLimit, N.ModDepthLimit, NotImplementedError,
            AssertionError, RecursionError, OverflowError, ValueError) as ex:
        out.stats['tower:' + type(ex).__name__] += 1
        out.ev(k, type(ex).__name__)
        return
    out.stats['tower:none' if rule is None else 'tower:rule'] += 1
    out.mark('tower', rule is None, [op for op, _ in st['tower']], st['break'])
    out.ev(k, str(rule)[:100])
    if rule is None or (0, 0) not in rule or isinstance(rule[0, 0], int):
        return
    # one application of the inferred rule retraces what was seen
    for a, b in zip(seen, seen[1:]):
        tape = SimTape([a], [1 + st['down']])
        try:
            if R.apply_rule(rule, tape) != 1:
                raise Violation('wrong-times', f'{st}: {rule} not applied once to {str(a)[:80]}')
            got, want = res(tape.c[0][0]), res(b)
        except (R.RuleLimit, N.ExpModLimit, N.ModDepthLimit, NotImplementedError, AssertionError, numsem.Unknown):
            out.stats['unjudged'] += 1
            return
        if got != want:
            raise Violation('wrong-rule', f'{st}: observed {str(a)[:80]} -> {str(b)[:80]}, the rule {rule} gives '
                            f'{str(tape.c[0][0])[:80]}')
    out.stats['judged:tower'] += 1
    out.nontrivial = True


def finding_key(res):
    kind, detail = res['violation']
    return kind if kind == 'partial-application' and 'a refused application' in detail else kind + detail
