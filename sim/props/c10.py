"""C10: the Rust engine says only what is true of the machine, step by step and
in its report, whatever acceleration was declined or forgotten on the way."""
import os
import re

import entropy
import progs
import pyengine
from core import Violation
from plain import TM, parse

ID = 'C10'
BUILDS = ('ref', 'ext', 'simrand')
PRELOAD = True
RUNS = {'quick': 4200, 'thorough': 250_000}
CPU_LIMIT = 40
RULE = ('one run = a batch of programs x budgets x fault plans (cycles at which a rule is declined, everything learnt is '
        'forgotten, the prover is out of room) x hash seeds; every cycle of every program is observed; non-trivial = at '
        'least one outcome or rule application was judged')
REAL = ['src/machine.rs run_prover, run_quick_machine', 'src/prover.rs', 'src/rules.rs', 'src/tape.rs', 'src/instrs.rs',
        'tm/machine.py Machine (second engine)']
STUB = ['pyo3 (own stand-in over the CPython C API)', 'entropy of the hash maps (seeded)']
MEASURE = 'distinct (outcome, rule applied, fault kinds, block counts, state) tuples observed'
ASSUME = ['jumps too long to replay are judged on instances with the same residues mod 12',
          'a proof of non-halting is refuted when the plain machine stops within 3 million steps, or the Python engine, '
          'its jumps checked, stops',
          'step counts of runs with rule applications and the number of applications are not claims']

FUEL = 3_000_000
KINDS = {'d': 'decline', 'a': 'amnesia', 'c': 'limit'}
DECIDED = ('undfnd', 'spnout', 'infrul')


def setup(conf):
    pyengine.setup(conf)
    entropy.setup(conf)
    global rust
    import tm.rust_stuff as rust


def gen(rng, tier):
    jobs = []
    for _ in range(rng.choice([1, 3, 5])):
        k = rng.random()
        prog = progs.rule_prog(rng) if k < .6 else progs.lively_prog(rng) if k < .75 else \
            progs.halting_prog(rng) if k < .9 else progs.any_prog(rng)
        lim = rng.choice([100, 300, 300, 600, 600, 1500])
        if k < .06:
            lim, prog = rng.choice([1000, 3000]), rng.choice(progs.sharp())
        if k > .95:
            lim, prog = rng.choice(progs.big())
            lim = lim * rng.choice([5, 10, 10]) // 10
            if rng.random() < .3:
                prog = progs.mutate(rng, prog)
            elif rng.random() < .4:
                lim, prog = rng.choice(progs.sums())
        faults = []
        if rng.random() < .5:
            kinds = rng.sample('ada', 2)
            for _ in range(rng.choice([1, 2, 6, 20])):
                faults.append(rng.choice(kinds) + str(int(lim * rng.random() ** 1.5)))
            if rng.random() < .1:
                faults.append('c' + str(int(lim * rng.random())))
        jobs.append({'prog': prog, 'lim': lim, 'faults': faults, 'seed': rng.getrandbits(40),
                     'twice': rng.random() < .2, 'quick': rng.random() < .3})
    return {'jobs': jobs}


# ------------------------------------------------------------ observation

BLOCK = re.compile(r'(\d+)(?:\^(\d+))?$')
OP = re.compile(r'\((true|false), (\d+)\): (?:Plus\((-?\d+)\)|Mult\(\((-?\d+), (-?\d+)\)\))')


def read_tape(text):
    left, scan, right, side = [], None, [], 0
    for word in text.split():
        if word[0] == '[':
            scan, side = int(word[1:-1]), 1
            continue
        c, n = BLOCK.match(word).groups()
        (right if side else left).append((int(c), int(n or 1)))
    return tuple(left[::-1]), scan, tuple(right)


def watched(job, seed):
    """the result of the run, or why there is none, and what it reported on the way"""
    res = None
    saved = os.dup(2)
    fd = os.memfd_create('trace')
    os.dup2(fd, 2)
    os.environ['BB_SIM'] = ' '.join(job['faults'])
    try:
        res, _ = entropy.call(seed, rust.run_prover, job['prog'], job['lim'])
    except BaseException as e:
        if type(e).__name__ != 'PanicException':
            raise
        res = e
    finally:
        del os.environ['BB_SIM']
        os.dup2(saved, 2)
        os.close(saved)
        size = os.lseek(fd, 0, os.SEEK_END)
        text = os.pread(fd, min(size, 60_000_000), 0).decode()
        os.close(fd)
    trace = []
    for line in text.splitlines():
        head, _, rest = line.partition(' ')
        if head == 'rule':
            rule = {(s == 'true', int(i)): int(p) if p else (int(m), int(a)) for s, i, p, m, a in OP.findall(rest)}
            trace.append(('rule', rule))
        elif head == 'end' or head.isdigit():
            state, steps, tape = rest.split(' ', 2)
            trace.append((head, int(state), int(steps), read_tape(tape)))
    return res, trace


def canon(span):
    out = []
    for c, n in span:
        if out and out[-1][0] == c:
            out[-1] = (c, out[-1][1] + n)
        else:
            out.append((c, n))
    while out and out[-1][0] == 0:
        out.pop()
    return tuple(out)


def ordinary(ins, state, tape):
    """the configurations one step, or one sweep through a block, leads to"""
    color, right, nxt = ins
    for sweep in (False, True) if nxt == state else (False,):
        left, scan, far = (list(tape[0]), tape[1], list(tape[2]))
        pull, push = (far, left) if right else (left, far)
        moved = 1
        if sweep:
            if not pull or pull[0][0] != scan:
                continue
            moved += pull.pop(0)[1]
        push.insert(0, (color, moved))
        seen = 0
        if pull:
            seen, n = pull.pop(0)
            if n > 1:
                pull.insert(0, (seen, n - 1))
        yield moved, (canon(left), seen, canon(far))


def flat(tape, limit=60_000):
    if sum(n for side in (tape[0], tape[2]) for _, n in side) > limit:
        return None
    left, right = (b''.join(bytes([c]) * n for c, n in side).rstrip(b'\0') for side in (tape[0], tape[2]))
    return left, tape[1], right


def marks(tape):
    return (tape[1] != 0) + sum(n for side in (tape[0], tape[2]) for c, n in side if c)


def blank(tape):
    return tape[1] == 0 and not canon(tape[0]) and not canon(tape[2])


def apply(rule, tape, times):
    spans = [list(tape[0]), list(tape[2])]
    for (side, k), op in rule.items():
        if not isinstance(op, int) or k >= len(spans[side]):
            return None
        c, n = spans[side][k]
        if n + op * times < 1:
            return None
        spans[side][k] = c, n + op * times
    return tuple(spans[0]), tape[1], tuple(spans[1])


def most(rule, tape):
    """how often the rule can be applied with something of every count left"""
    t = None
    for (side, k), op in rule.items():
        if op < 0:
            n = (tape[2] if side else tape[0])[k][1]
            t = (n - 1) // -op if t is None else min(t, (n - 1) // -op)
    return t


class Judge:
    TOTAL = 3_000_000

    def __init__(self, job, out):
        self.job, self.out, self.prog = job, out, job['prog']
        self.table = parse(self.prog)
        self.total = 0
        self.seen = {}
        self.origins = {}
        self.bad_rules = []
        self.overreach = None

    def bad(self, kind, what):
        raise Violation(kind, f'{self.prog} ({self.job["lim"]}, {" ".join(self.job["faults"])}): {what}')

    def replay(self, state, a, b, fuel):
        fa, fb = flat(a), flat(b)
        if fa is None or fb is None:
            return None
        ref = TM(self.table, 120_000)
        if not ref.load(state, *fa):
            return None
        n = ref.seek(state, *fb, min_steps=1, fuel=fuel)
        self.total += max(n, 0) if n != -2 else fuel
        self.out.stats['t:plain_steps'] += max(n, 0)
        return n

    # -- the course of the run

    def course(self, trace):
        last = None
        rule = None
        if trace and trace[0][0] != 'rule' and (trace[0][1], not blank(trace[0][3])) != (0, False):
            self.bad('wrong-start', f'starts as {trace[0]}')
        for item in trace:
            if item[0] == 'rule':
                rule = item[1]
                continue
            if last:
                self.transition(last, rule, item)
            last, rule = item, None
        return last

    def transition(self, a, rule, b):
        at, state, steps, tape = a
        _, state2, steps2, tape2 = b
        out = self.out
        out.stats['t:cycles'] += 1
        if b[0] == 'end' and (state, steps, tape) == (state2, steps2, tape2):
            return
        if rule is not None and (state, rule) and state == state2 and steps == steps2:
            self.jump(at, state, tape, rule, tape2)
            return
        row = self.table[state] if state < len(self.table) else []
        ins = row[tape[1]] if tape[1] < len(row) else None
        if ins is None:
            self.bad('wrong-step', f'cycle {at} went through an undefined slot')
        if rule is not None:
            out.stats['rule-not-applied'] += 1
        got = canon(tape2[0]), tape2[1], canon(tape2[2])
        for moved, want in ordinary(ins, state, (canon(tape[0]), tape[1], canon(tape[2]))):
            if want == got and state2 == ins[2]:
                if (steps + moved - steps2) % 2**64:
                    self.bad('step-count', f'cycle {at} made {moved} steps and counted {steps2 - steps}')
                out.stats['exact-step'] += 1
                return
        self.bad('wrong-step', f'cycle {at}: state {state} tape {str(tape)[:150]} is followed by state {state2} tape {str(tape2)[:150]}')

    def jump(self, at, state, tape, rule, tape2):
        out = self.out
        out.stats['jumps'] += 1
        out.mark('jump', state, tape[1], len(tape[0]), len(tape[2]))
        times = None
        for (side, k), op in rule.items():
            span, span2 = (tape[2], tape2[2]) if side else (tape[0], tape2[0])
            if isinstance(op, int) and op and k < min(len(span), len(span2)):
                times = (span2[k][1] - span[k][1]) // op
                break
        if not times or times < 1 or apply(rule, tape, times) != tape2:
            # not the rule, applied whole: only true if the machine gets there
            if (self.replay(state, tape, tape2, 2_000_000) or -1) < 0:
                self.bad('wrong-application', f'cycle {at}: {rule} in state {state} turns {str(tape)[:150]} into {str(tape2)[:150]}')
            return
        key = state, tape[1], tuple(sorted(rule.items()))
        self.origins.setdefault(key, {}).setdefault(shape(tape), tape)
        if self.total < self.TOTAL:
            n = self.replay(state, tape, tape2, 400_000)
            if n is not None and n >= 0:
                out.stats['exact-jump'] += 1
                return
            if n == -1:
                return self.wrong(at, state, tape, rule, key)
        self.seen[key] = self.seen.get(key, 0) + 1
        if self.seen[key] > 2:
            return
        small = scaled(tape)
        last = tape[0], tape[1], tape[2]
        last = limits(rule, small, 1)
        for start, n in ((last, 1), (small, None)):
            if start is None:
                continue
            n = n or most(rule, start)
            if not n:
                continue
            end = apply(rule, start, n)
            k = end and self.replay(state, start, end, 3_000_000)
            if k is None:
                continue
            out.stats['scaled-jump'] += 1
            if k < 0:
                self.wrong(at, state, tape, rule, key)

    def wrong(self, at, state, tape, rule, key):
        """The rule is not followed here. Is it at least with the counts of a
        tape it was used on before, be it only one of them?"""
        ok = False
        for origin in self.origins[key].values():
            good = self.follows(rule, state, refilled(tape, origin))
            if good is None:
                return
            if good:
                ok = True
                break
        what = f'cycle {at}: the machine does not follow {rule} from state {state} tape {str(tape)[:150]}'
        if not ok and not self.bad_rules and not self.second_opinion():
            self.bad('invalid-rule', what + ', nor where it was learnt')
        self.bad_rules.append(rule)
        self.out.stats['rule-overreach'] += 1
        if self.overreach is None:
            self.overreach = Violation('rule-overreach', f'{self.prog} ({self.job["lim"]}, {" ".join(self.job["faults"])}): {what}, '
                                       'though it does where it was learnt')

    def follows(self, rule, state, start):
        for _ in range(3):
            end = apply(rule, start, 1)
            if end is None:
                break
            n = self.replay(state, start, end, 3_000_000)
            if n is None or n < 0:
                return None if n is None else False
            start = end
        return True

    def second_opinion(self):
        """does the Python engine, its jumps looked at, carry a rule too far?"""
        sim = pyengine.Sim(self.prog, self.out, seed=1)
        try:
            sim.run(self.job['lim'])
        except Violation:
            return False
        return sim.overreach

    # -- the report

    def report(self, res, end):
        out, prog = self.out, self.prog
        kind = str(res.result).split('.')[-1]
        out.stats['outcome:' + kind] += 1
        row = {'undfnd': res.undfnd, 'spnout': res.spnout, 'infrul': res.infrul, 'xlimit': res.xlimit, 'cfglim': res.cfglim}
        shown = [k for k, v in row.items() if v is not None]
        if shown != [kind] and not (kind == 'mulrul' and not shown):
            self.bad('not-one-outcome', f'result {kind}, but {row}')
        if (res.simple_termination is not None) != (kind in ('undfnd', 'spnout')):
            self.bad('not-one-outcome', f'{kind} with simple_termination {res.simple_termination}')
        exact = res.rulapp == 0
        ref = TM(self.table, 400_000)
        ref.run(FUEL if kind in DECIDED else 30_000)
        info = ref.info()
        halted = info['status'] == 1
        slot = info['state'], info['scan']
        out.stats['t:plain_steps'] += info['steps']
        out.mark(kind, exact, sorted({f[0] for f in self.job['faults']}), len(res.blanks))
        if kind == 'undfnd':
            step, got = res.undfnd
            if halted:
                out.stats['judged:undfnd'] += 1
                if tuple(got) != slot or (exact and step != info['steps']) or res.marks != info['marks']:
                    self.bad('wrong-halt', f'reported {res.undfnd} with {res.marks} marks, the plain machine stops in slot {slot} '
                             f'after {info["steps"]} steps with {info["marks"]}')
            elif exact:
                self.bad('wrong-halt', f'reported {res.undfnd}, the plain machine goes on')
            line = self.table[got[0]] if got[0] < len(self.table) else []
            if got[1] < len(line) and line[got[1]] is not None:
                self.bad('wrong-halt', f'slot {got} is defined')
        elif kind in ('infrul', 'spnout'):
            out.stats['judged:' + kind] += 1
            if halted:
                self.bad('refuted-proof', f'reported {kind}, the plain machine stops in slot {slot} after {info["steps"]} steps')
            if kind == 'spnout' and exact:
                r2 = TM(self.table, 400_000)
                r2.run(res.spnout)
                if r2.info()['status'] == 1 or not spinning(self.table, r2) or r2.info()['marks'] != res.marks:
                    self.bad('wrong-spinout', f'reported {res.spnout} with {res.marks} marks')
        elif halted and exact and res.steps > info['steps']:
            self.bad('wrong-halt', f'still running after {res.steps} steps, the plain machine stops after {info["steps"]}')
        if exact and res.steps < 300_000:
            firsts = blanks_of(self.table, res.steps)
            if dict(res.blanks) != firsts:
                self.bad('wrong-blank', f'blank tapes reported {dict(res.blanks)}, plain machine {firsts}')
        if exact and kind in ('xlimit', 'spnout') and res.steps <= 400_000:
            r2 = TM(self.table, 400_000)
            r2.run(res.steps)
            if r2.info()['marks'] != res.marks:
                self.bad('wrong-marks', f'{res.marks} marks after {res.steps} steps, the tape holds {r2.info()["marks"]}')
        if end is not None:
            self.ending(res, kind, end)
        return kind

    def ending(self, res, kind, end):
        _, state, steps, tape = end
        if res.marks != marks(tape):
            self.bad('wrong-marks', f'reported {res.marks} marks, the tape {str(tape)[:200]} has {marks(tape)}')
        if res.steps != steps:
            self.bad('step-count', f'reported {res.steps} steps, made {steps}')
        row = self.table[state] if state < len(self.table) else []
        ins = row[tape[1]] if tape[1] < len(row) else None
        if kind == 'undfnd' and (ins is not None or tuple(res.undfnd[1]) != (state, tape[1])):
            self.bad('wrong-halt', f'reported {res.undfnd} in state {state} on {tape[1]}')
        if kind == 'spnout' and not (ins and ins[2] == state and tape[1] == 0 and not canon(tape[2] if ins[1] else tape[0])):
            self.bad('wrong-spinout', f'reported in state {state} on {str(tape)[:200]}')

    def blanks(self, res, trace):
        seen = {}
        for i, item in enumerate(trace):
            if i and item[0] != 'rule' and blank(item[3]) and item[2]:
                seen.setdefault(item[1], item[2])
        if dict(res.blanks) != seen:
            self.bad('wrong-blank', f'blank tapes reported {dict(res.blanks)}, on the way there were {seen}')

    def agree(self, res, kind):
        if kind not in DECIDED:
            return
        sim = pyengine.Sim(self.prog, self.out, seed=1, light=True)
        m = sim.run(min(2 * self.job['lim'], 1500))
        other = [k for k in DECIDED if getattr(m, k, None) is not None]
        if not other:
            return
        self.out.stats['engines-compared'] += 1
        same = other == [kind]
        if same and kind == 'undfnd':
            same = tuple(m.undfnd[1]) == tuple(res.undfnd[1])
        if same and kind != 'infrul':
            same = not isinstance(m.marks, int) or m.marks == res.marks
        if not same:
            self.bad('engines-disagree', f'Rust: {kind} {res.undfnd} {res.marks} marks; Python: {other} '
                     f'{getattr(m, other[0])} {str(m.marks)[:60]} marks')


def scaled(tape):
    def side(span):
        return tuple((c, n if n <= 24 else 12 + n % 12) for c, n in span)
    return side(tape[0]), tape[1], side(tape[2])


def shape(tape):
    return tuple(tuple((c, n == 1) for c, n in tape[i]) for i in (0, 2))


def refilled(tape, other):
    """the tape with the counts of another, as far as they look the same"""
    def side(span, span2):
        same = [(c, n2 if c == c2 and (n == 1) == (n2 == 1) else n) for (c, n), (c2, n2) in zip(span, span2)]
        return tuple(same) + tuple(span[len(same):])
    return side(tape[0], other[0]), tape[1], side(tape[2], other[2])


def limits(rule, tape, times):
    """the same tape with just enough for so many applications"""
    spans = [list(tape[0]), list(tape[2])]
    for (side, k), op in rule.items():
        if op < 0:
            c, n = spans[side][k]
            spans[side][k] = c, (n % -op or -op) - op * times
    return tuple(spans[0]), tape[1], tuple(spans[1])


def spinning(table, ref):
    st, l, scan, r = ref.config()
    ins = table[st][scan]
    return scan == 0 and ins is not None and ins[2] == st and not (r if ins[1] else l)


def blanks_of(table, end):
    ref = TM(table, 400_000)
    out, at = {}, 0
    for _ in range(64):
        if ref.seek_blank(end - at) < 0:
            break
        i = ref.info()
        at = i['steps']
        if at > end:
            break
        out.setdefault(i['state'], at)
    return out


# ------------------------------------------------------------ one run

def fields(res):
    return {k: getattr(res, k) for k in ('steps', 'cycles', 'marks', 'rulapp', 'undfnd', 'simple_termination', 'halted',
                                         'infrul', 'spnout', 'xlimit', 'cfglim')} | \
        {'blanks': dict(res.blanks), 'result': str(res.result)}


ROOM = 2**31


def gave_up(j, res, trace, out):
    """a run that ends in a panic had counts about to outgrow 64 bits"""
    j.course(trace)
    most = max((n for t in trace if t[0] != 'rule' for side in (t[3][0], t[3][2]) for _, n in side), default=0)
    out.stats[f'gave-up:2^{most.bit_length() // 8 * 8}'] += 1
    if most < ROOM:
        j.bad('engine-crash', f'stopped with "{str(res)[:150]}" while no count was above {most}')


def run(plan, out):
    far = None
    for job in plan['jobs']:
        j = Judge(job, out)
        res, trace = watched(job, job['seed'])
        for f in job['faults']:
            if int(f[1:]) <= max((int(t[0]) for t in trace if t[0].isdigit()), default=0):
                out.faults[KINDS[f[0]]] += 1
        try:
            if isinstance(res, BaseException):
                gave_up(j, res, trace, out)
                far = far or j.overreach
                continue
            end = j.course(trace)
            kind = j.report(res, end)
            if end is not None:
                j.blanks(res, trace)
            j.agree(res, kind)
        except Violation:
            if j.overreach or j.second_opinion():
                raise Violation('rule-overreach', *(j.overreach or j.second_opinion()).args[1:])
            raise
        out.nontrivial |= out.stats['jumps'] + sum(v for k, v in out.stats.items() if k.startswith('judged')) > 0
        out.ev(job['prog'], kind, res.steps, res.marks, len(trace))
        far = far or j.overreach
        if job['twice']:
            other, _ = watched(job, job['seed'] + 1)
            out.faults['hash-seed'] += 1
            if isinstance(other, BaseException):
                raise Violation('rerun-differs', f'{job["prog"]}: under other hash seeds {str(other)[:150]}')
            if fields(other) != fields(res):
                raise Violation('rerun-differs', f'{job["prog"]}: under other hash seeds {fields(other)} instead of {fields(res)}')
        if job['quick']:
            quick(job, out)
    if far:
        raise far


def quick(job, out):
    prog = job['prog']
    table = parse(prog)
    lim = job['lim']
    try:
        res = rust.run_quick_machine(prog, lim)
    except BaseException as e:
        if type(e).__name__ != 'PanicException':
            raise
        raise Violation('engine-crash', f'{prog}: the quick machine stopped with "{str(e)[:150]}"') from e
    kind = str(res.result).split('.')[-1]
    out.stats['quick:' + kind] += 1
    Judge({**job, 'faults': []}, out).report(res, None)
    if res.rulapp:
        raise Violation('rule-count', f'{prog}: the quick machine claims {res.rulapp} rule applications')
    if kind == 'mulrul' or kind == 'cfglim':
        raise Violation('phantom-limit', f'{prog}: the quick machine reports {kind}')
    if res.steps <= FUEL:
        ref = TM(table, 400_000)
        ref.run(res.steps)
        i = ref.info()
        if (i['steps'], i['marks']) != (res.steps, res.marks):
            raise Violation('wrong-marks', f'{prog}: quick machine {res.steps} steps {res.marks} marks; plain machine {i}')
        if kind == 'infrul':
            firsts = blanks_of(table, max(1, res.steps - 1))
            if i['marks'] or not (i['state'] == 0 or i['state'] in firsts):
                raise Violation('refuted-proof', f'{prog}: quick machine reports a loop over the blank tape at {res.steps}: {i}, {firsts}')


def finding_key(res):
    kind, what = res['violation'][:2]
    return kind if kind == 'rule-overreach' else f'{kind} {what}'
