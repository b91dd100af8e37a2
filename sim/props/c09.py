"""C09: a program ruled out never does what it was ruled out for."""
import entropy
import progs
import pyengine
from core import Violation
from plain import TM, parse, show

ID = 'C09'
BUILDS = ('ref', 'ext', 'simrand')
PRELOAD = True
RUNS = {'quick': 2200, 'thorough': 400_000}
CPU_LIMIT = 60
RULE = ('one run = a batch of connected programs, each put before the five deciders at a rising sequence of budgets, each '
        'call under a hash seed of its own, after 0-3 calls for other programs, and played on the plain machine; '
        'non-trivial = a decider ruled something out or the plain machine did one of the things asked about')
REAL = ['src/reason.rs', 'src/segment.rs', 'src/machine.rs quick_term_or_rec', 'src/instrs.rs', 'src/lib.rs wrappers']
STUB = ['pyo3 (own stand-in over the CPython C API)', 'entropy of the hash maps (seeded)']
MEASURE = 'distinct (question, answer, budget class, table shape, plain outcome) tuples observed'
ASSUME = ['a proof is refuted only by what the plain machine does within 3 million steps',
          'programs start with 1RB and can get from every state to every other (the normal form the deciders are written for)',
          'a recurrence declared within 300 cycles shows as a period within 400,000 plain steps']

FUEL = 3_000_000
DEPTHS = (0, 1, 2, 3, 5, 8, 12, 20, 34, 60, 100, 256)
SEGS = (2, 3, 4, 5, 6, 8, 12, 22)
LIMS = (2, 5, 12, 30, 60, 120, 300, 1000, 5000)


def setup(conf):
    pyengine.setup(conf)
    entropy.setup(conf)
    global rust
    import tm.rust_stuff as rust


# ---------------------------------------------------------------- programs

def connected(table):
    goes = [{i[2] for i in row if i} for row in table]
    for s in range(len(table)):
        seen, todo = set(), [s]
        while todo:
            for t in goes[todo.pop()]:
                if t not in seen:
                    seen.add(t)
                    todo.append(t)
        if len(seen) < len(table):
            return False
    return True


def candidate(rng):
    k = rng.random()
    if k < .3:
        return progs.halting_prog(rng, 20)
    if k < .5:
        return progs.tnf_prog(rng)
    if k < .7:
        return progs.random_prog(rng)
    if k < .8:
        return progs.any_prog(rng)
    if k < .9:
        return small(rng)
    return progs.sparse_prog(rng)


def small(rng):
    """halting slots and erasing instructions spread over a small table"""
    states, colors = rng.choice([(2, 2), (2, 3), (3, 2), (3, 2), (2, 4), (4, 2)])
    t = progs.rand_table(rng, states, colors, 0, rng.choice([0, .3]))
    for _ in range(rng.choice([0, 1, 1, 2])):
        t[rng.randrange(states)][rng.randrange(colors)] = None
    return show(t)


def eventful(prog):
    """it halts, blanks the tape or spins out, and not at once"""
    table = parse(prog)
    for what in ('run', 'seek_blank', 'seek_spin'):
        ref = TM(table, 4_000)
        n = getattr(ref, what)(3_000)
        if 3 < n < 3_000:
            return True
    return False


def program(rng):
    while True:
        t = parse(candidate(rng))
        for _ in range(6):
            t[0][0] = (1, True, 1 % len(t))
            if connected(t) and (rng.random() < .15 or eventful(show(t))):
                return show(t)
            s, c = rng.randrange(len(t)), rng.randrange(len(t[0]))
            t[s][c] = (rng.randrange(len(t[0])), rng.random() < .5, rng.randrange(len(t)))


def gen(rng, tier):
    return {'progs': [program(rng) for _ in range(25)], 'seed': rng.getrandbits(40),
            'far': rng.random() < .04, 'before': rng.choice([0, 0, 1, 3])}


# ------------------------------------------------------------------- truth

def periodic(table):
    """the last 150,000 of 400,000 steps repeat, or there is no telling"""
    ref = TM(table, 420_000)
    ref.run(100_000)
    tail = ref.trail(300_000)
    half = len(tail) // 2
    return tail.find(tail[:half], 1) > 0


class Truth:
    def __init__(self, prog, fuel, out):
        self.table = parse(prog)
        ref = TM(self.table, 400_000)
        ref.run(fuel)
        i = ref.info()
        self.halt = (i['steps'], (i['state'], i['scan'])) if i['status'] == 1 else None
        lim = min(i['steps'], 200_000)
        out.stats['t:plain_steps'] += i['steps']
        self.blank, self.spin = (self.first(f, lim) for f in ('seek_blank', 'seek_spin'))
        self.colors = 1 + max(c for row in self.table for c, i in enumerate(row) if i)

    def first(self, what, lim):
        ref = TM(self.table, 400_000)
        n = getattr(ref, what)(lim + 2)
        return ref.info()['steps'] if n >= 0 else None

    def unread(self):
        """it halts on a color no instruction is given for"""
        return self.halt is not None and self.halt[1][1] >= self.colors


QUESTIONS = (('halt', 'py_cant_halt', DEPTHS), ('blank', 'py_cant_blank', DEPTHS), ('spin', 'py_cant_spin_out', DEPTHS),
             ('segment', 'py_segment_cant_halt', SEGS), ('recur', 'py_quick_term_or_rec', LIMS))


def run(plan, out):
    known = None
    seed = plan['seed']
    for at, prog in enumerate(plan['progs']):
        truth = Truth(prog, FUEL if plan['far'] or (seed + at) % 10 == 0 else 150_000, out)
        around = [plan['progs'][(at + b + 1) % len(plan['progs'])] for b in range(plan['before'])]
        for k, (name, fn, budgets) in enumerate(QUESTIONS):
            fn = getattr(rust, fn)
            try:
                _, drawn = entropy.call(seed + 8 * at + k, decide, plan['far'], around, prog, truth, name, fn, budgets, seed + at, out)
                out.faults['hash-seed'] += drawn
            except Violation as v:
                if v.kind != 'unread-color':
                    raise
                known = known or v
    if known:
        raise known


def decide(far, around, prog, truth, name, fn, budgets, seed, out):
    first = None
    n = len(budgets) if far else len(budgets) - 2
    done = {'halt': truth.halt, 'segment': truth.halt, 'blank': truth.blank, 'spin': truth.spin, 'recur': truth.halt}[name]
    for k in range(n):
        budget = budgets[k]
        if first is not None and (seed + k) % 3:
            continue
        for other in around:
            fn(other, budgets[2])
        got = fn(prog, budget)
        if name == 'recur':
            got = budget if got else None
        out.stats['asked'] += 1
        if got is None:
            if first is not None:
                raise Violation('proof-taken-back', f'{prog}: {name} was decided at {first}, and is not with {budget}')
            continue
        out.stats['ruled-out:' + name] += 1
        out.nontrivial = True
        if done is not None:
            kind = 'unread-color' if name == 'halt' and truth.unread() else 'refuted-' + name
            raise Violation(kind, f'{prog}: {name} ruled out with a budget of {budget} ({got}), but the plain machine '
                            f'does it: {done}')
        if first is not None and name != 'recur' and got != first[1]:
            raise Violation('proof-changes', f'{prog}: {name} ruled out at {first} and, with {budget}, at {got}')
        if name == 'recur' and first is None and budget <= 300 and (far or seed % 4 == 0):
            out.stats['recurrences-checked'] += 1
            if not periodic(truth.table):
                raise Violation('refuted-recurrence', f'{prog}: declared terminating or recurrent within {budget} cycles; the '
                                'plain machine shows no period in 400,000 steps')
        first = first or (budget, got)
    out.ev(prog, name, first)
    out.mark(name, first and first[1], done is not None, len(truth.table), len(truth.table[0]))
    if done is not None:
        out.nontrivial = True
        out.stats['done:' + name] += 1


def shrink(plan):
    if len(plan['progs']) > 1:
        for p in plan['progs']:
            yield {**plan, 'progs': [p]}
    if plan['before']:
        yield {**plan, 'before': 0}
    if plan['far']:
        yield {**plan, 'far': False}


def finding_key(res):
    kind, what = res['violation'][:2]
    return kind if kind == 'unread-color' else f'{kind} {what}'
