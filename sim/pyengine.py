"""The Python interpreter (tm.machine.Machine) under the simulator.

The machine runs for real.  The simulator sits at its seams: the tape display
hook called once per cycle (observation), the prover and rule application that
tm.machine calls (fault injection), and the allocator behind block identity.
"""
from __future__ import annotations

import builtins
import random

import env
from core import Inconclusive, Violation, mark
from numsem import Unknown
from plain import TM, dims, parse

PRIMES = (1_000_003, 998_244_353, 2_147_483_647)

ns = None      # filled by setup


class NS:
    pass


def setup(conf):
    global ns
    env.setup(conf['so'])
    import tm.machine as machine
    import tm.prover as prover
    import tm.rules as rules
    import tm.tape as tape
    import tm.num as num
    import tm.macro as macro
    n = NS()
    n.machine, n.prover, n.rules, n.tape, n.num, n.macro = \
        machine, prover, rules, tape, num, macro
    n.Machine = machine.Machine
    n.orig = {
        'Prover': getattr(machine, 'Prover', None),
        'apply_rule': getattr(machine, 'apply_rule', None),
        'make_rule': getattr(prover, 'make_rule', None),
        'Block': getattr(tape, 'Block', None),
    }
    ns = n
    import numsem
    numsem.setup(num)


class SimInterrupt(KeyboardInterrupt):
    pass


# ------------------------------------------------------------ tape -> cells

class TooBig(Exception):
    pass


def expand_span(span, limit):
    total = 0
    out = []
    for b in span:
        n = b.count
        if not isinstance(n, int):
            raise TooBig
        if n < 0:
            raise Violation('negative-count', f'block {b} has a negative length')
        total += n
        if total > limit:
            raise TooBig
        if not 0 <= b.color < 256:
            raise TooBig
        out.append(bytes([b.color]) * n)
    return b''.join(out)


def cells(tape, limit=50_000):
    return expand_span(tape.lspan, limit), tape.scan, expand_span(tape.rspan, limit)


def trim(c):
    l, s, r = c
    return l.rstrip(b'\0'), s, r.rstrip(b'\0')


# ------------------------------------------------------------ allocator

class SimHeap:
    """Addresses for tape blocks: freed addresses are handed out again, in an
    order the plan decides."""

    def __init__(self, seed: int, mode: str):
        self.rng = random.Random(seed)
        self.mode = mode
        self.free: list[int] = []
        self.next = 1
        self.reused = 0

    def alloc(self) -> int:
        if self.free and self.mode != 'fresh':
            k = len(self.free) - 1 if self.mode == 'lifo' else \
                0 if self.mode == 'fifo' else self.rng.randrange(len(self.free))
            self.reused += 1
            return self.free.pop(k)
        self.next += 1
        return self.next

    def release(self, addr: int) -> None:
        self.free.append(addr)


def install_heap(heap: SimHeap):
    base = ns.orig['Block']
    if base is None or not isinstance(base, type):
        return None
    try:
        class SimBlock(base):  # type: ignore[misc,valid-type]
            __slots__ = ('_addr',)

            def __init__(self, *a, **k):
                super().__init__(*a, **k)
                self._addr = heap.alloc()

            def __del__(self):
                try:
                    heap.release(self._addr)
                except AttributeError:
                    pass
        SimBlock(0, 1)
    except Exception:
        return None
    ns.tape.Block = SimBlock
    ns.tape.id = lambda o: getattr(o, '_addr', None) or builtins.id(o)
    return SimBlock


# ------------------------------------------------------------ RLE mirror

def residues(c):
    import numsem
    return tuple(numsem.value_mod(c, p) for p in PRIMES)


def rle(tape):
    """canonical [(color, residues, is_one)] nearest first, both sides"""
    def side(span):
        out = []
        for b in span:
            out.append([b.color, residues(b.count), isinstance(b.count, int) and b.count == 1])
        return canon(out)
    return side(tape.lspan), tape.scan, side(tape.rspan)


def addr(a, b):
    return tuple((x + y) % p for x, y, p in zip(a, b, PRIMES))


ONE = tuple(1 for _ in PRIMES)
ZERO = tuple(0 for _ in PRIMES)
MINUS = tuple(-1 % p for p in PRIMES)


def canon(blocks):
    out = []
    for c, r, one in blocks:
        if out and out[-1][0] == c:
            out[-1] = [c, addr(out[-1][1], r), False]
        else:
            out.append([c, r, one])
    while out and out[-1][0] == 0:
        out.pop()
    return [(c, r) for c, r, _ in out]


def rle_raw(tape):
    def side(span):
        return [[b.color, residues(b.count), isinstance(b.count, int) and b.count == 1]
                for b in span]
    return side(tape.lspan), tape.scan, side(tape.rspan)


def rle_step(raw, color, right, run):
    """one cell step, or through the whole run of the scanned colour"""
    l, scan, r = ([list(b) for b in raw[0]], raw[1], [list(b) for b in raw[2]])
    pull, push = (r, l) if right else (l, r)
    moved = ONE
    if run:
        if not pull or pull[0][0] != scan:
            return None
        while pull and pull[0][0] == scan:
            moved = addr(moved, pull[0][1])
            pull.pop(0)
    push.insert(0, [color, moved, False])
    if pull:
        nxt = pull[0][0]
        if pull[0][2]:
            pull.pop(0)
        else:
            pull[0] = [nxt, addr(pull[0][1], MINUS), False]
            # a count of 2 becomes 1: the flag no longer matters for colours
    else:
        nxt = 0
    l2, r2 = (push, pull) if right else (pull, push)
    return canon(l2), nxt, canon(r2)


# ------------------------------------------------------------ the simulation

class Sim:
    """One Machine run under a fault plan, watched against the reference."""

    FUEL = 400_000          # plain steps per observed transition
    TOTAL = 3_000_000       # plain steps per run

    def __init__(self, prog: str, out, *, kw=None, expander=None, faults=(),
                 heap=None, local=True, seed=0, light=False,
                 on_cycle=None, hooks=True):
        self.prog, self.out = prog, out
        self.table = parse(prog)
        self.expander = expander        # macro configuration -> cells
        self.local = local and expander is None
        self.light = light
        self.on_cycle = on_cycle
        self.hooks = hooks
        self.set_faults(faults, seed)
        self.heap = heap
        self.kw = kw or {}
        self.checked_rules: dict = {}
        self.total = 0
        sim = self

        class Watched(ns.Machine):
            def show_tape(self, step, cycle, state):
                sim.observe(self, step, cycle, state)

        self.m = Watched(prog, **self.kw)

    def set_faults(self, faults, seed=0):
        self.faults = {}
        self.declines = set()
        self.hit = set()
        self.rng = random.Random(seed)
        for kind, cycle in faults:
            if kind in ('decline', 'applimit'):
                # these count rule applications, not cycles
                self.declines.add((kind, cycle % 12))
            else:
                self.faults.setdefault(cycle, []).append(kind)

    # -- seams

    def hook(self):
        sim = self
        base = ns.orig['Prover']
        if isinstance(base, type):
            class SimProver(base):
                def try_rule(self, cycle, state, tape, *a, **k):
                    sim.at_try(self, cycle)
                    known = sim.snapshot(self)
                    sim.sightings = None
                    try:
                        try:
                            rule = super().try_rule(cycle, state, tape, *a, **k)
                        except ns.rules.InfiniteRule:
                            sim.check_sightings(state, tape, known)
                            raise
                        if rule is not None and sim.sightings is not None:
                            sim.check_sightings(state, tape, known)
                        if rule is not None and id(rule) not in sim.learnt and not sim.light:
                            sim.learnt[id(rule)] = rule, state, tape.clone(), known
                        return rule
                    except (ns.rules.RuleLimit, ns.prover.ConfigLimit):
                        sim.real_limit = True
                        raise
            ns.machine.Prover = SimProver
        make = ns.orig['make_rule']
        if make is not None and not self.light and self.local:
            def make_rule(*counts, **k):
                sim.sightings = counts
                return make(*counts, **k)
            ns.prover.make_rule = make_rule
        orig = ns.orig['apply_rule']
        if orig is not None:
            def apply_rule(rule, tape, *a, **k):
                n = sim.applies
                sim.applies += 1
                if ('decline', n) in sim.declines:
                    sim.fired('decline')
                    return None
                if ('applimit', n) in sim.declines:
                    sim.fired('applimit')
                    raise ns.rules.RuleLimit('injected')
                before = None if sim.light else tape.clone()
                try:
                    times = orig(rule, tape, *a, **k)
                except ns.rules.RuleLimit:
                    sim.real_limit = True
                    raise
                if times is not None:
                    sim.jumps += 1
                    sim.times = sim.times + times
                    sim.last_jump = (rule, before, times)
                return times
            ns.machine.apply_rule = apply_rule

    def snapshot(self, prover):
        rules = getattr(prover, 'rules', None)
        if self.light or not isinstance(rules, dict):
            return {}
        n = sum(map(len, rules.values()))
        if self.snap is None or self.snap[0] != (id(prover), n):
            self.snap = (id(prover), n), {k: list(v) for k, v in rules.items()}, prover
        return self.snap[1]

    def unhook(self):
        if ns.orig['Prover'] is not None:
            ns.machine.Prover = ns.orig['Prover']
        if ns.orig['apply_rule'] is not None:
            ns.machine.apply_rule = ns.orig['apply_rule']
        if ns.orig['make_rule'] is not None:
            ns.prover.make_rule = ns.orig['make_rule']

    def fired(self, kind):
        self.out.faults[kind] += 1
        self.hit.add(kind)
        self.out.ev('fault', kind, self.cycle)

    def at_try(self, prover, cycle):
        for kind in self.faults.get(cycle, ()):
            if kind == 'norule':
                self.fired(kind)
                raise ns.rules.SuspectedRule(0, 0)
            if kind == 'loopguess':
                self.fired(kind)
                raise ns.macro.MacroInfLoop
            if kind == 'limit':
                self.fired(kind)
                raise ns.rules.RuleLimit('injected')
            if kind == 'cfglim':
                self.fired(kind)
                raise ns.prover.ConfigLimit
            if kind == 'interrupt':
                self.fired(kind)
                raise SimInterrupt

    # -- observation

    def reset(self):
        self.ref = TM(self.table)
        self.exact = True      # the reference is exactly in step
        self.last = None       # last cells
        self.last_raw = None
        self.last_state = None
        self.dup = 0
        self.cycle = 0
        self.jumps = 0
        self.seen_jumps = 0
        self.last_jump = None
        self.cycles_seen = 0
        self.applies = 0
        self.times = 0
        self.learnt = {}
        self.sightings = None
        self.snap = None
        self.overreach = None
        self.real_limit = False
        self.final = None      # (state, step) as last observed

    def config(self, state, tape):
        if self.expander:
            return self.expander(state, tape)
        return (state, *trim(cells(tape)))

    def observe(self, m, step, cycle, state):
        self.cycle = cycle
        self.cycles_seen += 1
        out = self.out
        out.stats['t:cycles'] += 1
        tape = m.tape
        jumped = self.jumps != self.seen_jumps
        self.seen_jumps = self.jumps
        self.final = (state, step)
        if self.on_cycle:
            self.on_cycle()
        if self.light:
            self.inject(m, cycle)
            return
        try:
            cfg = self.config(state, tape)
        except TooBig:
            cfg = None
        try:
            raw = rle_raw(tape) if self.local else None
        except Unknown:
            raw = None
        key = ('r', state, canon(raw[0]), raw[1], canon(raw[2])) if cfg is None and raw else cfg
        out.ev(cycle, state, tape.scan, len(tape.lspan), len(tape.rspan))
        if self.cycles_seen > 1:
            same = key is not None and key == self.last
            if self.dup:
                # the last observation of a run is shown twice; any other
                # repetition must be one the plain machine makes
                self.returns(cycle - 1)
                self.dup = 0
            if same:
                self.dup = 1
            else:
                self.transition(m, step, cycle, state, cfg, raw, jumped)
        self.last, self.last_raw, self.last_state = key, raw, state
        self.last_tape = tape.clone() if raw is not None else None
        out.marks.add(mark(tape.scan, len(tape.lspan), len(tape.rspan), state, jumped))
        self.inject(m, cycle)

    def inject(self, m, cycle):
        if 'amnesia' in self.faults.get(cycle, ()):
            prover = type(m.prover)(m.program)
            m.prover = prover
            self.fired('amnesia')
        if 'forget' in self.faults.get(cycle, ()):
            self.forget(m.prover)

    def returns(self, cycle):
        cfg = self.last
        if cfg and cfg[0] != 'r':
            ref = TM(self.table, 60_000)
            if ref.load(*cfg) and ref.seek(*cfg, min_steps=1, fuel=self.FUEL) >= 0:
                return
        raise Violation('no-progress', f'{self.prog} {self.kw}: cycle {cycle} repeats the configuration, '
                        'the plain machine does not return to it')

    def forget(self, prover):
        for name in ('configs', 'rules'):
            d = getattr(prover, name, None)
            if isinstance(d, dict) and d:
                for k in list(d):
                    if self.rng.random() < .5:
                        del d[k]
                self.fired('forget-' + name)

    def transition(self, m, step, cycle, state, cfg, raw, jumped):
        prog = self.prog
        done = False
        if cfg is not None:
            if not self.exact and self.prev_cfg is not None:
                # re-anchor the reference at the last observed configuration
                if self.ref.load(*self.prev_cfg):
                    self.exact = True
                    self.absolute = False
            if self.exact and self.total < self.TOTAL:
                n = self.ref.seek(*cfg, min_steps=1, fuel=self.FUEL)
                if n >= 0:
                    done = True
                    self.total += n
                    self.out.stats['t:plain_steps'] += n
                    self.out.stats['exact-jump' if jumped else 'exact-step'] += 1
                    if step != -1 and self.absolute and not self.expander:
                        real = self.ref.info()['steps']
                        if real != step:
                            raise Violation('step-count', f'{prog}: cycle {cycle} claims step {step}, '
                                            f'the plain machine is there after {real}')
                elif n == -1:
                    raise Violation('unreachable-config',
                                    f'{prog}: cycle {cycle} shows state {state} tape {str(m.tape)[:200]}, '
                                    f'which the plain machine never reaches (it halts first)'
                                    f'{" after a rule application" if jumped else ""}')
                else:
                    self.exact = False
                    self.total += self.FUEL
                    if not jumped and not self.expander:
                        raise Violation('unreachable-config',
                                        f'{prog}: cycle {cycle} took one ordinary step to state {state} '
                                        f'tape {str(m.tape)[:200]}, not reached in {self.FUEL} plain steps')
        else:
            self.exact = False
        self.prev_cfg = cfg
        if not self.exact:
            self.absolute = False
        if done or raw is None:
            return
        if jumped:
            self.out.stats['scaled-jump'] += 1
            self.check_rule(self.last_jump, self.last_state, cycle)
        else:
            self.check_step(raw, state, cycle)

    def check_step(self, raw, state, cycle):
        scan = self.last_raw[1]
        st = self.last_state
        ins = self.table[st][scan] if st < len(self.table) and scan < len(self.table[st]) else None
        if ins is None:
            raise Violation('unreachable-config', f'{self.prog}: cycle {cycle} stepped through an undefined slot')
        color, right, nxt = ins
        got = (canon(raw[0]), raw[1], canon(raw[2]))
        ok = nxt == state and (
            rle_step(self.last_raw, color, right, False) == got
            or (nxt == st and rle_step(self.last_raw, color, right, True) == got))
        self.out.stats['scaled-step'] += 1
        if not ok:
            raise Violation('wrong-step', f'{self.prog}: cycle {cycle}: an ordinary step from state {st} '
                            f'does not give state {state} with these block lengths')

    def check_rule(self, jump, state, cycle):
        """A jump not replayed in full: its last application, and the jump at a
        scale that can be replayed, on counts with the same residues. A rule the
        machine does not follow there must at least be right where it was learnt
        (it is then carried too far, a listed finding)."""
        rule, before, times = jump
        key = (id(rule), state)
        n = self.checked_rules.get(key, 0)
        if n >= 2:
            return
        self.checked_rules[key] = n + 1
        good = []
        last = self.one_instance(rule, before, state)
        if last is not None:
            good.append(last >= 0)
            self.out.stats['rule-last-ok' if last >= 0 else 'rule-last-bad'] += 1
        whole = self.whole_instance(rule, before, state)
        if whole is not None:
            good.append(whole >= 0)
            self.out.stats['rule-instance-ok' if whole >= 0 else 'rule-instance-bad'] += 1
        if all(good):
            return
        base = self.learnt_instance(rule, before, state)
        if base is None:
            self.out.stats['rule-unclear'] += 1
            return
        if not base:
            raise Violation('invalid-rule', f'{self.prog}: cycle {cycle}: the rule {rule} applied in state {state} to {str(before)[:200]} '
                            f'is not what the plain machine does, not even with the counts it was learnt from')
        self.out.stats['rule-overreach'] += 1
        if self.overreach is None:
            self.overreach = Violation('rule-overreach', f'{self.prog}: cycle {cycle}: the rule {rule}, right where it was learnt, is '
                                       f'applied in state {state} to {str(before)[:200]}, where the plain machine does something else')

    def follow(self, tape, state, goal, fuel=5_000_000):
        """steps from tape to the same tape with the goal counts; negative: never"""
        start = trim(cells(tape))
        for b, new in goal:
            b.count = new
        end = trim(cells(tape))
        ref = TM(self.table, 60_000)
        if not ref.load(state, *start):
            return None
        k = ref.seek(state, *end, min_steps=1, fuel=fuel)
        self.out.stats['t:plain_steps'] += max(0, k)
        return k

    def goal(self, rule, tape):
        """the counts one application leads to"""
        goal = []
        for (side, k), op in rule.items():
            span = tape.rspan if side else tape.lspan
            if k >= len(span):
                return None
            b = span[k]
            if isinstance(op, int):
                new = b.count + op
            elif isinstance(op, tuple) and len(op) == 2 and all(isinstance(v, int) for v in op):
                new = b.count * op[0] + op[1]
            else:
                return None
            if new < 1:
                return None
            goal.append((b, new))
        return goal

    def one_instance(self, rule, before, state):
        """the last of the applications a jump stands for, other counts small"""
        small = self.shrink_tape(before, (1,))
        if small is None or not isinstance(rule, dict):
            return None
        try:
            for (side, k), op in rule.items():
                b = (small.rspan if side else small.lspan)[k]
                if isinstance(op, int) and op < 0:
                    b.count = -op + (b.count % -op or -op)
            goal = self.goal(rule, small)
            return goal and self.follow(small, state, goal)
        except (TooBig, IndexError):
            return None

    def whole_instance(self, rule, before, state):
        small = self.shrink_tape(before)
        if small is None:
            return None
        start = trim(cells(small))
        try:
            t = ns.orig['apply_rule'](rule, small)
            if t is None or not isinstance(t, int):
                return None
            end = trim(cells(small))
        except (ns.rules.RuleLimit, TooBig):
            return None
        ref = TM(self.table, 60_000)
        if not ref.load(state, *start):
            return None
        k = ref.seek(state, *end, min_steps=1, fuel=5_000_000)
        self.out.stats['t:plain_steps'] += max(0, k)
        return k

    def learnt_instance(self, rule, before, state):
        """three applications from the counts the rule was learnt from, on the
        tape it is now applied to"""
        if id(rule) not in self.learnt or not isinstance(rule, dict):
            return None
        _, at, origin, known = self.learnt[id(rule)]
        small = self.shrink_tape(before, (1,))
        if small is None:
            return None
        if at != state:
            return False
        for span, src in ((small.lspan, origin.lspan), (small.rspan, origin.rspan)):
            for b, o in zip(span, src):
                if b.color == o.color and (b.count == 1) == (o.count == 1):
                    if not isinstance(o.count, int) or o.count > 3_000:
                        return None
                    b.count = o.count
        try:
            for n in range(3):
                goal = self.goal(rule, small)
                if goal is None:
                    return None if n == 0 else True
                k = self.follow(small, state, goal)
                if k is None:
                    return None
                if k < 0:
                    return self.inner_overreach(known, at, origin)
        except TooBig:
            return None
        return True

    def check_sightings(self, state, tape, known):
        """A rule, or endless growth, is told from the counts a tape is said to
        have later on, in the same state: the plain machine must get to them."""
        seen, self.sightings = self.sightings, None
        if seen is None or self.light or not self.local:
            return
        try:
            first = tuple([b.count for b in span] for span in (tape.lspan, tape.rspan))
            if tuple(map(list, seen[0])) != first or any(not isinstance(c, int) for x in seen for side in x for c in side):
                return
            now = trim(cells(tape, 2_000))
            ref = TM(self.table, 60_000)
            if not ref.load(state, *now):
                return
            for counts in seen[1:]:
                t = tape.clone()
                for span, new in zip((t.lspan, t.rspan), counts):
                    if len(new) > len(span):
                        return
                    for b, c in zip(span, new):
                        b.count = c
                k = ref.seek(state, *trim(cells(t, 8_000)), min_steps=1, fuel=300_000 if known else 2_000_000)
                self.out.stats['t:plain_steps'] += max(0, k)
                if k < 0:
                    if k != -1 and known:
                        self.out.stats['sighting-unclear'] += 1
                        return
                    break
            else:
                self.out.stats['sighting-ok'] += 1
                return
        except (TooBig, TypeError, ValueError, AttributeError):
            return
        if self.inner_overreach(known, state, tape):
            self.out.stats['sighting-overreach'] += 1
            return
        raise Violation('invalid-sighting', f'{self.prog}: cycle {self.cycle}: in state {state} on {str(tape)[:200]} a rule is made from counts {seen[1:]}, '
                        'which the plain machine does not get to')

    def inner_overreach(self, known, state, tape):
        """Learnt on the strength of another rule that was carried too far?"""
        if not known:
            return False
        try:
            prover = ns.orig['Prover'](self.m.program)
            prover.rules = known
            tape = tape.clone()
            for _ in range(2_000):
                rule = prover.get_rule(state, tape)
                if rule is not None:
                    start = trim(cells(tape))
                    if ns.orig['apply_rule'](rule, tape) is not None:
                        ref = TM(self.table, 60_000)
                        if not ref.load(state, *start) or \
                                ref.seek(state, *trim(cells(tape)), min_steps=1, fuel=3_000_000) < 0:
                            return True
                        continue
                color, shift, nxt = self.m.program[state, tape.scan]
                tape.step(shift, color, state == nxt)
                state = nxt
        except (TooBig, KeyError, ns.rules.RuleLimit, AttributeError, TypeError):
            pass
        return False

    def shrink_tape(self, tape, scales=(1, 2)):
        import numsem
        t = tape.clone()
        for span in (t.lspan, t.rspan):
            for b in span:
                c = b.count
                if isinstance(c, int) and c <= 24:
                    continue
                try:
                    b.count = numsem.value_mod(c, 12) + 12 * self.rng.choice(scales)
                except numsem.Unknown:
                    return None
        return t

    # -- run

    def run(self, lim):
        self.reset()
        self.prev_cfg = None
        self.absolute = True
        if self.hooks:
            self.hook()
        try:
            self.m.run(lim, watch_tape=True)
        finally:
            if self.hooks:
                self.unhook()
        return self.m
