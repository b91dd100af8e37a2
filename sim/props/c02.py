"""C02: what a run reports about a program is true of the plain machine, one
outcome per run, whatever was injected or run before on the same object."""
import pyengine
import progs
from core import Violation
from plain import TM, parse

ID = 'C02'
BUILDS = ('ref', 'ext')
RUST_IS_HOST = True
RUNS = {'quick': 9000, 'thorough': 500_000}
CPU_LIMIT = 25
RULE = ('one run = one program x a history of 1-4 runs on one interpreter object, each with its own cycle budget and '
        'fault plan (declined/forgotten/refused acceleration, resource refusals, an interrupt inside the run), followed '
        'by the same final run on a fresh object; non-trivial = some run ended with an outcome that could be judged')
REAL = ['tm/machine.py Machine', 'tm/prover.py', 'tm/rules.py', 'tm/tape.py', 'tm/num.py',
        'src/instrs.rs tcompile, src/prover.rs PastConfigs (real Rust, pyo3 stand-in)']
STUB = ['pyo3 (own stand-in over the CPython C API)', 'tape display (replaced by the observer)']
MEASURE = 'distinct (outcome kind, step known, fault kinds, position in history) tuples and outcome values'
ASSUME = ['a proof of non-halting is only refuted when the plain machine stops within 3 million steps',
          'an undefined-slot report after a rule application is judged when the plain machine stops within 3 million steps']

FUEL = 3_000_000
SOFT = ['decline', 'amnesia', 'forget', 'norule', 'loopguess']
HARD = ['limit', 'cfglim', 'applimit', 'interrupt']
CATS = ('cfglim', 'infrul', 'limrul', 'spnout', 'undfnd', 'xlimit')


def setup(conf):
    pyengine.setup(conf)


def gen_faults(rng, lim, hard):
    faults = []
    if rng.random() < .5:
        kinds = rng.sample(SOFT, rng.choice([1, 2]))
        for _ in range(rng.choice([1, 3, 10, 30])):
            faults.append([rng.choice(kinds), int(lim * rng.random() ** 1.5)])
    if hard:
        faults.append([rng.choice(HARD), int(lim * rng.random() ** 3)])
    return faults


def gen(rng, tier):
    k = rng.random()
    prog = progs.rule_prog(rng) if k < .25 else progs.lively_prog(rng) if k < .5 else progs.halting_prog(rng) if k < .75 else progs.any_prog(rng)
    sharp = rng.random() < .1
    if sharp:
        prog = rng.choice(progs.sharp())
    n = rng.choice([0, 0, 1, 1, 2, 3])
    hist = []
    for _ in range(n):
        lim = rng.choice([1, 5, 30, 100, 300])
        hist.append({'lim': lim, 'faults': gen_faults(rng, lim, rng.random() < .5)})
    lim = rng.choice([300, 3000]) if sharp else rng.choice([100, 300, 800, 1500])
    hist.append({'lim': lim, 'faults': gen_faults(rng, lim, rng.random() < .1) if rng.random() < .5 else []})
    return {'prog': prog, 'hist': hist, 'seed': rng.randrange(1 << 30)}


def outcome(m):
    return {c: getattr(m, c, None) for c in CATS if getattr(m, c, None) is not None}


def report(m):
    r = dict(outcome(m))
    r.update(steps=m.steps, cycles=m.cycles, blanks=dict(m.blanks), simple=m.simple_termination)
    for name in ('rulapp', 'marks'):
        v = getattr(m, name)
        r[name] = v if isinstance(v, int) else str(type(v))
    r['susrul'] = m.susrul
    return r


def run(plan, out):
    prog = plan['prog']
    sim = pyengine.Sim(prog, out, seed=plan['seed'], light=True)
    pos = 0
    for pos, h in enumerate(plan['hist']):
        sim.set_faults(h['faults'], plan['seed'] + pos)
        try:
            m = sim.run(h['lim'])
        except pyengine.SimInterrupt:
            out.ev('interrupted', pos)
            if pos == len(plan['hist']) - 1:
                out.nontrivial = False
                return
            continue
        try:
            judge(prog, sim, m, h, out, pos)
        except Violation as v:
            far = overreach(plan, pos, out) if sim.jumps else None
            if far:
                raise Violation('rule-overreach', f'{v.args} because of {far.args}') from v
            raise
    last = plan['hist'][-1]
    rep = report(m)
    if pos:
        fresh = pyengine.Sim(prog, out, seed=plan['seed'], light=True)
        fresh.set_faults(last['faults'], plan['seed'] + pos)
        other = report(fresh.run(last['lim']))
        out.stats['rerun-compared'] += 1
        if other != rep:
            diff = {k: (rep.get(k), other.get(k)) for k in {*rep, *other} if rep.get(k) != other.get(k)}
            raise Violation('rerun-differs', f'{prog}: after {pos} earlier runs on the same object the run reports '
                            f'{str(diff)[:600]} (used, fresh)')


def overreach(plan, pos, out):
    """the same runs again, every jump looked at: was a rule carried too far?"""
    sim = pyengine.Sim(plan['prog'], out, seed=plan['seed'])
    for p, h in enumerate(plan['hist'][:pos + 1]):
        sim.set_faults(h['faults'], plan['seed'] + p)
        try:
            sim.run(h['lim'])
        except pyengine.SimInterrupt:
            pass
    return sim.overreach


def judge(prog, sim, m, h, out, pos):
    o = outcome(m)
    hit = {k for k in sim.hit}
    out.ev(pos, sorted((k, v if isinstance(v, (int, str, tuple)) else 'sym') for k, v in o.items()), m.cycles)
    if len(o) != 1:
        raise Violation('not-one-outcome', f'{prog}: {h}: outcomes {o}')
    kind, = o
    val = o[kind]
    out.stats['outcome:' + kind] += 1
    out.mark(kind, m.steps != -1, sorted(hit), pos)
    out.mark(kind, val if isinstance(val, (int, tuple)) else 0)
    if kind == 'limrul' and not hit & {'limit', 'applimit'} and not sim.real_limit:
        raise Violation('phantom-limit', f'{prog}: limrul {val!r} but nothing refused')
    if kind == 'cfglim' and not hit & {'cfglim'} and not sim.real_limit:
        raise Violation('phantom-limit', f'{prog}: cfglim {val!r} but nothing refused')
    if kind == 'xlimit' and m.cycles != h['lim'] - 1:
        raise Violation('phantom-limit', f'{prog}: budget {h["lim"]} reported exhausted after {m.cycles + 1} cycles')

    table = parse(prog)
    if sim.jumps and m.steps != -1:
        raise Violation('step-count', f'{prog}: an exact step count {m.steps} after {sim.jumps} rule applications')
    if not sim.jumps and m.steps == -1:
        raise Violation('step-count', f'{prog}: no rule was applied, yet the step count is given up')
    if isinstance(m.rulapp, int) and isinstance(sim.times, int) and m.rulapp != sim.times:
        raise Violation('rule-count', f'{prog}: {m.rulapp} rule applications reported, {sim.times} made')

    ref = TM(table, 400_000)
    ref.run(FUEL if kind in ('undfnd', 'infrul', 'spnout') else 20_000)
    info = ref.info()
    halted = info['status'] == 1
    out.stats['t:plain_steps'] += info['steps']
    slot = (info['state'], info['scan'])

    if kind == 'undfnd':
        step, got = val
        if step != m.steps:
            raise Violation('step-count', f'{prog}: undefined at step {step} but {m.steps} steps')
        if halted:
            out.stats['judged:undfnd'] += 1
            if tuple(got) != slot or (step != -1 and step != info['steps']):
                raise Violation('wrong-halt', f'{prog}: reported {val}, the plain machine stops in slot {slot} '
                                f'after {info["steps"]} steps')
            marks(prog, m, info['marks'])
        elif step != -1 and step < info['steps']:
            raise Violation('wrong-halt', f'{prog}: reported {val}, the plain machine goes on past {info["steps"]} steps')
        row = table[got[0]] if got[0] < len(table) else []
        if got[1] < len(row) and row[got[1]] is not None:
            raise Violation('wrong-halt', f'{prog}: reported undefined slot {got} is defined')
    elif kind in ('infrul', 'spnout'):
        if halted:
            raise Violation('refuted-proof', f'{prog}: reported {kind} {val}, the plain machine stops in slot {slot} '
                            f'after {info["steps"]} steps')
        out.stats['judged:' + kind] += 1
        if isinstance(val, int) and val != m.steps:
            raise Violation('step-count', f'{prog}: {kind} {val} but {m.steps} steps')
        if kind == 'spnout' and val != -1 and val <= FUEL:
            r2 = TM(table, 400_000)
            r2.run(val)
            if r2.info()['steps'] == val and r2.info()['status'] != 1 and not spinning(table, r2):
                raise Violation('wrong-spinout', f'{prog}: spin-out reported at step {val}, but there the plain machine '
                                f'is not running off over blanks')
    else:
        if kind == 'xlimit' and val != m.steps:
            raise Violation('step-count', f'{prog}: {kind} {val} but {m.steps} steps')
        if halted and m.steps != -1 and m.steps > info['steps']:
            raise Violation('wrong-halt', f'{prog}: still running after {m.steps} steps, the plain machine stops '
                            f'after {info["steps"]}')

    # blank records
    if m.blanks or m.steps != -1:
        end = m.steps if m.steps != -1 else FUEL
        firsts = blanks_of(table, min(end, 400_000), max([s for s in m.blanks.values() if s != -1] or [0]))
        for st, step in m.blanks.items():
            if step == -1:
                continue
            out.stats['judged:blank'] += 1
            if step <= 400_000 and firsts.get(st) != step:
                raise Violation('wrong-blank', f'{prog}: blank tape in state {st} reported at step {step}; '
                                f'plain machine: {firsts}')
        if m.steps != -1 and m.steps <= 400_000 and set(firsts) - set(m.blanks):
            raise Violation('wrong-blank', f'{prog}: plain machine blanks {firsts}, reported {m.blanks}')


def marks(prog, m, want):
    got = m.marks
    if isinstance(got, int) and got != want:
        raise Violation('wrong-marks', f'{prog}: reported {got} marks at the halt, the tape holds {want}')


def spinning(table, ref):
    st, l, scan, r = ref.config()
    ins = table[st][scan]
    return scan == 0 and ins is not None and ins[2] == st and not (r if ins[1] else l)


def blanks_of(table, end, need):
    """first step at which each state is entered on a blank tape"""
    ref = TM(table, 400_000)
    out = {}
    end = max(end, need)
    at = 0
    for _ in range(64):
        n = ref.seek_blank(end - at)
        if n < 0:
            break
        i = ref.info()
        at = i['steps']
        if at > end:
            break
        out.setdefault(i['state'], at)
    return out


def finding_key(res):
    kind, what = res['violation'][:2]
    return kind if kind == 'rule-overreach' else f'{kind} {what}'
