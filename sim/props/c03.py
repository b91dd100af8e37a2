"""C03: macro machines (grouped cells, remembered cell, one over the other) are
the base machine, whatever else in the process shares their tables."""
import random

import baton
import pyengine
import progs
from core import Violation
from plain import TM, dims, parse

ID = 'C03'
BUILDS = ('ref', 'ext')
RUST_IS_HOST = True
RUNS = {'quick': 8000, 'thorough': 400_000}
CPU_LIMIT = 30
RULE = ('one run = 1-5 macro machines (block 1-7, backsymbol 1-4, both, or the automatic block size) over 1-3 programs '
        'sharing one process, run one after another or interleaved cycle by cycle / line by line by the seeded '
        'scheduler, with interrupts at chosen source lines, re-runs of interrupted machines and eviction of shared '
        'tables; non-trivial = at least one macro transition was replayed on the base machine')
REAL = ['tm/macro.py', 'tm/machine.py', 'tm/prover.py', 'tm/rules.py', 'tm/tape.py', 'tm/num.py',
        'src/blocks.rs opt_block and src/instrs.rs tcompile (real Rust, pyo3 stand-in)']
STUB = ['pyo3 (own stand-in over the CPython C API)', 'tape display (replaced by the observer)',
        'thread scheduler (one thread at a time, chosen by the plan)']
MEASURE = 'distinct (macro kind, state, scan, blocks) tuples and outcome values'
ASSUME = ['non-halting claims are refuted only when the base machine stops within 2 million steps']

CATS = ('cfglim', 'infrul', 'limrul', 'spnout', 'undfnd', 'xlimit')
FUEL = 2_000_000


def setup(conf):
    pyengine.setup(conf)


def gen(rng, tier):
    ps = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        k = rng.random()
        ps.append(progs.lively_prog(rng) if k < .35 else progs.halting_prog(rng) if k < .6 else
                  progs.sparse_prog(rng) if k < .75 else progs.any_prog(rng))
    jobs = []
    for _ in range(rng.choice([1, 2, 3, 5])):
        k = rng.random()
        spec = {'blocks': rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 7])} if k < .45 else \
            {'backsym': rng.choice([1, 1, 2, 2, 3, 4])} if k < .8 else \
            {'blocks': rng.choice([2, 2, 3]), 'backsym': rng.choice([1, 1, 2])} if k < .92 else \
            {'opt_macro': rng.choice([50, 300])}
        job = {'p': rng.randrange(len(ps)), 'kw': spec, 'lim': rng.choice([10, 50, 150, 300])}
        r = rng.random()
        if r < .25:
            job['irq'] = int(2 ** (rng.random() * 11)) + 1
            job['again'] = True
        if rng.random() < .1:
            job['evict'] = True
        if rng.random() < .3:
            job['faults'] = [[rng.choice(['decline', 'amnesia', 'forget', 'norule', 'loopguess']),
                              rng.randrange(job['lim'])] for _ in range(rng.choice([1, 4]))]
        jobs.append(job)
    return {'progs': ps, 'jobs': jobs, 'mode': rng.choice(['serial', 'serial', 'cycles', 'lines']),
            'seed': rng.randrange(1 << 30)}


# ------------------------------------------------- macro configuration -> cells

def flat(tape, limit=6_000):
    def side(span):
        out, total = [], 0
        for b in span:
            n = b.count
            if not isinstance(n, int):
                raise pyengine.TooBig
            total += n
            if total > limit:
                raise pyengine.TooBig
            out += [b.color] * n
        return out
    return side(tape.lspan), tape.scan, side(tape.rspan)


def digits(v, base, cells):
    out = []
    for _ in range(cells):
        v, d = divmod(v, base)
        out.append(d)
    if v:
        raise Violation('bad-colour', f'macro colour does not fit {cells} cells of {base} colours')
    return out[::-1]


def undo_block(state, cfg, base, cells):
    l, s, r = cfg
    st, right = divmod(state, 2)
    mid = digits(s, base, cells)
    left = [c for b in l for c in reversed(digits(b, base, cells))]
    rght = [c for b in r for c in digits(b, base, cells)]
    if right:
        return st, (mid[-2::-1] + left if cells > 1 else left, mid[-1], rght)
    return st, (left, mid[0], mid[1:] + rght)


def undo_back(state, cfg, base, cells):
    r, s, l = cfg       # this macro's tape runs right to left
    sc, at_right = divmod(state, 2)
    st, back = divmod(sc, base ** cells)
    mid = digits(back, base, cells)
    if at_right:
        return st, (l, s, mid + r)
    return st, (mid[::-1] + l, s, r)


def used_colors(prog):
    """colours that can ever be on the tape or own a defined slot"""
    top = 0
    for row in parse(prog):
        for c, ins in enumerate(row):
            if ins is not None:
                top = max(top, c, ins[0])
    return top + 1


def expander(prog, kw, blocks, get):
    """The encoding is positional; how many colours it leaves room for (the
    declared number or the used one) is the macro's own business."""
    cache = []

    def base_of():
        if not cache:
            want = used_colors(prog)
            room = 0
            try:
                p = get().program
                if blocks > 1:
                    if kw.get('backsym') is not None:
                        p = p.comp
                    room = round(p.macro_colors ** (1 / blocks))
                else:
                    room = p.macro_colors
            except AttributeError:
                pass
            cache.append(max(want, room))
        return cache[0]

    def expand(state, tape):
        cfg = flat(tape)
        b = blocks
        bs = kw.get('backsym')
        base = base_of() if b > 1 or bs is not None else 0
        if bs is not None:
            state, cfg = undo_back(state, cfg, base ** b if b > 1 else base, bs)
        if b > 1:
            state, cfg = undo_block(state, cfg, base, b)
        l, s, r = cfg
        return state, bytes(l).rstrip(b'\0'), s, bytes(r).rstrip(b'\0')
    return expand


# ------------------------------------------------- run

def run(plan, out):
    rng = random.Random(plan['seed'])
    out.nontrivial = False
    lines = ('tm/macro.py',)
    sched = None
    mode = plan['mode']
    if mode != 'serial' and len(plan['jobs']) > 1:
        sched = baton.Baton(rng)

    def job_fn(k, job):
        prog = plan['progs'][job['p'] % len(plan['progs'])]
        kw = job['kw']
        if any(v < 1 for v in kw.values()) or job['lim'] < 1:
            return lambda: None         # outside the domain (minimiser)

        def body():
            if job.get('evict'):
                evict(rng, out)
            blocks = kw.get('blocks')
            if 'opt_macro' in kw:
                blocks = pyengine.ns.macro.opt_block(prog, kw['opt_macro'])
            sim = pyengine.Sim(prog, out, kw=kw, expander=expander(prog, kw, blocks or 1, lambda: sim.m),
                               faults=job.get('faults', ()), seed=plan['seed'] + k,
                               on_cycle=(sched.yield_point if sched else None), hooks=not sched)
            try:
                go(sim)
            finally:
                judge(prog, kw, sim, job, out)

        def go(sim):
            if job.get('irq') and not sched:
                with baton.LineFaults(lines, at=job['irq']) as lf:
                    try:
                        sim.run(job['lim'])
                    except baton.Interrupt:
                        pass
                if lf.fired:
                    out.faults['interrupt'] += 1
                    out.mark('irq', lf.fired)
                    out.ev('irq', k)
                    if job.get('again'):
                        sim.run(job['lim'])
                        out.stats['rerun-after-interrupt'] += 1
            else:
                sim.run(job['lim'])
        return body

    if sched is None:
        for k, job in enumerate(plan['jobs']):
            job_fn(k, job)()
    else:
        for k, job in enumerate(plan['jobs']):
            tr = baton.LineFaults(lines, hook=lambda: rng.random() < .2 and sched.yield_point()) \
                if mode == 'lines' else None
            sched.spawn(job_fn(k, job), tr)
        sched.run()
        out.faults['preemption'] += sched.switches
        out.ev('switches', sched.switches)
        for k in sorted(sched.errors):
            e = sched.errors[k]
            if isinstance(e, Violation) or not isinstance(e, Exception):
                raise e
        for k in sorted(sched.errors):
            e = sched.errors[k]
            raise Violation('crash', f'{plan["jobs"][k]} on {plan["progs"]}: {type(e).__name__}: {e}') from e
    out.nontrivial = out.stats['exact-step'] + out.stats['exact-jump'] > 0


def evict(rng, out):
    m = pyengine.ns.macro
    for name in ('CONVERTERS', 'BLOCKS', 'BACKSYMS'):
        d = getattr(m, name, None)
        if isinstance(d, dict) and d and rng.random() < .6:
            d.clear()
            out.faults['evict'] += 1


def judge(prog, kw, sim, job, out):
    m = sim.m
    o = {c: getattr(m, c, None) for c in CATS if getattr(m, c, None) is not None}
    out.ev('end', sorted(o), sim.cycles_seen)
    out.stats['t:cycles'] += 0
    for c in o:
        out.stats['outcome:' + c] += 1
    if not o:
        return
    if not {'undfnd', 'infrul', 'spnout'} & set(o):
        return
    table = parse(prog)
    ref = TM(table, 200_000)
    ref.run(FUEL)
    info = ref.info()
    halted = info['status'] == 1
    slot = (info['state'], info['scan'])
    if 'undfnd' in o:
        step, got = o['undfnd']
        if halted:
            out.stats['judged:undfnd'] += 1
            if tuple(got) != slot:
                raise Violation('wrong-halt', f'{prog} {kw}: reports undefined slot {got}, the base machine stops '
                                f'in {slot} after {info["steps"]} steps')
        elif not sim.jumps and info['status'] == 0:
            raise Violation('wrong-halt', f'{prog} {kw}: reports undefined slot {got} in {sim.cycles_seen} macro steps, '
                            f'the base machine runs past {info["steps"]} steps')
    elif halted:
        raise Violation('refuted-proof', f'{prog} {kw}: reports {o}, the base machine stops in slot {slot} '
                        f'after {info["steps"]} steps')
    else:
        out.stats['judged:nonhalt'] += 1
