"""C06: a run depends on nothing but its own program and limits."""
import json
import os
import pickle
import random
import re
import subprocess
import sys
import threading

import baton
import c04
import entropy
import env
import numsem
import progs
from build import VERIF
from core import Outcome, Violation

ID = 'C06'
BUILDS = ('ref', 'ext', 'simrand')
RUST_IS_HOST = True
RUNS = {'quick': 1000, 'thorough': 200_000}
CPU_LIMIT = 40
RULE = ('one run = a job (a watched run of the Python engine, plain or macro; symbolic arithmetic; a run or decision of '
        'the Rust side; normal forms and graphs) done in a process of its own, and again after a history of 0-6 other '
        'jobs, some interrupted at a source line, or as one of 2-4 callers interleaved line by line, under other hash '
        'seeds; non-trivial = the history was not empty and the job reported something')
REAL = ['tm/*.py', 'tools/*.py', 'src/*.rs (real Rust, pyo3 stand-in)']
STUB = ['pyo3 (own stand-in)', 'getrandom (seeded)', 'callers (real threads, scheduled one at a time)']
MEASURE = 'distinct (job kind, history kinds, interleaved or not, interrupt site) tuples'
ASSUME = ['colors of macro machines are numbered in the order a process meets them, so displays are compared up to that numbering']

FILES = ('tm/num.py', 'tm/macro.py', 'tm/machine.py', 'tm/prover.py', 'tm/rules.py', 'tm/tape.py', 'tm/show.py',
         'tm/parse.py', 'tools/normalize.py', 'tools/tree_norm.py', 'tools/graph.py', 'tools/instr_seq.py', 'tools/c.py')
SYM = None
CONF = None
M = None


def setup(conf):
    global SYM, M
    c04.setup(conf)
    entropy.setup(conf)
    import tm.machine
    import tm.reason  # noqa: F401
    M = tm.machine
    SYM = json.loads((VERIF / 'data' / 'symbolic.json').read_text())
    for name in ('tools.normalize', 'tools.tree_norm', 'tools.graph', 'tools.instr_seq', 'tools.c'):
        __import__(name)


# ------------------------------------------------------------------- jobs

def gen_job(rng, light=False):
    k = rng.random()
    if k < .3:
        prog, kw, cyc = rng.choice(SYM)
        if light and cyc > 700:
            cyc = 700
        return {'k': 'm', 'prog': prog, 'kw': kw, 'lim': cyc + rng.choice([1, -20, -100]), 'watch': rng.random() < .7}
    if k < .6:
        c = rng.random()
        prog = progs.lively_prog(rng) if c < .5 else progs.sparse_prog(rng) if c < .6 else progs.any_prog(rng)
        kw = rng.choice([{}, {}, {'blocks': rng.randint(2, 5)}, {'backsym': rng.randint(1, 3)},
                         {'blocks': rng.randint(2, 4), 'backsym': 1}, {'opt_macro': rng.choice([50, 300])}])
        return {'k': 'm', 'prog': prog, 'kw': kw, 'lim': rng.choice([30, 200, 200 if light else 900]), 'watch': rng.random() < .7}
    if k < .75:
        b = rng.choice(c04.BASES)
        return {'k': 'n', 'base': b, 'start': [rng.randint(60, 400) for _ in range(2)],
                'ops': c04.gen_ops(rng, b, rng.choice([6, 15, 30]))}
    prog = rng.choice(SYM)[0] if rng.random() < .2 else progs.any_prog(rng)
    if k < .93:
        return {'k': 'r', 'prog': prog, 'lim': rng.choice([10, 100, 400])}
    return {'k': 't', 'prog': progs.any_prog(rng)}


def gen(rng, tier):
    job = gen_job(rng)
    threads = rng.random() < .35
    if threads:
        job = gen_job(rng, True)
    hist = [gen_job(rng, threads) for _ in range(rng.choice([0, 1, 2, 3]) if threads else rng.choice([1, 2, 3, 6]))]
    if rng.random() < .5:          # near relatives share most
        for h in hist:
            if rng.random() < .5:
                h.clear()
                h.update(json.loads(json.dumps(job)))
                if h['k'] == 'n':
                    h['ops'] = h['ops'][:rng.randint(1, len(h['ops']))]
                elif h['k'] == 'm' and rng.random() < .5:
                    h['kw'] = rng.choice([{}, {'blocks': 2}, {'backsym': 1}, {'blocks': 3}])
    for h in hist:
        if rng.random() < .3:
            h['irq'] = 1 + int(2 ** (rng.random() * 14))
    return {'job': job, 'hist': hist, 'others': [gen_job(rng, True) for _ in range(rng.choice([1, 1, 2, 3]))] if threads else [],
            'pyhash': rng.randrange(1, 1 << 30) if rng.random() < (.5 if job['k'] == 't' else .07) else 0,
            'seed': rng.randrange(1 << 30), 'gap': rng.choice([1, 3, 10, 40, 200, 1000]), 'hash': [rng.randrange(1 << 30), rng.randrange(1 << 30)]}


REFUSE = (NotImplementedError, AssertionError, OverflowError, RecursionError)


def do(job, put):
    """Run a job; put(text) takes the pieces of its report."""
    try:
        KINDS[job['k']](job, put)
    except baton.Interrupt:
        raise
    except RecursionError:
        # depth of the stack is the caller's: no report
        raise
    except Exception as e:
        put(f'raised {type(e).__name__}: {str(e)[:200]}')


def machine(job, put):
    kw = {k: v for k, v in job.get('kw', {}).items() if k in ('blocks', 'backsym', 'opt_macro')}
    m = M.Machine(job['prog'], **kw)
    macro = bool(kw)
    if job.get('watch'):
        canon = {}

        class Watched(M.Machine):
            def show_tape(self, step, cycle, state):
                # the numbering of states and colors of a macro is the process's
                if macro:
                    put(f'{cycle} {step} ' + relabel(self.tape, canon))
                else:
                    put(f'{cycle} {step} {state} {self.tape}')
        m.__class__ = Watched
    m.run(max(1, job['lim']), watch_tape=bool(job.get('watch')))
    tail = str(m)
    if macro:
        # names of states and slots of a macro carry its numbering
        tail = re.sub(r'UNDFND: \((-?\d+), \(.*?\)\)', r'UNDFND: \1', tail)
    put(tail)
    put(f'{m.steps} {m.cycles} {show(m.marks)} {show(m.rulapp)} {m.susrul} {m.simple_termination}')
    put(f'blanks {sorted(m.blanks.values())}')
    if not macro:
        put(f'{m.undfnd} {sorted(m.blanks.items())}')


def show(x):
    if isinstance(x, int):
        return hex(x)
    return f'{x!s:.2000} {type(x).__name__}'


def relabel(tape, canon):
    def lab(c):
        return 0 if c == 0 else canon.setdefault(c, len(canon) + 1)
    spans = []
    for span in (tape.lspan, tape.rspan):
        spans.append(' '.join(f'{lab(b.color)}^{show(b.count)}' for b in span))
    return f'{spans[0]} [{lab(tape.scan)}] {spans[1]}'


def numbers(job, put):
    c = c04.Caller({'base': job['base'], 'start': job['start'], 'ops': job['ops']}, 0, Outcome())
    c.judge = lambda *a: None
    c.compare = lambda x, sx, y, sy, dry: (x < y if isinstance(x, int) != isinstance(y, int) or not isinstance(x, int) else 0)
    for _ in job['ops']:
        try:
            c.step(0)
        except Violation:
            pass
        put(c04.show(c.results[-1]) if c.results else '')


def rust(job, put):
    import tm.reason
    import tm.rust_stuff as R
    p, lim = job['prog'], max(1, job['lim'])
    for fn in (R.run_prover, R.run_quick_machine):
        r = fn(p, lim)
        put(f'{r.result} {r.steps} {r.cycles} {r.marks} {r.rulapp} {r.last_slot} {sorted(r.blanks.items())}')
    put(R.py_quick_term_or_rec(p, lim))
    put(R.py_opt_block(p, lim))
    for fn in (tm.reason.cant_halt, tm.reason.cant_blank, tm.reason.cant_spin_out):
        put(fn(p, min(lim, 60)))
    put(tm.reason.segment_cant_halt(p, 3 + lim % 3))
    put(R.tcompile(p))


def tools(job, put):
    from tools.c import make_c
    from tools.dot import make_dot
    from tools.graph import Graph
    from tools.normalize import normalize
    p = job['prog']

    def graph():
        g = Graph(p)
        return [str(g), g.is_normal, g.is_connected, g.is_simple, g.is_dispersed, sorted(g.reflexive_states),
                sorted(map(str, g.entry_points.items())), sorted((s, sorted(map(str, t))) for s, t in g.exit_points.items()),
                sorted((s, sorted(map(str, t))) for s, t in g.reduced.items())]
    for fn in (lambda: normalize(p), graph, lambda: make_c(p), lambda: sorted(make_dot(p).split('\n'))):
        try:
            put(fn())
        except RecursionError:
            raise
        except Exception as e:
            put(f'raised {type(e).__name__}: {str(e)[:200]}')


KINDS = {'m': machine, 'n': numbers, 'r': rust, 't': tools}


# -------------------------------------------------------------- executions

def alone(job, seed):
    """The job in a process of its own."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        lines = []
        try:
            entropy.call(seed, do, job, lambda x: lines.append(str(x)))
            res = ('ok', lines)
        except RecursionError:
            res = ('recursion', lines)
        except MemoryError:
            res = ('memory', [])
        except BaseException as e:
            res = ('error', [repr(e)])
        try:
            with os.fdopen(w, 'wb') as f:
                pickle.dump(res, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else ('died', [])


def solo(text):
    """in an interpreter of its own: job in, report out"""
    job, seed = json.loads(text)
    lines = []
    try:
        entropy.call(seed, do, job, lambda x: lines.append(str(x)))
    except (RecursionError, MemoryError):
        return None
    return lines


def elsewhere(job, seed, pyhash):
    envv = dict(os.environ, PYTHONHASHSEED=str(pyhash % 4294967296), PYTHONDONTWRITEBYTECODE='1')
    p = subprocess.run([sys.executable, '-B', str(VERIF / 'sim' / 'main.py'), 'solo', ID, json.dumps(CONF)],
                       input=json.dumps([job, seed]).encode(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=envv)
    return pickle.loads(p.stdout) if p.returncode == 0 and p.stdout else None


def run(plan, out):
    job = plan.get('job', {})
    hist = [h for h in plan.get('hist', []) if isinstance(h, dict) and 'k' in h]
    others = [h for h in plan.get('others', []) if isinstance(h, dict) and 'k' in h]
    if 'k' not in job:
        return
    h1, h2 = (list(plan.get('hash', [])) + [0, 0])[:2]
    status, want = alone(job, h1)
    if status in ('recursion', 'memory', 'died'):
        out.nontrivial = False
        out.stats['alone: ' + status] += 1
        return
    if status == 'error':
        raise RuntimeError(want[0])
    if plan.get('pyhash'):
        there = elsewhere(job, h2, plan['pyhash'])
        if there is not None:
            out.faults['python hash seed changed'] += 1
            compare(job, there, want, 'in an interpreter with another hash seed')
    kinds = []
    for h in hist:
        kinds.append(h['k'])
        with baton.LineFaults(FILES, at=h.get('irq') or None) as lf:
            try:
                do(h, lambda x: None)
            except (baton.Interrupt, RecursionError, MemoryError):
                pass
        if lf.fired:
            out.faults['interrupt'] += 1
            out.mark('irq', lf.fired)
    got = []
    put = lambda x: got.append(str(x))  # noqa: E731
    if others:
        rng = random.Random(plan.get('seed', 0))
        b = baton.Baton(rng)
        gap = max(1, abs(plan.get('gap', 1)))

        def tracer():
            # switches come in seeded gaps of traced lines
            left = [rng.randrange(2 * gap)]

            def hook():
                left[0] -= 1
                if left[0] < 0:
                    left[0] = rng.randrange(2 * gap)
                    b.yield_point()
            return baton.LineFaults(FILES, hook=hook)

        entropy.LIB.simrand_seed(h2)
        threading.stack_size(64 << 20)
        b.spawn(lambda: do(job, put), tracer())
        for h in others:
            kinds.append('|' + h['k'])
            b.spawn(lambda h=h: do(h, lambda x: None), tracer())
        b.run()
        out.faults['thread switch'] += b.switches
        out.stats['t:switches'] += b.switches
        for k, e in b.errors.items():
            if k == 0 and isinstance(e, RecursionError):
                out.nontrivial = False
                return
            if not isinstance(e, (RecursionError, MemoryError)):
                raise e
    else:
        try:
            entropy.call(h2, do, job, put)
        except RecursionError:
            out.nontrivial = False
            return
    out.stats['t:jobs'] += 1 + len(kinds)
    out.faults['hash seeds changed'] += h1 != h2
    out.mark(job['k'], sorted(set(kinds)), bool(others))
    out.nontrivial = bool(kinds) and bool(want)
    for x in want:
        out.ev(x)
    compare(job, got, want, 'here')


def compare(job, got, want, where):
    if got != want:
        for n, (a, c) in enumerate(zip(got + [None] * len(want), want + [None] * len(got))):
            if a != c:
                raise Violation('differs', f'{describe(job)}: line {n} of its report is {str(a)[:300]!r} {where}, '
                                f'{str(c)[:300]!r} in a process of its own')


def describe(job):
    return f'{job["k"]} {job.get("prog", job.get("base"))} {job.get("kw", "")} lim {job.get("lim", "")}'
