"""C08: the parallel filter prints every kept program once, whole, whatever its
workers do."""
import collections
import random
import runpy  # noqa: F401  (the script runs the way runpy would run it)
import sys
import types

import env
import progs
import simpool
from build import REPO
from core import Violation

ID = 'C08'
BUILDS = ('ref', 'ext')
RUNS = {'quick': 3000, 'thorough': 150_000}
CPU_LIMIT = 30
RULE = ('one run = the real script over an input of 0-400 programs on a simulated pool of 1-8 workers: the plan decides '
        'who takes which chunk, whose write comes next, how input arrives and whether idle workers leave or are ended '
        'at shutdown; non-trivial = the event log differs and at least one program was kept')
REAL = ['just_so.py', 'tm/reason.py', 'src/reason.rs, src/segment.rs (real Rust, pyo3 stand-in)',
        'text and buffer layers of the workers\' standard output', 'process memory (workers are forked)']
STUB = ['multiprocessing.Pool (simulated after its documentation and source)', 'write(2) on standard output',
        'standard input device', 'pyo3 (own stand-in)']
MEASURE = 'distinct (event, worker states, queue length) scheduling points'
ASSUME = ['fork start method', 'programs are valid', 'workers are not killed in the middle of a task']
MODES = {'--halt': 'cant_halt', '--blank': 'cant_blank', '--spinout': 'cant_spin_out', '--segment': 'segment_cant_halt',
         '': 'cant_spin_out'}


def setup(conf):
    env.setup(conf['so'])
    import tm.reason  # noqa: F401


def gen(rng, tier):
    k = rng.choice([0, 1, 2, 5, 12, 30, 60, 120]) if rng.random() < .8 else rng.choice([250, 400])
    pool = [progs.any_prog(rng) for _ in range(max(1, min(k, rng.choice([3, 20, 60]))))]
    if rng.random() < .5:
        pool += [p for p in progs.corpus() if rng.random() < .05]
    lines = [rng.choice(pool) for _ in range(k)]
    mode = rng.choice(['', '', '--halt', '--blank', '--spinout', '--segment'])
    style = rng.choice(['random', 'random', 'runs', 'reverse', 'zero'])
    n = rng.choice([0, 20, 100, 400])
    picks = [rng.randrange(64) for _ in range(n)] if style == 'random' else \
        [7] * n if style == 'reverse' else [] if style == 'zero' else \
        [x for _ in range(n // 8 + 1) for x in [rng.randrange(8)] * rng.randrange(1, 8)]
    return {'lines': lines, 'mode': mode, 'cycles': rng.choice([0, 0, 1, 5, 20, 60]) if mode != '--segment' else 0,
            'ncpu': rng.choice([1, 2, 2, 3, 4, 8]), 'picks': picks,
            'stdout': rng.choice(['file', 'file', 'file', 'tty', 'unbuffered']),
            'reads': [rng.choice([1, 3, 17, 64, 500, 4096]) for _ in range(rng.choice([0, 0, 5, 40]))],
            'last_newline': rng.random() < .8, 'pad': rng.random() < .15}


def run(plan, out):
    lines = [s for s in plan.get('lines', []) if isinstance(s, str) and s.strip()]
    if plan.get('mode') not in MODES:
        return
    text = ''.join((('  ' if plan.get('pad') and i % 3 == 0 else '') + s + ('  ' if plan.get('pad') and i % 2 else '')
                    + '\n') for i, s in enumerate(lines))
    if lines and not plan.get('last_newline', True):
        text = text[:-1]
    cycles = abs(plan.get('cycles') or 0)
    import tm.reason
    decide = getattr(tm.reason, MODES[plan['mode']])
    limit = 20 if plan['mode'] == '--segment' else cycles or 2000
    if limit > 60 and len(set(lines)) > 40:
        limit = cycles = 60
    keep = {}
    for s in lines:
        if s not in keep:
            try:
                keep[s] = decide(s, limit) is None
            except BaseException as e:       # a program the decider refuses
                if isinstance(e, (KeyboardInterrupt, SystemExit, MemoryError)):
                    raise
                out.nontrivial = False
                out.stats['decider refused'] += 1
                return
    expect = collections.Counter(s.strip() for s in lines if keep[s])

    world = simpool.World(out, simpool.Chooser(plan.get('picks', [])), max(1, min(16, abs(plan.get('ncpu', 1)) or 1)),
                          plan.get('stdout', 'file'))
    simpool.install(world)
    sys.stdin, raw = simpool.text_in(text.encode(), plan.get('reads', []))
    sys.stdout = simpool.text_out(world.main_put, world.mode)
    argv = [str(REPO / 'just_so.py')]
    if plan['mode']:
        argv.append(plan['mode'])
    if cycles and plan['mode'] != '--segment':
        argv += ['--cycles', str(cycles)]
    sys.argv = argv
    main = types.ModuleType('__main__')
    main.__file__ = argv[0]
    sys.modules['__main__'] = main
    sys.path.insert(0, str(REPO))
    try:
        exec(compile(open(argv[0]).read(), argv[0], 'exec'), main.__dict__)
        for p in world.pools:      # interpreter exit
            p.terminate()
        sys.stdout.flush()
    except simpool.Hang as e:
        raise Violation('hang', str(e)) from e
    except SystemExit as e:
        if e.code not in (None, 0):
            raise Violation('exit', f'the filter exited with {e.code!r}') from e
    finally:
        for p in world.pools:
            for q in p.procs:
                q.gone(kill=True)
    if raw.short:
        out.faults['short read'] += raw.short
    out.stats['programs'] += len(lines)
    out.stats['kept'] += sum(expect.values())
    out.stats['t:events'] += out.events
    out.nontrivial = bool(expect)
    data = world.text().decode(errors='replace')
    got = collections.Counter(data.split('\n'))
    if data and not data.endswith('\n'):
        raise Violation('torn', f'output ends without a newline: {data[-80:]!r}')
    got[''] -= 1
    got = +got
    bad = got - expect
    if bad:
        k = min(bad)
        raise Violation('torn' if k not in {s.strip() for s in lines} else 'extra', f'printed {k!r} {got[k]} times, expected {expect[k]}')
    lost = expect - got
    if lost:
        k = min(lost)
        raise Violation('lost', f'{sum(lost.values())} kept programs not printed, e.g. {k!r}: {got[k]} of {expect[k]}')
