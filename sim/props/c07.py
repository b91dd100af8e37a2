"""C07: the program tree, each leaf once, under any schedule of its threads."""
import collections
import ctypes
import os

import env
from core import Violation

ID = 'C07'
BUILDS = ('treeref', 'ext_sim')
RUNS = {'quick': 1500, 'thorough': 60_000}
CPU_LIMIT = 120
RULE = ('one run = one call of tree_progs (2-4 states, 2-4 colors, either halt mode, step limit 0-900) on 1-16 '
        'simulated threads; the seeded scheduler decides which thread takes which branch and every switch at a lock, '
        'unlock or branch start; non-trivial = the schedule log differs')
REAL = ['src/tree.rs, src/tape.rs, src/instrs.rs (whole crate, real Rust)']
STUB = ['rayon (branches handed to simulated threads)', 'std::sync (locks with scheduling points)', 'pyo3 (own stand-in)']
MEASURE = 'distinct schedule digests (order of threads at every decision)'
ASSUME = ['a leaf reads as the documented text form', 'trees up to about half a million leaves']
DEADLOCK = 97
REF = RUST = None


def setup(conf):
    global REF, RUST
    RUST = env.load_ext(conf['ext_sim'])
    REF = ctypes.CDLL(conf['treeref'])
    REF.tree.restype = ctypes.c_long
    REF.tree.argtypes = [ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long,
                         ctypes.POINTER(ctypes.c_void_p), ctypes.POINTER(ctypes.c_size_t)]


def tree(s, c, halt, lim):
    p, n = ctypes.c_void_p(), ctypes.c_size_t()
    REF.tree(s, c, int(halt), lim, ctypes.byref(p), ctypes.byref(n))
    text = ctypes.string_at(p, n.value).decode() if n.value else ''
    ctypes.CDLL(None).free(p)
    return text.split('\n')[:-1]


SMALL = [(2, 2, 0), (2, 2, 1), (2, 3, 1), (3, 2, 1), (2, 3, 0), (3, 2, 0)]
BIG = [(2, 4, 1), (4, 2, 1)]


def gen(rng, tier):
    k = rng.random()
    s, c, h = rng.choice(SMALL) if k < .985 else rng.choice(BIG)
    big = (s, c, h) in BIG
    lim = rng.choice([0, 1, 2, 3, 4, 5, 7, 10, 20, 50, 100, 300, 876]) if rng.random() < .7 else rng.randrange(60)
    return {'params': [s, c], 'halt': h, 'lim': lim, 'threads': rng.choice([1, 2, 3, 4, 8, 16]),
            'seed': rng.randrange(1 << 30),
            'switch': rng.choice([1, 5]) if big else rng.choice([0, 5, 50, 200, 500, 1000]),
            'cut': rng.choice([1 << 40] * 3 + [200])}


def on_death(what):
    if what == f'exit:{DEADLOCK}':
        return ('deadlock', 'every thread waits for a lock another one holds')
    if what.startswith(('died', 'exit')):
        return ('crash', f'the call ended the process ({what})')
    return what


def run(plan, out):
    s, c = (list(plan.get('params', [])) + [0, 0])[:2]
    halt, lim = bool(plan.get('halt')), abs(plan.get('lim', 0))
    if not (2 <= s <= 5 and 2 <= c <= 5 and s * c <= 8) or lim > 2000 or (s * c == 8 and not halt):
        out.nontrivial = False
        return
    fd = os.memfd_create('simrt')
    for k, v in (('THREADS', max(1, min(64, abs(plan.get('threads', 1))))), ('SEED', abs(plan.get('seed', 0))),
                 ('SWITCH', abs(plan.get('switch', 0))), ('CUT', abs(plan.get('cut', 0))), ('LOG', fd)):
        os.environ['SIMRT_' + k] = str(v)
    try:
        got = RUST.tree_progs((s, c), halt, lim)
    except Exception as e:
        raise Violation('crash', f'tree_progs(({s}, {c}), {halt}, {lim}) raised {type(e).__name__}: {e}') from e
    log = os.pread(fd, 1 << 16, 0).decode().split('\n')[:-1]
    for line in log:
        points, decisions, switches, contended, digest = line.split()
        out.stats['t:scheduling points'] += int(points)
        out.stats['decisions'] += int(decisions)
        out.faults['thread switch'] += int(switches)
        out.faults['blocked on a held lock'] += int(contended)
        out.mark(digest)
        out.ev('region', line)
    want = tree(s, c, halt, lim)
    out.ev(len(got), len(want))
    out.stats['leaves'] += len(want)
    if len(got) == len(want) and sorted(got) == sorted(want):
        return
    g, w = collections.Counter(got), collections.Counter(want)
    what = f'tree_progs(({s}, {c}), {halt}, {lim}): '
    lost, extra = w - g, g - w
    if lost:
        raise Violation('lost', what + f'{sum(lost.values())} leaves missing, e.g. {min(lost)!r} ({len(got)} of {len(want)})')
    k = min(extra)
    raise Violation('twice' if k in w else 'extra',
                    what + f'{sum(extra.values())} too many, e.g. {k!r} returned {g[k]} times, expected {w[k]}')
