"""C12: the batch machines answer every program of their input."""
import ctypes
import functools
import os
import subprocess
from pathlib import Path

from core import Inconclusive, Violation

ID = 'C12'
BUILDS = ('batch', 'batchref')
RUNS = {'quick': 7000, 'thorough': 400_000}
CPU_LIMIT = 60
RULE = ('one run = a stream of 0-300 programs fed to one of the compiled batch machines in reads of the planned sizes, ended or '
        'broken off at a planned byte, its writes as short as planned; non-trivial = at least one program was answered')
REAL = ['machines/*.c, machines/machine.h compiled with gcc -fsanitize=bounds', 'C standard library streams']
STUB = ['devices behind standard input and output (fopencookie)']
MEASURE = 'distinct (machine, kinds of ending met, kind after kind, fault kinds, place of the end within a record) tuples observed'
ASSUME = ['programs are well formed for their machine: states it has, or H']
# instructions a machine follows a program for, at least: what each was made for
FLOOR = {'2-2': 40, '2-3': 300, '2-4': 33_554_432, '3-2': 65_536, '4-2': 35_000_000, '5-2': 134_217_728}
WEIGHTS = ['2-2'] * 5 + ['2-3'] * 5 + ['3-2'] * 5 + ['2-4'] * 3 + ['4-2'] * 3 + ['5-2']


def setup(conf):
    global BIN, REF, LIMITS
    BIN = Path(conf['batch'])
    REF = ctypes.CDLL(conf['batchref'])
    REF.batch_ref.argtypes = [ctypes.c_int, ctypes.c_int, ctypes.POINTER(ctypes.c_int16), ctypes.c_long, ctypes.POINTER(ctypes.c_long)]
    LIMITS = {}


def machine(name):
    if name not in LIMITS:
        if not (BIN / name).exists():
            raise Violation('no-machine', name)
        words = subprocess.run([str(BIN / name), 'x'], capture_output=True, text=True).stdout.split()
        LIMITS[name] = max(FLOOR[name], int(words[0]))
    s, c = map(int, name.split('-'))
    return s, c, LIMITS[name]


def truth(states, colors, prog, limit):
    """(instructions begun, marks), or None when it goes on"""
    n = 3 * states * colors
    table = (ctypes.c_int16 * n)(1, 1, 1)
    for i in range(3, n, 3):
        p, s, t = prog[i - 3:i]
        table[i], table[i + 1], table[i + 2] = int(p), s == 'R', ord(t) - 65
    out = (ctypes.c_long * 2)()
    return tuple(out) if REF.batch_ref(states, colors, table, limit, out) == 1 else None


def pretty(colors, prog):
    words = ['1RB'] + [prog[i:i + 3] for i in range(0, len(prog), 3)]
    return '  '.join(' '.join(words[i:i + colors]) for i in range(0, len(words), colors))


def rand_prog(rng, states, colors):
    halt = rng.choice([0, 0, .1, .3])
    same = rng.choice([0, 0, .3])
    out = []
    for s in range(states):
        for c in range(colors):
            if s + c:
                t = 'H' if rng.random() < halt else chr(65 + (s if rng.random() < same else rng.randrange(states)))
                out.append(f'{rng.randrange(colors)}{rng.choice("LR")}{t}')
    return ''.join(out)


def runner(rng, states, colors):
    """off in one direction, through two states, for good"""
    prog = list(rand_prog(rng, states, colors))
    i = 3 * colors - 3
    prog[i:i + 3] = f'{rng.randrange(1, colors)}R' + rng.choice('A' if states == 2 else 'AC')
    if prog[i + 2] == 'C':
        prog[i + 3 * colors:i + 3 * colors + 3] = '1R' + rng.choice('AB')
    return ''.join(prog)


@functools.lru_cache
def lasting_progs():
    """programs that stop late, by machine"""
    return [l.split('\t') for l in (Path(__file__).parents[2] / 'data' / 'long.txt').read_text().splitlines()]


def gen(rng, tier):
    name = rng.choice(WEIGHTS)
    s, c = map(int, name.split('-'))
    small = name in ('2-2', '2-3')
    limit = machine(name)[2]
    n = rng.choice([0, 1, 2, 5, 20, 60, 300] if small else [1, 3, 10, 30, 60] if name == '3-2' else [1, 2, 4, 8, 16])
    ours, long = [], 0
    while len(ours) < n:
        p = runner(rng, s, c) if rng.random() < .03 else rng.choice(ours) if ours and rng.random() < .05 else rand_prog(rng, s, c)
        if not small and truth(s, c, p, min(limit, 400_000)) is None:
            if long >= (2 if limit < 100_000 else 1) or rng.random() < (.5 if limit < 100_000 else .97):
                continue
            long += 1
        ours.append(p)
    lasting = [p for m, p in lasting_progs() if m == name]
    if ours and lasting and rng.random() < (.3 if name == '5-2' else .1):
        ours[rng.randrange(len(ours))] = rng.choice(lasting)
    size = sum(len(p) + 1 for p in ours)
    return {'machine': name, 'progs': ours, 'last_newline': rng.random() < .7,
            'end': rng.randrange(size + 1) if rng.random() < .25 else -1, 'fail': rng.random() < .3,
            'reads': [rng.choice([1, 2, 3, 7, 64, 4096]) for _ in range(rng.choice([0, 0, 4, 40, 400]))],
            'writes': [rng.choice([1, 2, 5, 30]) for _ in range(rng.choice([0, 0, 3, 30]))]}


def run(plan, out):
    s, c, limit = machine(plan['machine'])
    progs = plan['progs']
    width = 3 * s * c - 3
    text = ''.join(p + '\n' for p in progs)
    if not plan['last_newline']:
        text = text[:-1]
    end = len(text) if plan['end'] < 0 else min(plan['end'], len(text))
    expect, kinds = [], []
    for i, p in enumerate(progs):
        if end < i * (width + 1) + width:
            break
        got = truth(s, c, p, limit)
        kinds.append('on' if got is None else 'blank' if got[1] == 0 else 'stop')
        out.stats['t:plain_steps'] += got[0] if got else limit
        if got and got[0] < limit:
            expect.append(f'{i + 1} | {pretty(c, p)} | {got[0]} | {got[1]}\n')
        out.stats[kinds[-1]] += 1
    expect.append('done\n')
    want = ''.join(expect)
    fd = os.memfd_create('input')
    os.write(fd, text.encode())
    try:
        r = subprocess.run([str(BIN / plan['machine']), f'/proc/self/fd/{fd}', ','.join(map(str, plan['reads'])), str(end),
                            str(int(plan['fail'])), ','.join(map(str, plan['writes']))], pass_fds=[fd],
                           stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=200)
    except subprocess.TimeoutExpired:
        raise Inconclusive('slow') from None
    finally:
        os.close(fd)
    got = r.stdout.decode(errors='replace')
    at = end % (width + 1) if end < len(text) else -1
    for k, on in (('short-read', plan['reads']), ('short-write', plan['writes']), ('early-end', end < len(text) and not plan['fail']),
                  ('read-error', plan['fail']), ('no-last-newline', not plan['last_newline'] and end == len(text))):
        if on:
            out.faults[k] += 1
    for a, b in zip(kinds, kinds[1:]):
        out.mark(plan['machine'], a, b)
    out.mark(plan['machine'], at, plan['fail'], bool(plan['reads']))
    out.ev(want)
    out.stats['answered'] += len(expect) - 1
    out.nontrivial = bool(kinds)
    if 'runtime error' in r.stderr.decode(errors='replace'):
        raise Violation('out-of-bounds', f'{plan["machine"]}: {r.stderr.decode(errors="replace")[:300]}')
    if r.returncode:
        raise Violation('died', f'{plan["machine"]}: status {r.returncode} after {got[-100:]!r}')
    if got != want:
        a, b = got.splitlines(), want.splitlines()
        for x, y in zip(a + ['nothing'], b + ['nothing']):
            if x != y:
                raise Violation('wrong-answer', f'{plan["machine"]}: says {x!r}, not {y!r}')
        raise Violation('wrong-answer', f'{plan["machine"]}: {got[-80:]!r} instead of {want[-80:]!r}')


def shrink(plan):
    ps = plan['progs']
    for k in range(len(ps)):
        if len(ps) > 1:
            yield {**plan, 'progs': [ps[k]]}
    for k in range(len(ps) - 1):
        yield {**plan, 'progs': ps[k:k + 2]}
    for key, v in (('reads', []), ('writes', []), ('fail', False), ('end', -1), ('last_newline', True)):
        if plan[key] != v:
            yield {**plan, key: v}
