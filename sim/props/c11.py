"""C11: the stream tools write one right record per program, however the stream
is delivered, ended or broken, and whatever becomes of their output."""
import errno
import functools
import os
import pickle
import re
import shlex
import shutil
import signal
import subprocess
import sys
import tempfile
import types

import pyengine
import progs
import simpool
from build import REPO
from core import Inconclusive, Violation
from plain import TM, parse, show

ID = 'C11'
BUILDS = ('ref', 'ext')
RUST_IS_HOST = True
RUNS = {'quick': 5500, 'thorough': 200_000}
CPU_LIMIT = 60
RULE = ('one run = one of the stream scripts over 0-40 lines delivered in reads of the planned sizes, ended or failing at a '
        'planned byte, its output accepted up to a planned byte, written short, or it interrupted at a planned source line; '
        'every record is compared with what a process of its own writes for that program; non-trivial = a record was compared')
REAL = ['run.py, measure.py, normalize.py, instr_seq.py, c_prog.py, dump_macros.py, dump_graphs.py', 'tm/*.py, tools/*.py',
        'text and buffer layers of standard input and output', 'src/*.rs (real Rust, pyo3 stand-in)']
STUB = ['devices behind standard input and output', 'dot (the calls to it are recorded, and refused on plan)',
        'pyo3 (own stand-in over the CPython C API)']
MEASURE = 'distinct (script, fault, whether it ended early, number of lines, size of the output) tuples observed'
ASSUME = ['run, measure and dump_macros get programs that finish', 'colors of macro machines are numbered in the order a '
          'process meets them, so displays are compared up to that numbering']

SCRIPTS = {'run': 2, 'measure': 2, 'normalize': 3, 'tree': 2, 'instr_seq': 3, 'c_prog': 2, 'dump_macros': 2, 'dump_graphs': 3}
FAILURES = ('eof', 'read-error', 'closed', 'full', 'full-once', 'interrupt', 'no-dot', 'dot-fails')


def setup(conf):
    pyengine.setup(conf)
    import tm.machine  # noqa: F401
    import tools.dot
    import tools.c
    import tools.instr_seq
    import tools.tree_norm  # noqa: F401


@functools.lru_cache
def lasting():
    return progs.CORPUS.with_name('seqs.txt').read_text().splitlines()


@functools.lru_cache
def finishing():
    return progs.CORPUS.with_name('finish.txt').read_text().splitlines()


# ------------------------------------------------------------------ programs

def sequence(prog):
    """what instr_seq says, by a plain machine; None when it would take long"""
    full = parse(prog)
    fuel, cells = (1_000_000, 400_000) if prog in lasting() else (20_000, 40_000)
    part = [[None] * len(full[0]) for _ in full]
    part[0][0] = (1, True, 1)
    out = []
    for _ in range(len(full) * len(full[0]) - 1):
        halts = TM(part, cells)
        halts.run(fuel)
        i = halts.info()
        spins = TM(part, cells)
        spin = spins.seek_spin(fuel)
        if i['status'] != 1:
            if spin < 0:
                return None
            break
        out.append((show(part), i['steps'], (i['state'], i['scan'])))
        s, c = i['state'], i['scan']
        if full[s][c] is None:
            break
        part[s][c] = full[s][c]
    return out


def line(rng, script):
    if script in ('run', 'measure', 'dump_macros'):
        return rng.choice(finishing())
    if script == 'instr_seq' and rng.random() < .02:
        return rng.choice(lasting())
    for _ in range(50):
        p = progs.any_prog(rng) if rng.random() < .7 else progs.random_prog(rng)
        if script == 'instr_seq':
            t = parse(p)
            t[0][0] = (1, True, 1)
            p = show(t)
            if len(t) < 2 or sequence(p) is None:
                continue
        if script == 'normalize' and rng.random() < .3:
            p = p.replace('...', rng.choice(['---', '1RZ'])).replace('  ', '_').replace(' ', '')
        return p
    return '1RB 1LB  1LA ...'


BROKEN = ['', ' ', '1RB', '1RB 1LB  1LA', '1RB 1LB 1LA ...', '1RB xyz  1LA 1RB', '#', '1R', '1RB  1LB  1LA']


def gen(rng, tier):
    script = rng.choices(list(SCRIPTS), list(SCRIPTS.values()))[0]
    n = rng.choice([0, 1, 2, 3, 6]) if script in ('run', 'measure', 'dump_macros') else rng.choice([0, 1, 2, 5, 12, 40])
    lines = []
    for _ in range(n):
        lines.append(rng.choice(lines) if lines and rng.random() < .15 else line(rng, script))
    if lines and rng.random() < .12:
        lines[rng.randrange(len(lines))] = rng.choice(BROKEN)
    if rng.random() < .15:
        lines = [' ' * rng.choice([0, 0, 1, 2]) + s + ' ' * rng.choice([0, 1, 3]) if rng.random() < .3 else s for s in lines]
    plan = {'script': script, 'lines': lines, 'last_newline': rng.random() < .7,
            'stdout': rng.choice(['file', 'file', 'tty', 'unbuffered']),
            'reads': [rng.choice([1, 3, 17, 64, 500]) for _ in range(rng.choice([0, 0, 5, 40, 400]))],
            'lag': rng.choice([0, 1, 3]),
            'writes': [rng.choice([1, 2, 30, 1000]) for _ in range(rng.choice([0, 0, 4, 40]))], 'fault': None, 'at': 0}
    if rng.random() < .6:
        plan['fault'] = rng.choice(FAILURES if script == 'dump_graphs' else FAILURES[:-2])
        plan['at'] = round(rng.random() ** rng.choice([1, 1, 3]), 4)
    return plan


# ------------------------------------------------------------- one execution

class Device:
    """standard output that takes what the plan lets it take"""

    def __init__(self, mode, sizes, limit=None, err=0, once=False):
        # a text layer without a buffer takes every write for a full one, so
        # there a write is taken whole or not at all, as a blocking pipe does
        self.split = mode != 'unbuffered'
        self.data, self.sizes, self.k = bytearray(), sizes if self.split else [], 0
        self.limit, self.err, self.once = limit, err, once
        self.refused = 0

    def put(self, b):
        n = len(b)
        if self.k < len(self.sizes):
            n = max(1, min(n, self.sizes[self.k]))
        self.k += 1
        if self.limit is not None and not (self.once and self.refused):
            n = min(n, self.limit - len(self.data))
            if b and (n <= 0 or not self.split and n < len(b)):
                self.refused += 1
                raise OSError(self.err, os.strerror(self.err))
        self.data += b[:n]
        return n


class BadRead(simpool.RawIn):
    def readinto(self, b):
        n = super().readinto(b)
        if n == 0 and len(b):
            raise OSError(errno.EIO, 'Input/output error')
        return n


def execute(script, data, plan, fault, at, home):
    """the script in this process; what it wrote, how it ended, calls made"""
    import io
    calls = []
    kinds = {'closed': errno.EPIPE, 'full': errno.ENOSPC, 'full-once': errno.ENOSPC}
    dev = Device(plan.get('stdout'), plan.get('writes', []), at if fault in kinds else None, kinds.get(fault, 0), fault == 'full-once')
    raw = (BadRead if fault == 'read-error' else simpool.RawIn)(data, plan.get('reads', []))
    sys.stdin = io.TextIOWrapper(io.BufferedReader(raw, 8192), encoding='utf-8')
    sys.stdout = simpool.text_out(dev.put, plan.get('stdout', 'file'))
    sys.stderr = open(os.devnull, 'w')
    os.chdir(home)
    tempfile.tempdir = home

    pending = []                        # children that have yet to read what they were given

    def look(job):
        """the child reads its input, now"""
        argv, files, given = job
        for k, x in enumerate(files):
            try:
                with open(x) as f:
                    files[k] = f.read()
            except FileNotFoundError:
                files[k] = 'no such file'
        calls.append((argv, files + [x if isinstance(x, str) else bytes(x).decode(errors='replace') for x in given]))

    def status(k, kw, argv):
        rc = 1 if k == at and fault == 'dot-fails' else 0
        if rc and kw.get('check'):
            raise subprocess.CalledProcessError(rc, argv)
        return rc

    def job_of(argv, given):
        argv = shlex.split(argv) if isinstance(argv, str) else [os.fspath(x) for x in argv]
        if len(calls) + len(pending) == at and fault == 'no-dot':
            raise FileNotFoundError(errno.ENOENT, 'No such file or directory', argv[0])
        return argv, [x for x in argv[1:] if os.path.isfile(x)], given

    def finish(upto=0):
        while len(pending) > upto:
            look(pending.pop(0))

    def dot(argv, *a, input=None, stdin=None, **kw):
        given = [input] if input is not None else [stdin.read()] if hasattr(stdin, 'read') else []
        job = job_of(argv, given)
        finish(plan.get('lag', 0))
        look(job)
        return status(len(calls) - 1, kw, job[0])

    class Child:
        """a dot that reads its file some children later, or when waited for"""

        def __init__(self, argv, *a, stdin=None, text=None, universal_newlines=None, encoding=None, **kw):
            self.args, self.returncode, self.pid = argv, None, 4242
            self.k = len(calls) + len(pending)
            self.stdin = (io.StringIO() if text or universal_newlines or encoding else io.BytesIO()) if stdin == subprocess.PIPE else None
            self.stdout = self.stderr = None
            self.given = [stdin.read()] if hasattr(stdin, 'read') else []
            self.job = job_of(argv, self.given)
            if self.stdin is not None:
                self.stdin.close = lambda: self.given or self.given.append(self.stdin.getvalue())
            pending.append(self.job)
            finish(plan.get('lag', 0))

        def wait(self, timeout=None):
            if self.stdin is not None:
                self.stdin.close()
            while any(x is self.job for x in pending):
                finish(len(pending) - 1)
            self.returncode = status(self.k, {}, self.args)
            return self.returncode

        def communicate(self, input=None, timeout=None):
            if input is not None:
                self.given[:] = [input]
            self.wait()
            return None, None

        def poll(self):
            return self.returncode if any(x is self.job for x in pending) else self.wait()

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.wait()

    def run_dot(argv, **kw):
        return types.SimpleNamespace(returncode=dot(argv, **kw), stdout=None, stderr=None, args=argv)
    subprocess.call = dot
    subprocess.check_call = lambda argv, *a, **kw: dot(argv, *a, **{**kw, 'check': True})
    subprocess.run, subprocess.Popen, os.system = run_dot, Child, dot
    name = 'normalize' if script == 'tree' else script
    path = str(REPO / (name + '.py'))
    sys.argv = [path] + (['--tree'] if script == 'tree' else [])
    main = types.ModuleType('__main__')
    main.__file__ = path
    sys.modules['__main__'] = main
    count = [0]
    if fault in ('interrupt', 'count'):
        ours = str(REPO)

        def trace(frame, event, arg):
            if not frame.f_code.co_filename.startswith(ours):
                return None
            count[0] += 1
            if fault == 'interrupt' and count[0] == at:
                raise KeyboardInterrupt
            return trace
    code = compile(open(path).read(), path, 'exec')
    ended = None
    try:
        if fault in ('interrupt', 'count'):
            sys.settrace(trace)
        exec(code, main.__dict__)
    except SystemExit as e:
        ended = f'exit {e.code}' if e.code else None
    except BaseException as e:
        ended = type(e).__name__
        where = e.__traceback__
        while where.tb_next:
            where = where.tb_next
        if ended == 'MemoryError' or ended == 'RecursionError':
            ended = 'resources'
    finally:
        sys.settrace(None)
    finish()
    for _ in range(2):                  # the interpreter leaves
        try:
            sys.stdout.flush()
            break
        except OSError:
            ended = ended or 'OSError'
    return bytes(dev.data), ended, calls, {'refused': dev.refused, 'short': raw.short, 'lines': count[0], 'k': dev.k}


def apart(script, data, plan=None, fault=None, at=0):
    """execute() in a process and a directory of its own"""
    home = tempfile.mkdtemp(prefix='c11-')
    fd = os.memfd_create('result')
    pid = os.fork()
    if pid == 0:
        try:
            res = execute(script, data, plan or {}, fault, at, home)
            os.pwrite(fd, pickle.dumps(res), 0)
            os._exit(0)
        except BaseException:
            import traceback
            os.pwrite(fd, traceback.format_exc().encode(), 0)
        finally:
            os._exit(3)
    try:
        status = os.waitpid(pid, 0)[1]
        text = os.pread(fd, 1 << 28, 0)
    finally:
        os.close(fd)
        shutil.rmtree(home, ignore_errors=True)
    if os.WIFSIGNALED(status):
        if os.WTERMSIG(status) in (signal.SIGXCPU, signal.SIGKILL):
            raise Inconclusive('slow')
        raise Violation('died', f'{script}: signal {os.WTERMSIG(status)}')
    if os.WEXITSTATUS(status):
        raise RuntimeError(text.decode(errors='replace'))
    out, ended, calls, more = pickle.loads(text)
    if ended == 'resources':
        raise Inconclusive('resources')
    calls = [([re.sub(home + r'/\w+', 'FILE', a) for a in argv], files) for argv, files in calls]
    return out, ended, calls, more


# ----------------------------------------------------------------- comparing

WATCH = re.compile(r'^( *\d+ \|) (.+) \| (.*)$')


def renumber(text):
    """the same display with colors of a macro numbered as they appear"""
    seen = {0: 0}

    def lab(c):
        return str(seen.setdefault(int(c), len(seen)))
    out = []
    for row in text.split('\n'):
        if '||' in row:
            row = re.sub(r'(UNDFND: \(-?\d+, \(\d+, )(\d+)', lambda m: m[1] + lab(m[2]), row)
        elif row.count('|') >= 2:
            head, tape = row.rsplit('|', 1)
            tape = re.sub(r'(^|[ \[])(\d+)(?=\^|\]|$| )', lambda m: m[1] + lab(m[2]), tape)
            head = re.sub(r'(\| [A-Z])(\d+)', lambda m: m[1] + lab(m[2]), head)
            row = head + '|' + tape
        out.append(row)
    return '\n'.join(out)


def record(script, text, i):
    """the record for a program at place i, from the one written for it alone"""
    if script != 'run':
        return text
    head, nl, last = text.rstrip('\n').rpartition('\n')
    return head + nl + re.sub(r'^0 \|', f'{i} |', last) + '\n' if text else text


@functools.lru_cache
def alone(script, prog):
    return apart(script, prog.encode())


def judge(script, prog, text, calls):
    """what can be told of a record without the code that wrote it"""
    if script == 'instr_seq':
        seq = sequence(prog.strip())
        got = re.findall(r'"(.*)": \(\s*(\d+), \'([A-Z])(\d+)\'\)', text)
        want = [(p, str(n), chr(65 + s), str(c)) for p, n, (s, c) in seq]
        if got != want or not text.startswith(f'    "{prog.strip()}": {{\n'):
            raise Violation('wrong-record', f'instr_seq: {prog}: {got} instead of {want}')
    if script == 'dump_graphs':
        argv, files = calls[0]
        if len(calls) != 1 or prog.strip().replace(' ', '_') + '.png' not in argv or len(files) != 1:
            raise Violation('wrong-record', f'dump_graphs: {prog}: {calls}')
        edges = {(chr(65 + s), chr(65 + i[2])) for s, row in enumerate(parse(prog.strip())) for i in row if i}
        drawn = set(re.findall(r'^\s*(\w+) -> (\w+)', files[0], re.M))
        if drawn != edges:
            raise Violation('wrong-record', f'dump_graphs: {prog}: draws {sorted(drawn)}, not {sorted(edges)}')
    if script in ('run', 'measure'):
        named = re.search(r'^ *(?:0 \| |")(\d[LR][A-Z] .*?)(?: \(| \|\||":)', text, re.M)
        if not named or slots(named[1]) != slots(prog.strip()):
            raise Violation('wrong-record', f'{script}: the record of {prog} does not name it: {text[-200:]!r}')


def slots(prog):
    return {(s, c, i) for s, row in enumerate(parse(prog)) for c, i in enumerate(row) if i}


def run(plan, out):
    script, lines, fault = plan['script'], plan['lines'], plan['fault']
    data = ''.join(s + '\n' for s in lines)
    if lines and not plan['last_newline']:
        data = data[:-1]
    if fault in ('eof', 'read-error'):
        data = data[:int(len(data) * plan['at'])]
    seen = data.split('\n')
    if seen and not seen[-1]:
        seen.pop()
    torn = fault in ('eof', 'read-error') and data and not data.endswith('\n') and seen[-1] not in lines
    if torn:
        # what is left of the line may mean anything, or take for ever
        seen.pop()
        data = data[:data.rfind('\n') + 1]
    want, calls, stops, ends = [], [], None, []
    for i, s in enumerate(seen):
        wrong = s.strip() in BROKEN      # may be taken one way or the other, so is told apart by its newline
        text, ended, called, _ = alone(script, s + '\n' if wrong and (i + 1 < len(seen) or data.endswith('\n')) else s)
        again = alone(script, s + '\n')
        if (text, ended, called) != again[:3] and not wrong:
            raise Violation('newline', f'{script}: {s!r} alone gives {text[-200:]!r} {called}, with a newline {again[0][-200:]!r} {again[2]}')
        if not ended and not wrong and ('_' not in s):
            judge(script, s, text.decode(), called)
        want.append(record(script, text.decode(), i))
        calls += called
        ends.append(len(calls))
        if ended:
            stops = ended
            break
    out.stats['records'] += len(want)
    full = ''.join(want)
    at = 0
    if fault in ('closed', 'full', 'full-once'):
        at = int(len(full.encode()) * plan['at'])
    elif fault in ('no-dot', 'dot-fails'):
        at = int(len(calls) * plan['at'])
    elif fault == 'interrupt':
        at = 1 + int(apart(script, data.encode(), plan, 'count')[3]['lines'] * plan['at'])
    got, ended, called, more = apart(script, data.encode(), plan, fault, at)
    text = got.decode(errors='replace')
    fired = {'closed': more['refused'], 'full': more['refused'], 'full-once': more['refused'], 'interrupt': ended == 'KeyboardInterrupt',
             'no-dot': at < len(calls), 'dot-fails': at < len(calls), 'eof': plan['at'] < 1, 'read-error': True}
    if fault and fired[fault]:
        out.faults[fault] += 1
    if more['short']:
        out.faults['short-read'] += 1
    if plan['writes']:
        out.faults['short-write'] += 1
    if not plan['last_newline']:
        out.faults['no-last-newline'] += 1
    if stops:
        out.faults['failing-program'] += 1
    out.nontrivial = bool(want)
    out.ev(script, fault, ended, len(got), len(called))
    out.mark(script, fault, ended, len(lines), len(got).bit_length())
    a, b = (renumber(text), renumber(full)) if script == 'run' else (text, full)
    name = f'{script} over {seen} with {fault} at {at}'
    early = fault in ('closed', 'full', 'full-once', 'interrupt', 'no-dot') and fired[fault]
    if script == 'run' and early:
        a = renumber(text + '\n').rstrip('\n')     # a record broken off
        a, b = whole(a), whole(b)
    if fault == 'read-error' and not ended:
        raise Violation('not-stopped', f'{name}: the input fails, and the script ends as if it had not')
    if early:
        if not b.startswith(a):
            raise Violation('corrupted', f'{name}: wrote {diff(a, b)}')
        if not ended and fault not in ('full-once',):
            raise Violation('not-stopped', f'{name}: goes on to its end')
        if called != calls[:len(called)]:
            raise Violation('corrupted', f'{name}: calls {called} instead of {calls}')
        return
    if fault == 'dot-fails' and ended and fired[fault] and len(called) == at + 1:
        calls = calls[:len(called)]     # to stop there is as good as to go on
        a = b = ''
    elif fault == 'read-error':
        pass
    elif bool(ended) != bool(stops):
        raise Violation('wrong-end', f'{name}: ended by {ended}, alone by {stops}')
    if fault == 'read-error' and ended == 'OSError' and b.startswith(a) and a.count('\n') <= b.count('\n'):
        # lines that came in the read that failed may be lost with it
        b = a
        calls = calls[:len(called)]
    if a != b:
        raise Violation('wrong-records', f'{name}: wrote {diff(a, b)}')
    if called != calls:
        raise Violation('wrong-records', f'{name}: calls {called} instead of {calls}')


def whole(text):
    return '\n'.join(row for row in text.split('\n')[:-1])


def diff(a, b):
    for k, (x, y) in enumerate(zip(a, b)):
        if x != y:
            break
    else:
        k = min(len(a), len(b))
    return f'...{a[max(0, k - 80):k + 80]!r} instead of ...{b[max(0, k - 80):k + 80]!r}'


def shrink(plan):
    n = len(plan['lines'])
    for k in range(n):
        if n > 1:
            yield {**plan, 'lines': plan['lines'][:k] + plan['lines'][k + 1:]}
    for key, v in (('reads', []), ('writes', []), ('fault', None), ('last_newline', True), ('stdout', 'file'), ('lag', 0)):
        if plan[key] != v:
            yield {**plan, key: v}
