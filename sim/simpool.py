"""A simulated process pool.

Workers are real forked processes (own memory, as multiprocessing's fork start
method gives), but never run unless told: each is parked on a pipe, one runs at
a time, and every write(2) it would make on standard output, every chunk it
takes and every result it returns is an event the scheduler grants. The order of
those events comes from the plan, so one plan is one execution.

Modelled after multiprocessing.pool: FIFO of chunks, any idle worker takes the
next; a worker's standard streams are flushed when it exits by itself and not
when it is terminated; terminate() races with idle workers leaving by
themselves, and the plan decides each race.
"""
from __future__ import annotations

import io
import os
import pickle
import signal
import struct
import sys
import types

PAGE = 4096


class Chooser:
    """Choices from the plan; 0 once the plan's list is used up."""

    def __init__(self, picks, rng=None):
        self.picks, self.i, self.made = list(picks), 0, []

    def pick(self, n: int) -> int:
        if n <= 1:
            return 0
        k = 0
        if self.i < len(self.picks):
            k = self.picks[self.i] % n
        self.i += 1
        self.made.append(k)
        return k


def send(fd, obj):
    data = pickle.dumps(obj)
    data = struct.pack('>I', len(data)) + data
    while data:
        data = data[os.write(fd, data):]


def recv(fd):
    def read(n):
        b = b''
        while len(b) < n:
            c = os.read(fd, n - len(b))
            if not c:
                raise EOFError
            b += c
        return b
    return pickle.loads(read(struct.unpack('>I', read(4))[0]))


class RawOut(io.RawIOBase):
    """Standard output as a raw device: put(bytes) is one write(2)."""

    def __init__(self, put):
        self.put = put

    def writable(self):
        return True

    def fileno(self):
        raise io.UnsupportedOperation('fileno')

    def write(self, b):
        return self.put(bytes(b))


def text_out(put, mode):
    """mode: 'file' block-buffered, 'tty' line-buffered, 'unbuffered' as python -u."""
    raw = RawOut(put)
    if mode == 'unbuffered':
        return io.TextIOWrapper(raw, encoding='utf-8', write_through=True)
    return io.TextIOWrapper(io.BufferedWriter(raw, 8192), encoding='utf-8',
                            line_buffering=mode == 'tty')


class RawIn(io.RawIOBase):
    """Standard input delivered in pieces of the sizes given, then whole."""

    def __init__(self, data: bytes, sizes=()):
        self.data, self.sizes, self.pos, self.k = data, list(sizes), 0, 0
        self.short = 0

    def readable(self):
        return True

    def readinto(self, b):
        n = len(b)
        if self.k < len(self.sizes):
            want = max(1, self.sizes[self.k])
            self.k += 1
            if want < n:
                n = want
                if self.pos + n < len(self.data):
                    self.short += 1
        d = self.data[self.pos:self.pos + n]
        b[:len(d)] = d
        self.pos += len(d)
        return len(d)


def text_in(data, sizes=()):
    raw = RawIn(data, sizes)
    return io.TextIOWrapper(io.BufferedReader(raw, 8192), encoding='utf-8'), raw


class RemoteError(Exception):
    pass


class World:
    """The processes sharing one standard output."""

    def __init__(self, out, chooser, ncpu, mode='file'):
        self.out, self.ch, self.ncpu, self.mode = out, chooser, ncpu, mode
        self.written = []          # (writer, bytes), in order
        self.pools = []
        self.steps = 0

    def put(self, who, data: bytes) -> int:
        data = data[:PAGE]         # a pipe takes at most a page atomically
        self.written.append((who, data))
        self.out.ev('write', who, data)
        return len(data)

    def main_put(self, data: bytes) -> int:
        # whatever workers still have to write may come first
        for p in self.pools:
            p.drift()
        return self.put('main', data)

    def text(self) -> bytes:
        return b''.join(d for _, d in self.written)


class Proc:
    serial = 0

    def __init__(self, world, init, initargs, close_fds):
        self.world = world
        self.id = Proc.serial
        Proc.serial += 1
        self.state = 'idle'       # idle | writing | exiting | gone
        self.pending = None
        self.chunk = None
        self.tasks = 0
        for s in (sys.stdout, sys.stderr):
            s.flush()
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                for fd in close_fds + [r1, w2]:
                    os.close(fd)
                child(r2, w1, world.mode, init, initargs)
            finally:
                os._exit(1)
        os.close(w1)
        os.close(r2)
        self.r, self.w = r1, w2

    def tell(self, msg):
        """Let the worker run to its next event."""
        try:
            send(self.w, msg)
            ans = recv(self.r)
        except (EOFError, BrokenPipeError):
            self.gone()
            return ('died',)
        if ans[0] == 'write':
            self.state, self.pending = 'writing', ans[1]
        elif ans[0] == 'exited':
            self.gone()
        return ans

    def gone(self, kill=False):
        if self.state == 'gone':
            return
        if kill:
            os.kill(self.pid, signal.SIGKILL)
        os.close(self.r)
        os.close(self.w)
        os.waitpid(self.pid, 0)
        self.state = 'gone'


def child(rfd, wfd, mode, init, initargs):
    def put(data):
        send(wfd, ('write', data))
        return recv(rfd)[1]
    buf = sys.stdout
    if not isinstance(buf, io.TextIOWrapper):
        os._exit(1)
    # same buffered object as the parent's (flushed before the fork); only the
    # raw end now leads to this worker's turn at write(2)
    raw = buf.buffer if isinstance(buf.buffer, RawOut) else buf.buffer.raw
    raw.put = put
    sys.stdin = open(os.devnull)
    try:
        if init:
            init(*initargs)
    except BaseException:
        sys.stdout.flush()
        send(wfd, ('exited',))
        os._exit(1)
    while True:
        msg = recv(rfd)
        if msg[0] == 'exit':
            try:
                sys.stdout.flush()
                sys.stderr.flush()
            except Exception:
                pass
            send(wfd, ('exited',))
            os._exit(0)
        try:
            func, chunk, star = pickle.loads(msg[1])
            ok, val = True, [func(*a) if star else func(a) for a in chunk]
            data = pickle.dumps(val)
        except BaseException as e:
            ok = False
            try:
                data = pickle.dumps(e)
                pickle.loads(data)
            except Exception:
                data = pickle.dumps(RemoteError(repr(e)))
        send(wfd, ('done', ok, data))


class Result:
    def __init__(self, pool, n, single=False, callback=None, error_callback=None):
        self.pool, self.left, self.parts, self.err = pool, n, {}, None
        self.single, self.callback, self.ecb = single, callback, error_callback
        self.order = []

    def done(self, k, ok, val):
        self.left -= 1
        self.order.append(k)
        if ok:
            self.parts[k] = val
        elif self.err is None:
            self.err = val
        if not self.left:
            if self.err is None and self.callback:
                self.callback(self.value())
            elif self.err is not None and self.ecb:
                self.ecb(self.err)

    def value(self):
        flat = [x for k in sorted(self.parts) for x in self.parts[k]]
        return flat[0] if self.single else flat

    def ready(self):
        self.pool.step_some()
        return not self.left

    def wait(self, timeout=None):
        self.pool.until(lambda: not self.left)

    def successful(self):
        return not self.left and self.err is None

    def get(self, timeout=None):
        self.wait()
        if self.err is not None:
            raise self.err
        return self.value()

    result = get


class Hang(Exception):
    """nothing can ever run again"""


class Pool:
    def __init__(self, world, processes=None, initializer=None, initargs=(), maxtasksperchild=None,
                 context=None):
        self.w = world
        self.n = processes or world.ncpu
        if self.n < 1:
            raise ValueError('Number of processes must be at least 1')
        self.init, self.initargs, self.maxtasks = initializer, initargs, maxtasksperchild
        self.queue = []
        self.state = 'run'
        self.procs = []
        world.pools.append(self)
        for _ in range(self.n):
            self.fork()

    def fork(self):
        fds = [fd for pool in self.w.pools for p in pool.procs if p.state != 'gone' for fd in (p.r, p.w)]
        self.procs.append(Proc(self.w, self.init, self.initargs, fds))

    # -- scheduling

    def moves(self):
        m = []
        for p in self.procs:
            if p.state == 'writing':
                m.append((p, 'write'))
            elif p.state == 'idle' and self.queue and self.state != 'terminate':
                m.append((p, 'take'))
        return m

    def step(self) -> bool:
        m = self.moves()
        if not m:
            return False
        p, what = m[self.w.ch.pick(len(m))]
        self.w.steps += 1
        self.w.out.mark('move', what, tuple(q.state for q in self.procs), len(self.queue))
        if what == 'write':
            n = self.w.put(p.id, p.pending)
            self.w.out.faults['interleaved write'] += any(q.state == 'writing' for q in self.procs if q is not p)
            self.after(p, p.tell(('ack', n)) if not p_set(p) else None)
        else:
            res, k, payload = self.queue.pop(0)
            p.chunk, p.tasks = (res, k), p.tasks + 1
            self.w.out.ev('take', p.id, k)
            self.after(p, p.tell(('task', payload)))
        return True

    def after(self, p, ans):
        if ans[0] == 'done':
            p.state = 'idle'
            res, k = p.chunk
            p.chunk = None
            self.w.out.ev('done', p.id, k, ans[1])
            res.done(k, ans[1], pickle.loads(ans[2]))
            if self.maxtasks and p.tasks >= self.maxtasks:
                self.leave(p)
                self.fork()
        elif ans[0] == 'died':
            raise Hang('a worker died in the middle of a task')

    def leave(self, p):
        """The worker exits by itself: its streams are flushed."""
        if p.state == 'gone':
            return
        ans = p.tell(('exit',))
        while ans[0] == 'write':
            n = self.w.put(p.id, p.pending)
            for q in self.procs:           # others may write in between
                if q is not p and q.state == 'writing' and self.w.ch.pick(2):
                    self.after(q, q.tell(('ack', self.w.put(q.id, q.pending))))
            ans = p.tell(('ack', n))

    def drift(self):
        while self.moves() and self.w.ch.pick(3):
            self.step()

    def step_some(self):
        self.step()

    def until(self, cond):
        while not cond():
            if not self.step():
                raise Hang('the pool waits for a result nobody computes')

    # -- interface

    def submit(self, func, items, star=False, chunksize=None, **kw):
        if self.state != 'run':
            raise ValueError('Pool not running')
        items = list(items)
        if chunksize is None:
            chunksize, extra = divmod(len(items), self.n * 4)
            chunksize += bool(extra)
        chunksize = max(1, chunksize)
        chunks = [items[i:i + chunksize] for i in range(0, len(items), chunksize)]
        res = Result(self, len(chunks), **kw)
        for k, c in enumerate(chunks):
            self.queue.append((res, k, pickle.dumps((func, c, star))))
        if not chunks and kw.get('callback'):
            kw['callback']([])
        return res

    def map(self, func, iterable, chunksize=None):
        return self.submit(func, iterable, False, chunksize).get()

    def starmap(self, func, iterable, chunksize=None):
        return self.submit(func, iterable, True, chunksize).get()

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self.submit(func, iterable, False, chunksize, callback=callback, error_callback=error_callback)

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self.submit(func, iterable, True, chunksize, callback=callback, error_callback=error_callback)

    def apply_async(self, func, args=(), kwds=None, callback=None, error_callback=None):
        if kwds:
            import functools
            func = functools.partial(func, **kwds)
        return self.submit(func, [tuple(args)], True, 1, single=True, callback=callback,
                           error_callback=error_callback)

    def apply(self, func, args=(), kwds=None):
        return self.apply_async(func, args, kwds).get()

    def imap(self, func, iterable, chunksize=1):
        res = self.submit(func, iterable, False, chunksize)

        def it():
            k = 0
            while True:
                self.until(lambda: k in res.parts or not res.left or res.err is not None)
                if k in res.parts:
                    yield from res.parts[k]
                    k += 1
                elif res.err is not None:
                    raise res.err
                else:
                    return
        return it()

    def imap_unordered(self, func, iterable, chunksize=1):
        res = self.submit(func, iterable, False, chunksize)

        def it():
            k = 0
            while True:
                self.until(lambda: k < len(res.order) or not res.left)
                if k >= len(res.order):
                    return
                if res.order[k] not in res.parts:
                    raise res.err
                yield from res.parts[res.order[k]]
                k += 1
        return it()

    def close(self):
        if self.state == 'run':
            self.state = 'close'

    def join(self):
        if self.state == 'run':
            raise ValueError('Pool is still running')
        if self.state == 'close':
            while self.step():
                pass
        for p in self.shuffled():
            self.leave(p)

    def shuffled(self):
        left = list(self.procs)
        while left:
            yield left.pop(self.w.ch.pick(len(left)))

    def terminate(self):
        if self.state == 'terminate':
            return
        self.state = 'terminate'
        self.queue.clear()
        for p in self.shuffled():
            if p.state == 'gone':
                continue
            # idle workers may see the sentinel before the signal
            if p.state == 'idle' and not self.w.ch.pick(2):
                self.leave(p)
                continue
            while p.state == 'writing' and self.w.ch.pick(2):
                ans = p.tell(('ack', self.w.put(p.id, p.pending)))
                if ans[0] == 'done':
                    p.state = 'idle'
            self.w.out.faults['worker terminated ' + p.state] += p.state != 'gone'
            p.gone(kill=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()


def p_set(p):
    p.state = 'idle'
    return False


class Executor:
    """concurrent.futures.ProcessPoolExecutor over the same workers."""

    def __init__(self, world, max_workers=None, mp_context=None, initializer=None, initargs=(), **kw):
        self.pool = Pool(world, max_workers, initializer, initargs, kw.get('max_tasks_per_child'))

    def submit(self, func, *args, **kw):
        return self.pool.apply_async(func, args, kw)

    def map(self, func, *its, timeout=None, chunksize=1):
        res = self.pool.submit(func, list(zip(*its)), True, chunksize)
        return iter_result(res)

    def shutdown(self, wait=True, cancel_futures=False):
        self.pool.close()
        self.pool.join()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown()


def iter_result(res):
    yield from res.get()


def install(world):
    """Put the simulated pool where multiprocessing's would be found."""
    import concurrent.futures
    import concurrent.futures.process
    import multiprocessing
    import multiprocessing.pool

    def pool(processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        return Pool(world, processes, initializer, initargs, maxtasksperchild)

    def cpu_count():
        return world.ncpu

    ctx = types.SimpleNamespace(Pool=pool, cpu_count=cpu_count)
    multiprocessing.Pool = pool
    multiprocessing.pool.Pool = pool
    multiprocessing.get_context = lambda method=None: ctx
    multiprocessing.set_start_method = lambda *a, **k: None
    multiprocessing.cpu_count = cpu_count
    os.cpu_count = cpu_count
    os.sched_getaffinity = lambda pid: set(range(world.ncpu))

    def executor(*a, **k):
        return Executor(world, *a, **k)
    concurrent.futures.ProcessPoolExecutor = executor
    concurrent.futures.process.ProcessPoolExecutor = executor
