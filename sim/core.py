"""Deterministic simulation driver.

A property module supplies

    ID, RULE, REAL, STUB            what is run and what stands in
    RUNS = {'quick': n, 'thorough': m}
    gen(rng, tier)  -> plan         everything the run will do, as plain JSON:
                                    workload, fault events and schedule choices
    run(plan)       -> Outcome      pure function of the plan and the code
    shrink(plan)    -> iterator     optional: smaller candidate plans first

One integer (VERIF_SEED) decides every plan; a plan decides the execution.
Every run happens in its own forked child, so no run sees another's state, and
a child that spins is ended by its own CPU-time limit, never by wall clock.
"""
from __future__ import annotations

import collections
import copy
import hashlib
import importlib
import json
import os
import pickle
import random
import resource
import select
import signal
import struct
import subprocess
import sys
import time
import traceback
from pathlib import Path

import build
import env

VERIF = Path(__file__).resolve().parent.parent
CPUS = min(8, os.cpu_count() or 1)


class Violation(Exception):
    """kind: the class of failure, kept while minimising; detail: one instance."""

    def __init__(self, kind: str, detail: str = ''):
        super().__init__(kind, detail)
        self.kind, self.detail = kind, detail


class Inconclusive(Exception):
    pass


class Outcome:
    """What one simulated run reports."""

    def __init__(self):
        self.stats = collections.Counter()    # summed over runs
        self.faults = collections.Counter()   # faults that actually fired
        self.marks: set[str] = set()          # states / interleavings reached
        self.log = hashlib.sha256()           # event log digest
        self.nontrivial = True
        self.violation: tuple[str, str] | None = None
        self.inconclusive: str | None = None
        self.events = 0

    def ev(self, *parts) -> None:
        self.events += 1
        self.log.update(repr(parts).encode())

    def mark(self, *parts) -> None:
        self.marks.add(mark(*parts))

    def pack(self) -> dict:
        return {
            'stats': dict(self.stats), 'faults': dict(self.faults),
            'marks': sorted(self.marks)[:4000], 'log': self.log.hexdigest()[:24],
            'nontrivial': self.nontrivial, 'violation': self.violation,
            'inconclusive': self.inconclusive, 'events': self.events,
        }


def mark(*parts) -> str:
    return hashlib.blake2b(repr(parts).encode(), digest_size=6).hexdigest()


def rng_for(seed: int, prop: str, index: int) -> random.Random:
    h = hashlib.sha256(f'{seed}/{prop}/{index}'.encode()).digest()
    return random.Random(int.from_bytes(h[:16], 'big'))


# ---------------------------------------------------------------- one child

def _child(mod, job, fd: int, cpu: int, mem: int) -> None:
    t0 = time.process_time()
    try:
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        plan = job.get('plan')
        if plan is None:
            plan = mod.gen(rng_for(job['seed'], mod.ID, job['i']), job['tier'])
            plan = json.loads(json.dumps(plan))
        res = execute(mod, plan)
        if res['violation'] or job.get('want_plan'):
            res['plan'] = plan
    except BaseException as e:  # harness failure
        res = {'error': ''.join(traceback.format_exception(e))[-3000:]}
    res['cpu'] = time.process_time() - t0
    data = pickle.dumps(res)
    try:
        with os.fdopen(fd, 'wb') as f:
            f.write(data)
    finally:
        os._exit(0)


def execute(mod, plan) -> dict:
    out = Outcome()
    try:
        mod.run(plan, out)
    except Violation as v:
        out.violation = (v.kind, v.detail[:2000])
    except Inconclusive as v:
        out.inconclusive = str(v)
    except MemoryError:
        out.inconclusive = 'memory'
    except RecursionError as e:
        out.inconclusive = 'recursion'      # a refusal, not a wrong answer
        if not from_repo(e):
            raise
    except Exception as e:
        if not from_repo(e):
            raise
        out.violation = ('crash', crash_text(e))
    return out.pack()


def from_repo(e) -> bool:
    """was code of the repository running when it was raised?"""
    tb = e.__traceback__
    root = str(build.REPO) + os.sep
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(root):
            return True
        tb = tb.tb_next
    return False


def crash_text(e) -> str:
    tb = traceback.extract_tb(e.__traceback__)
    last = [f for f in tb if f.filename.startswith(str(build.REPO) + os.sep)][-1]
    return (f'{type(e).__name__}: {str(e)[:300]} out of {os.path.basename(last.filename)}:{last.lineno} '
            f'{last.name}')


def run_forked(mod, job) -> dict:
    cpu = getattr(mod, 'CPU_LIMIT', 30)
    mem = getattr(mod, 'MEM_LIMIT', 3 << 30)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        os.setpgid(0, 0)
        _child(mod, job, w, cpu, mem)
        os._exit(70)
    os.close(w)
    chunks = []
    # CPU limits catch a spin; a child that is blocked for ever is ended after
    # a long silence and reported as blocked.
    wall = getattr(mod, 'WALL_LIMIT', 240)
    deadline = time.monotonic() + wall
    blocked = False
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            blocked = True
            break
        ready, _, _ = select.select([r], [], [], left)
        if not ready:
            continue
        b = os.read(r, 1 << 16)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    if blocked:
        try:
            os.killpg(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
    _, st = os.waitpid(pid, 0)
    try:
        os.killpg(pid, signal.SIGKILL)   # stragglers
    except (ProcessLookupError, PermissionError):
        pass
    data = b''.join(chunks)
    if data and not blocked:
        try:
            return pickle.loads(data)
        except Exception:
            pass
    what = 'blocked' if blocked else (
        'cpu-limit' if os.WIFSIGNALED(st) and os.WTERMSIG(st) in (signal.SIGXCPU, signal.SIGKILL)
        else f'died:{os.WTERMSIG(st)}' if os.WIFSIGNALED(st)
        else f'exit:{os.waitstatus_to_exitcode(st)}')
    res = Outcome().pack()
    verdict = getattr(mod, 'on_death', default_death)(what)
    if isinstance(verdict, tuple):
        res['violation'] = verdict
    else:
        res['inconclusive'] = verdict
    res['cpu'] = cpu if what == 'cpu-limit' else 0
    try:
        plan = job.get('plan') or json.loads(json.dumps(
            mod.gen(rng_for(job['seed'], mod.ID, job['i']), job['tier'])))
        if res['violation']:
            res['plan'] = plan
    except Exception as e:
        res = {'error': f'gen failed: {e!r}', 'cpu': 0}
    return res


def default_death(what: str):
    if what.startswith('died'):
        return ('crash', f'the process was ended by signal {what[5:]}')
    return what


# ---------------------------------------------------------------- worker

def worker_main(prop: str, conf: dict) -> None:
    """Long-lived fork server: jobs in on fd 0, results out on fd 3-ish."""
    out_fd = os.dup(1)
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 1)
    if not os.environ.get('VERIF_DEBUG'):
        os.dup2(devnull, 2)
    inp = os.fdopen(os.dup(0), 'rb')
    os.dup2(devnull, 0)
    mod = load(prop, conf)
    outp = os.fdopen(out_fd, 'wb')

    def send(obj):
        data = pickle.dumps(obj)
        outp.write(struct.pack('>I', len(data)) + data)
        outp.flush()

    send({'ready': True})
    while True:
        hdr = inp.read(4)
        if len(hdr) < 4:
            return
        job = pickle.loads(inp.read(struct.unpack('>I', hdr)[0]))
        res = run_forked(mod, job)
        res['i'] = job.get('i')
        send(res)


def load(prop: str, conf: dict):
    mod = importlib.import_module(prop.lower())
    mod.CONF = conf
    if hasattr(mod, 'setup'):
        mod.setup(conf)
    return mod


class Worker:
    def __init__(self, prop: str, conf: dict, hashseed: str = '0'):
        envv = dict(os.environ, PYTHONHASHSEED=hashseed, PYTHONDONTWRITEBYTECODE='1')
        envv.pop('PYTHONPATH', None)
        if 'simrand' in conf:
            envv['LD_PRELOAD'] = conf['simrand']
        self.p = subprocess.Popen(
            [sys.executable, '-B', str(VERIF / 'sim' / 'main.py'), 'worker', prop,
             json.dumps(conf)],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=envv)
        self.busy = None
        self.buf = b''
        msg = self.recv()
        if not msg or not msg.get('ready'):
            raise RuntimeError(f'worker for {prop} did not start')

    def send(self, job):
        data = pickle.dumps(job)
        self.p.stdin.write(struct.pack('>I', len(data)) + data)
        self.p.stdin.flush()
        self.busy = job

    def recv(self):
        f = self.p.stdout
        hdr = f.read(4)
        if len(hdr) < 4:
            return None
        msg = pickle.loads(f.read(struct.unpack('>I', hdr)[0]))
        self.busy = None
        return msg

    def call(self, job):
        self.send(job)
        return self.recv()

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(10)
        except Exception:
            self.p.kill()
            self.p.wait()


def run_jobs(prop, conf, jobs, ncpu=CPUS, hashseed='0', stop_on_violation=True, wall=600.0):
    """Results in job order; stops handing out work once a violation is in."""
    ncpu = max(1, min(ncpu, len(jobs)))
    results: dict[int, dict] = {}
    workers = [Worker(prop, conf, hashseed) for _ in range(ncpu)]
    t0 = time.monotonic()
    nxt = 0
    stop = False
    try:
        for w in workers:
            if nxt < len(jobs):
                w.send(jobs[nxt])
                w.k = nxt
                nxt += 1
        while any(w.busy for w in workers):
            fds = [w.p.stdout for w in workers if w.busy]
            ready, _, _ = select.select(fds, [], [], 5)
            for w in workers:
                if w.p.stdout in ready and w.busy:
                    msg = w.recv()
                    if msg is None:
                        raise RuntimeError('worker died')
                    results[w.k] = msg
                    if msg.get('violation') and stop_on_violation \
                            and not is_known(prop, conf, msg):
                        stop = True
                    if time.monotonic() - t0 > wall:
                        stop = True
                    if not stop and nxt < len(jobs):
                        w.send(jobs[nxt])
                        w.k = nxt
                        nxt += 1
    finally:
        for w in workers:
            w.close()
    return [results[k] for k in sorted(results)]


# ---------------------------------------------------------------- findings

def findings(prop: str) -> list[dict]:
    p = VERIF / 'known_findings.json'
    if not p.exists():
        return []
    return [f for f in json.loads(p.read_text()) if f['property'] == prop]


def is_known(prop: str, conf: dict, res: dict):
    for f in findings(prop):
        if f.get('status') == 'finding' and res.get('violation') \
                and f['key'] == finding_key(prop, res):
            return f
    return None


def finding_key(prop: str, res: dict) -> str:
    mod = importlib.import_module(prop.lower())
    if hasattr(mod, 'finding_key'):
        return mod.finding_key(res)
    return res['violation'][0] + '|' + json.dumps(res.get('plan'), sort_keys=True)


# ---------------------------------------------------------------- minimise

def generic_shrink(x):
    """Smaller variants of a JSON value: drop list items, shrink numbers."""
    if isinstance(x, dict):
        for k in x:
            for v in generic_shrink(x[k]):
                y = dict(x)
                y[k] = v
                yield y
    elif isinstance(x, list):
        n = len(x)
        size = n // 2
        while size >= 1:
            for i in range(0, n, size):
                yield x[:i] + x[i + size:]
            size //= 2
        for i in range(n):
            for v in generic_shrink(x[i]):
                yield x[:i] + [v] + x[i + 1:]
    elif isinstance(x, bool):
        if x:
            yield False
    elif isinstance(x, int):
        for y in (0, x // 2, x - 1 if x > 0 else x + 1):
            if abs(y) < abs(x):
                yield y


def minimise(prop, conf, plan, kind, budget=90.0):
    mod = importlib.import_module(prop.lower())
    shr = getattr(mod, 'shrink', generic_shrink)
    w = Worker(prop, conf)
    t0 = time.monotonic()
    tried = 0
    seen = set()
    try:
        progress = True
        while progress and time.monotonic() - t0 < budget:
            progress = False
            for cand in shr(copy.deepcopy(plan)):
                if time.monotonic() - t0 > budget:
                    break
                key = json.dumps(cand, sort_keys=True)
                if key in seen:
                    continue
                seen.add(key)
                tried += 1
                res = w.call({'plan': cand})
                if res and res.get('violation') and res['violation'][0] == kind:
                    plan = cand
                    progress = True
                    break
    finally:
        w.close()
    return plan, tried


# ---------------------------------------------------------------- check

def repo_digest() -> str:
    h = hashlib.sha256()
    for sub in ('tm', 'tools', 'src', 'machines'):
        for p in sorted((build.REPO / sub).rglob('*')):
            if p.is_file() and p.suffix in ('.py', '.rs', '.c', '.h'):
                h.update(p.read_bytes())
    for p in sorted(build.REPO.glob('*.py')):
        h.update(p.read_bytes())
    return h.hexdigest()[:16]


def make_conf(mod) -> dict:
    conf = {}
    if 'ref' in mod.BUILDS:
        build.build_ref()
    if 'ext' in mod.BUILDS:
        try:
            conf['so'] = str(build.build_ext())
            conf['ext'] = 'current'
        except build.BuildError:
            if not getattr(mod, 'RUST_IS_HOST', False):
                raise
            conf['so'] = str(build.build_snapshot())
            conf['ext'] = 'snapshot'
    for name in mod.BUILDS:
        if name not in ('ref', 'ext'):
            conf[name] = str(getattr(build, 'build_' + name)())
    return conf


def replay_file(prop: str, seed, i, plan, violation, note='') -> Path:
    d = VERIF / 'replays'
    d.mkdir(exist_ok=True)
    p = d / f'{prop}-{seed}-{i}.json'
    p.write_text(json.dumps({
        'property': prop, 'seed': seed, 'run': i, 'violation': violation,
        'repo_digest': repo_digest(), 'note': note,
        'replay_with': f'python3 -B /verif/sim/main.py replay {p}',
        'plan': plan}, indent=1) + '\n')
    return p


def check(prop: str, tier: str, seed: int) -> int:
    t0 = time.monotonic()
    mod = importlib.import_module(prop.lower())
    conf = make_conf(mod)
    conf['tier'] = tier
    t_build = time.monotonic() - t0
    runs = int(os.environ.get('VERIF_RUNS', mod.RUNS[tier]))
    print(f'{prop} seed={seed} tier={tier} runs={runs} build={t_build:.1f}s', flush=True)

    # known findings are replayed first: still there?
    known_hit = collections.Counter()
    fnd = [f for f in findings(prop) if f.get('status') == 'finding']
    if fnd:
        for f, res in zip(fnd, run_jobs(prop, conf, [{'plan': f['plan'], 'i': -1} for f in fnd],
                                        ncpu=min(4, CPUS), stop_on_violation=False)):
            if res.get('violation') and is_known(prop, conf, dict(res, plan=f['plan'])) is not None:
                known_hit[f['key']] += 1

    jobs = [{'seed': seed, 'i': i, 'tier': tier, 'want_plan': i < 3} for i in range(runs)]
    wall = getattr(mod, 'WALL', {'quick': 420.0, 'thorough': 3.0 * 3600})[tier]
    t1 = time.monotonic()
    results = run_jobs(prop, conf, jobs, wall=wall)
    t_run = time.monotonic() - t1

    errors = [r for r in results if 'error' in r]
    results = [r for r in results if 'error' not in r]
    stats, faults = collections.Counter(), collections.Counter()
    marks: set[str] = set()
    logs: set[str] = set()
    incon = collections.Counter()
    nontriv = 0
    events = 0
    viols = []
    for r in results:
        stats.update(r['stats'])
        faults.update(r['faults'])
        marks.update(r['marks'])
        events += r['events']
        if r['nontrivial'] and r['log'] not in logs:
            nontriv += 1
        logs.add(r['log'])
        if r['inconclusive']:
            incon[r['inconclusive']] += 1
        if r['violation']:
            f = is_known(prop, conf, r)
            if f is not None:
                known_hit[f['key']] += 1
            else:
                viols.append(r)

    # determinism: the same runs again, fewer workers, other hash seed
    redo_n = min(len(results), {'quick': 24, 'thorough': 200}[tier])
    mism = []
    if redo_n and not viols and not errors:
        by_i = {r['i']: r for r in results}
        step = max(1, len(by_i) // redo_n)
        again = run_jobs(prop, conf, [jobs[i] for i in sorted(by_i)[::step]][:redo_n],
                         ncpu=2, hashseed='4711', stop_on_violation=False)
        mism = [r['i'] for r in again
                if r.get('log') != by_i[r['i']]['log'] or r.get('violation') != by_i[r['i']]['violation']]

    rc = 0
    replay = None
    if viols:
        v = min(viols, key=lambda r: r['i'])
        kind, detail = v['violation']
        conf_plan = v['plan']
        budget = {'quick': 90.0, 'thorough': 300.0}[tier]
        small, tried = minimise(prop, conf, conf_plan, kind, budget)
        w = Worker(prop, conf)
        res = w.call({'plan': small})
        w.close()
        again = res.get('violation')
        if not again or again[0] != kind:
            small, note = conf_plan, 'not minimised'
            again = (kind, detail)
        else:
            note = f'minimised: {len(json.dumps(conf_plan))} -> {len(json.dumps(small))} bytes, {tried} candidates'
        replay = replay_file(prop, seed, v['i'], small, list(again), note)
        print(f'run {v["i"]}: {again[0]}: {again[1]}')
        print(f'{len(viols)} violating run(s); {note}')
        rc = 1

    samples = [r['plan'] for r in results if r.get('plan')][:3]
    dt = time.monotonic() - t0
    ev = {
        'property': prop, 'tier': tier, 'seed': seed,
        'level': getattr(mod, 'LEVEL', 'exploration'),
        'coverage': {
            'evaluations': len(results),
            'distinct_nontrivial': nontriv,
            'rule': mod.RULE,
            'samples': json.loads(json.dumps(samples))[:2],
            'runs_per_hour': int(len(results) / max(t_run, .001) * 3600),
            'seeds_per_hour': int(len(results) / max(t_run, .001) * 3600),
            'simulated_time': {k: v for k, v in stats.items() if k.startswith('t:')},
            'simulated_events': events,
            'faults_fired': dict(sorted(faults.items())),
            'probes': {k: v for k, v in sorted(stats.items()) if not k.startswith('t:')},
            'distinct_states_or_interleavings': len(marks),
            'state_measure': getattr(mod, 'MEASURE', 'distinct event-log digests'),
            'distinct_event_logs': len(logs),
            'inconclusive': dict(incon),
            'cpu_s': round(sum(r.get('cpu', 0) for r in results), 1),
            'determinism_recheck': {'runs': redo_n, 'mismatches': len(mism),
                                    'how': 'fresh processes, 2 workers, PYTHONHASHSEED=4711'},
            'real_components': mod.REAL, 'stub_components': mod.STUB,
            'rust_extension': conf.get('ext', 'not used'),
            'known_findings_seen': dict(known_hit),
        },
        'assumptions': getattr(mod, 'ASSUME', []),
        'wall_s': round(dt, 2), 'violations': len(viols),
    }
    (VERIF / 'evidence').mkdir(exist_ok=True)
    (VERIF / 'evidence' / f'{prop}.json').write_text(json.dumps(ev, indent=1, default=str) + '\n')

    for f in fnd:
        if known_hit[f['key']]:
            print(f'KNOWN-FINDING: property={prop} {f["what"]}')

    if rc == 1:
        print(f'VIOLATION property={prop} replay={replay}', flush=True)
        return 1
    if errors:
        print(f'ERROR: harness failed in {len(errors)} run(s):\n{errors[0]["error"]}', file=sys.stderr)
        return 2
    if mism:
        print(f'ERROR: runs {mism[:5]} did not repeat exactly', file=sys.stderr)
        return 2
    if len(results) < min(runs, max(10, runs // 5)):
        print(f'ERROR: only {len(results)} of {runs} runs finished', file=sys.stderr)
        return 2
    bad = sum(incon.values())
    if bad > len(results) * getattr(mod, 'MAX_INCONCLUSIVE', .25):
        print(f'ERROR: {bad} of {len(results)} runs inconclusive: {dict(incon)}', file=sys.stderr)
        return 2
    print(f'{prop} ok: {len(results)} runs, {nontriv} distinct non-trivial, '
          f'{sum(faults.values())} faults, {len(marks)} states, inconclusive {dict(incon)}, '
          f'{dt:.1f}s', flush=True)
    return 0


def replay(path: str) -> int:
    data = json.loads(Path(path).read_text())
    prop = data['property']
    mod = importlib.import_module(prop.lower())
    conf = make_conf(mod)
    conf['tier'] = 'quick'
    w = Worker(prop, conf)
    res = w.call({'plan': data['plan']})
    w.close()
    if 'error' in res:
        print(res['error'], file=sys.stderr)
        return 2
    if res['violation']:
        print(f'{res["violation"][0]}: {res["violation"][1]}')
        print(f'event log {res["log"]}')
        print(f'VIOLATION property={prop} replay={path}')
        return 1
    print(f'no violation; event log {res["log"]} inconclusive={res["inconclusive"]}')
    return 0
