"""C01: every configuration of an accelerated run is a configuration of the
plain machine, in order, whatever acceleration was declined or forgotten."""
import pyengine
import progs
from core import Inconclusive

ID = 'C01'
BUILDS = ('ref', 'ext')
RUST_IS_HOST = True
RUNS = {'quick': 6000, 'thorough': 400_000}
CPU_LIMIT = 20
RULE = ('one run = one program (corpus, mutated corpus, lazily grown or random; 2-6 states, 2-5 colours) x a cycle '
        'budget x a seeded fault plan over cycles x a block allocator policy; non-trivial = the event log '
        '(cycle, state, scan, block counts, faults) differs from every other run and at least one transition was judged')
REAL = ['tm/machine.py Machine.run', 'tm/prover.py', 'tm/rules.py', 'tm/tape.py', 'tm/num.py', 'tm/macro.py (tcompile path)',
        'src/instrs.rs tcompile, src/prover.rs PastConfigs (real Rust, pyo3 stand-in)']
STUB = ['pyo3 (own stand-in over the CPython C API)', 'block allocator (simulated addresses)',
        'tape display (replaced by the observer)']
MEASURE = 'distinct (scan, left blocks, right blocks, state, jumped) tuples observed'
ASSUME = ['jumps too long to replay are judged on a scaled-down instance with the same residues mod 12']

KINDS = ['decline', 'amnesia', 'forget', 'norule', 'loopguess', 'limit', 'cfglim', 'applimit']


def setup(conf):
    pyengine.setup(conf)


def gen(rng, tier):
    k = rng.random()
    prog = progs.rule_prog(rng) if k < .5 else progs.lively_prog(rng) if k < .8 else progs.any_prog(rng)
    lim = rng.choice([60, 200, 400, 400, 800])
    if rng.random() < .04:
        prog, lim = rng.choice(progs.sharp()), rng.choice([800, 1500, 3000])
    faults = []
    if rng.random() < (.4 if k < .5 else .7):
        kinds = rng.sample(KINDS[:5], rng.choice([1, 2, 3]))
        if rng.random() < .15:
            kinds.append(rng.choice(KINDS[5:]))
        for _ in range(rng.choice([1, 2, 5, 12, 40])):
            faults.append([rng.choice(kinds), int(lim * rng.random() ** 1.5)])
    return {'prog': prog, 'lim': lim, 'faults': faults, 'seed': rng.randrange(1 << 30),
            'heap': rng.choice(['real', 'fresh', 'lifo', 'fifo', 'random'])}


def run(plan, out):
    heap = None
    if plan['heap'] != 'real':
        heap = pyengine.SimHeap(plan['seed'], plan['heap'])
        if pyengine.install_heap(heap) is None:
            heap = None
    sim = pyengine.Sim(plan['prog'], out, faults=plan['faults'], heap=heap, seed=plan['seed'])
    m = sim.run(plan['lim'])
    judge = sum(out.stats[k] for k in ('exact-jump', 'exact-step', 'scaled-jump', 'scaled-step'))
    out.nontrivial = judge > 0
    if heap:
        out.faults['address-reuse'] += heap.reused
    if sim.jumps:
        out.stats['runs-with-jumps'] += 1
    if sim.overreach:
        raise sim.overreach
    out.ev('end', m.cycles, m.steps, sim.jumps)


def finding_key(res):
    kind, what = res['violation'][:2]
    return kind if kind == 'rule-overreach' else f'{kind} {what}'
