"""Writes properties.jsonl and MANIFEST.json from one list.

A property with a module sim/props/<id>.py is claimed; the rest say why not."""
import json
from pathlib import Path

V = Path(__file__).resolve().parent


def anchors(files, mech, observe, hook=None, state=()):
    return {'files': files,
            'mechanism': [{'name': n, 'where': w} for n, w in mech],
            'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state],
            'observe_at': observe, 'hook_needed': hook}


P = []


def prop(id, title, statement, over, text, why, anch, technique=None, note=None, na=None):
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': anch,
              '_t': technique, '_n': note, '_na': na})


DST = 'deterministic simulation with fault injection: '

prop('C01', 'Accelerated simulation passes only through real configurations of the machine',
     'Every tape, head position and state an accelerated run of a program on blank tape passes through is a configuration '
     'the plain Turing machine of that program reaches, in the same order. This stays true whatever acceleration is '
     'declined, forgotten, refused or cut off during the run, and when it is not interfered with.',
     ['programs', 'schedules', 'fault_sequences'],
     'all programs, all cycle budgets, and all sequences of declined or forgotten acceleration, including loss and reuse '
     'of the identities by which the run recognises its own tape blocks',
     'The tests compare final step and mark counts of chosen programs; they never look at the configurations between, and '
     'never vary which rules get learnt or applied.',
     anchors(['tm/machine.py', 'tm/prover.py', 'tm/rules.py', 'tm/tape.py', 'tm/num.py', 'src/prover.rs'],
             [('chain steps over runs of one colour', 'tm/tape.py Tape.step'),
              ('rule inference from four sightings', 'tm/prover.py Prover.run_rule, src/prover.rs PastConfigs'),
              ('rule application', 'tm/rules.py ApplyRule.apply_rule'),
              ('enumerated tape for loop-free re-runs', 'tm/tape.py EnumTape')],
             ['tape and state after every cycle'], None,
             [('past configurations', 'per state, what was seen at which cycle', 'src/prover.rs PastConfigs')]),
     DST + 'seeded schedules of declined/forgotten acceleration, every configuration checked against a plain machine',
     'Sampled programs and fault schedules; exact replay of every jump by a separate C machine, long jumps on a scaled '
     'instance. Trusts the C reference machine and the pyo3 stand-in.')

prop('C02', 'A run reports one outcome, and the outcome is true of the machine',
     'A run ends with exactly one outcome, whatever was run before on the same object or went wrong during it. A reported '
     'halt, undefined slot, spin-out or blank tape happens on the plain machine, at the reported step where a step is '
     'reported and at the reported slot; a program reported as never halting never halts. An outcome brought on by a '
     'resource refusal says so instead of claiming a fact about the program.',
     ['programs', 'histories', 'fault_sequences'],
     'all programs, all histories of runs on one object, all budgets, and all placements of refused resources or an '
     'interrupt inside a run',
     'The tests run each program once on a fresh object with a budget known to suffice; none refuses a resource part way '
     'or runs an object twice.',
     anchors(['tm/machine.py', 'tm/prover.py', 'tm/tape.py'],
             [('outcome selection', 'tm/machine.py Machine.run'), ('blank bookkeeping', 'tm/machine.py Machine.run'),
              ('infinite-rule test', 'tm/rules.py make_rule / tm/machine.py')],
             ['outcome fields, last slot, steps, blanks of a finished run'], None,
             [('outcome fields', 'what the last run ended with', 'tm/machine.py Machine')]),
     DST + 'histories of runs with refusals and interrupts, outcomes judged against a plain machine',
     'Sampled; non-halting claims are refuted only within 3 million plain steps. Trusts the C reference machine.')

prop('C03', 'A macro machine is its base machine, whoever shares its tables',
     'A machine that groups cells, remembers the cell behind the head, or does both, simulates exactly the base machine: '
     'every macro transition replays to the same tape, head and state, and its outcome is true of the base machine. Other '
     'macro machines in the process, interrupted or interleaved ones included, change none of this.',
     ['programs', 'schedules', 'fault_sequences', 'configurations'],
     'all programs, block sizes and nestings, all interleavings of several macro machines sharing the process-wide color '
     'tables, and interrupts at any point of building an entry',
     'The tests run macro machines one at a time to completion and look at final counts; none interrupts a machine while '
     'the shared tables are being written.',
     anchors(['tm/macro.py', 'src/blocks.rs'],
             [('shared color table', 'tm/macro.py tape_to_color, color_to_tape'),
              ('calculated instructions', 'tm/macro.py MacroProg.calculate_instr'),
              ('inner loop bound', 'tm/macro.py BlockLogic, BacksymbolLogic'),
              ('block size choice', 'src/blocks.rs opt_block')],
             ['every macro transition; outcome of the run'], None,
             [('color tables', 'numbering of cell groups, per base colour count', 'tm/macro.py TapeColorConverter')]),
     DST + 'several macro machines interleaved line by line by a seeded scheduler, each transition replayed on the base machine',
     'Sampled; non-halting claims refuted within 2 million base steps.')

prop('C04', 'Arithmetic on symbolic counts is arithmetic on the integers they denote',
     'Whenever an operation on symbolic counts answers, the answer denotes what the same operation on the denoted integers '
     'gives: sum, difference, product, exact quotient, power, remainder and order. What was computed before, by whom, or '
     'interrupted part way changes no answer; an operation that cannot answer refuses.',
     ['inputs', 'histories', 'schedules', 'fault_sequences'],
     'all expressions built by these operations, all interleavings of callers sharing the expression store, and interrupts '
     'at any line',
     'The tests compute chosen expressions, one caller, start to end.',
     anchors(['tm/num.py'],
             [('interned expressions and their caches', 'tm/num.py make_add, make_mul, make_div, make_exp'),
              ('special-cased sums and remainders', 'tm/num.py Add, Mul, Div, Exp'),
              ('modular exponentiation', 'tm/num.py exp_mod_special_cases, find_period'),
              ('order', 'tm/num.py __lt__')],
             ['results of the operators'], None,
             [('expression store', 'one object per distinct expression', 'tm/num.py ADDS, MULS, DIVS, EXPS')]),
     DST + 'interleaved and interrupted callers over one expression store, judged modulo three primes',
     'Sampled expressions; equality is modular for towers. Order judged for counts built of positive parts.')

prop('C05', 'Applying an inferred rule is the observed change repeated, all or nothing',
     'Applying a rule a number of times gives the counts that many single repetitions of the observed change give, the '
     'number of repetitions is the greatest that keeps every shrinking count positive, and a rule inferred from '
     'observations reproduces them. An application that is refused leaves the tape as it was.',
     ['inputs', 'histories', 'fault_sequences'],
     'all rules and tapes, with refusals at every read and histories continuing after a refusal',
     'The tests apply two or three rules to one tape each, without refusals.',
     anchors(['tm/rules.py', 'tm/tape.py'],
             [('rule inference', 'tm/rules.py make_rule, calculate_diff'),
              ('repetition count', 'tm/rules.py ApplyRule.count_apps'),
              ('application', 'tm/rules.py ApplyRule.apply_rule')],
             ['counts of the tape after each application']),
     DST + 'rule applications over a tape that refuses reads on plan, against step-by-step repetition',
     'Sampled. One listed finding: an application refused half way by a depth limit leaves the tape half changed.')

prop('C06', 'A run depends on nothing but its own program and limits',
     'A run of a program gives the same report - outcome, counts, displayed tapes - in a process that has done anything '
     'else before or at the same time as in a process of its own. Interrupted work, other callers taking turns, and the '
     'hash seed of the process change no report.',
     ['programs', 'histories', 'schedules', 'fault_sequences'],
     'all jobs, all histories of other jobs before them or interleaved with them, interrupts inside those, and hash seeds',
     'Each test runs in whatever process state the ones before left and is compared with constants recorded in the same '
     'order; interleaving and interrupts never occur.',
     anchors(['tm/num.py', 'tm/macro.py', 'tm/machine.py', 'src/machine.rs', 'src/reason.rs', 'src/segment.rs'],
             [('interned expressions', 'tm/num.py'), ('shared color tables', 'tm/macro.py'),
              ('randomly seeded hash maps', 'src/*.rs Dict, Set')],
             ['report of a run: outcome, counts, display'], None,
             [('process-wide stores', 'expressions, moduli, colors', 'tm/num.py, tm/macro.py')]),
     DST + 'a job run after and among seeded histories compared with the same job in a process of its own',
     'Sampled jobs and histories; sameness of the whole textual report.')

prop('C07', 'Tree generation yields each program of the tree exactly once under any schedule',
     'Generating the program tree returns exactly the leaves of the lazily grown tree for the requested states, colors, '
     'halt mode and step limit, each once, however the branches are spread over threads and in whatever order those run.',
     ['schedules', 'inputs', 'configurations'],
     'all thread schedules and work splits, all small parameters and step limits',
     'The tests count leaves for a handful of parameters on whatever schedule the machine picks, and compare no sets.',
     anchors(['src/tree.rs'],
             [('parallel descent', 'src/tree.rs build_tree'), ('branching', 'src/tree.rs branch'),
              ('shared basket', 'src/tree.rs tree_progs, access'), ('run to the next undefined slot', 'src/tree.rs run_for_undefined')],
             ['returned list of programs'], None,
             [('basket', 'programs harvested so far', 'src/tree.rs tree_progs')]),
     DST + 'the real tree code on a simulated thread pool with a seeded scheduler, against an independent enumeration',
     'Sampled schedules; parameters up to the sizes that fit the budget.')

prop('C08', 'The parallel filter prints every kept program once and whole, come what may',
     'Every input program the chosen decider does not rule out is printed exactly once, as one whole line, and no other '
     'line is printed, for any number of worker processes, any split of the input among them, any order in which they run '
     'and however the pool shuts down.',
     ['schedules', 'inputs', 'configurations', 'fault_sequences'],
     'all inputs, worker counts, chunk assignments, interleavings of worker output, and moments at which idle workers are ended',
     'No test runs the filter.',
     anchors(['just_so.py', 'tm/reason.py'],
             [('worker pool', 'just_so.py main'), ('worker output', 'just_so.py worker')],
             ['standard output of the whole process group'], None,
             [('worker output buffers', 'text printed but not yet written', 'just_so.py worker')]),
     DST + 'the real script on a simulated process pool with seeded scheduling, output buffering and shutdown',
     'The pool, its pipes and buffers are simulated after the documented behaviour of multiprocessing; the deciders are real.')

prop('C09', 'A program ruled out never does what it was ruled out for',
     'A program declared unable to halt never halts, one declared unable to blank the tape never blanks it, one declared '
     'unable to spin out never spins out, and one declared quickly terminating or recurrent ends up repeating itself and '
     'never halts; at any search depth, budget and hash order, and a larger budget never takes an answer back. (For '
     'programs in the form the deciders are written for: the first instruction is 1RB and every state leads to every other.)',
     ['programs', 'configurations', 'schedules'],
     'all programs, all depths and segment counts, all iteration orders of the randomly seeded hash maps inside',
     'The tests check recorded program lists at one depth each.',
     anchors(['src/reason.rs', 'src/segment.rs', 'src/machine.rs'],
             [('backward search', 'src/reason.rs cant_reach'), ('segment search', 'src/segment.rs all_segments_reached'),
              ('recurrence', 'src/machine.rs quick_term_or_rec')],
             ['answers of the deciders']),
     'deterministic simulation: seeded search over programs, budgets, hash seeds and call histories against a plain machine',
     'Refutation needs the plain machine to get there within 3 million steps.')

prop('C10', 'The Rust engine reports only truths, the same as the Python one',
     'What the Rust prover and quick machine report about a program - halting, undefined slot, spin-out, infinite rule, '
     'blank tapes and step or mark counts they give as exact - is true of the plain machine, and where both engines decide a program '
     'they decide it alike. Where the counts do not fit, the run gives up instead of reporting a wrong number.',
     ['programs', 'configurations', 'fault_sequences'],
     'all programs, budgets and count widths at which arithmetic can run out',
     'The tests compare recorded results of a list of programs.',
     anchors(['src/machine.rs', 'src/prover.rs', 'src/rules.rs', 'src/tape.rs'],
             [('prover loop', 'src/machine.rs run_prover'), ('rule application', 'src/rules.rs'),
              ('configurations seen', 'src/prover.rs')],
             ['result object of a run']),
     DST + 'the real engine with its acceleration declined or forgotten by a seeded plan, every cycle checked against plain steps, the report against the plain machine and the other engine',
     'Sampled programs and plans; rule applications too long to replay are judged on scaled-down instances.')

prop('C11', 'Stream tools write one correct record per input program',
     'Each command-line filter that reads programs from standard input (run, measure, normalize, instr_seq, c_prog, '
     'dump_macros, dump_graphs) answers every one of them, in order, with the same record it gives for that program alone, '
     'whatever the chunking of the input, repeated lines or an unterminated last line. A program whose evaluation fails, '
     'input that fails, output that stops being accepted and an interrupt end it with everything before intact: what was '
     'written is a beginning of what would have been.',
     ['inputs', 'histories', 'fault_sequences', 'crash_points'],
     'all input streams and deliveries, any point at which the input ends or fails or the output stops being accepted, any '
     'source line at which it is interrupted',
     'No test runs the scripts.',
     anchors(['run.py', 'measure.py', 'normalize.py', 'instr_seq.py', 'c_prog.py', 'dump_macros.py', 'dump_graphs.py',
              'tools/normalize.py', 'tools/instr_seq.py', 'tools/dot.py'],
             [('one record per line', 'run.py main'), ('a picture per program', 'dump_graphs.py')],
             ['standard output', 'pictures asked of dot']),
     'deterministic simulation with fault injection: the real scripts on simulated standard streams with seeded deliveries, ends, read and write errors and interrupts, each record against a process of its own',
     'run, measure and dump_macros are given programs that finish. Displays of macro machines are compared up to the numbering of their colors.')

prop('C12', 'The batch machines answer every program of their input correctly',
     'The compiled batch machines read a stream of fixed-width programs and print exactly the programs and scores the '
     'plain machine gives, each for its own program, whatever follows and precedes it and however the stream is delivered and ends.',
     ['inputs', 'histories', 'fault_sequences'],
     'all program streams, deliveries in pieces of any size, and any point at which the stream ends',
     'Each machine is tested on one recorded stream delivered whole.',
     anchors(['machines/machine.h', 'machines/2-2.c', 'machines/2-3.c', 'machines/2-4.c', 'machines/3-2.c', 'machines/4-2.c', 'machines/5-2.c'],
             [('tape wiping between programs', 'machines/machine.h WIPE_AND_SCORE'), ('reading', 'machines/machine.h')],
             ['standard output']),
     'deterministic simulation with fault injection: the compiled machines on simulated streams with seeded deliveries, ends and read errors, against a reference machine',
     'Programs are well formed; running time bounds the number of programs that use up their machine\'s limit.')

prop('C13', 'Generated C computes what the program computes',
     'The C source generated for a program behaves as the plain machine of that program: same tape changes, same order, same end.',
     ['programs'], 'all programs',
     'One generated program is compared as text.',
     anchors(['tools/c.py', 'c_prog.py', 'machines/structured'], [('code generation', 'tools/c.py')], ['generated source']),
     na='a pure function from one program to one text: no schedule, clock, I/O, shared state or fault its outcome could '
        'depend on (the script that reads programs and prints these texts is under C11)')

prop('C14', 'Programs survive the trip through text and normal form unchanged in behaviour',
     'Parsing and showing a program are inverse, and the normal form of a program is an idempotent renaming of it.',
     ['programs'], 'all programs',
     'The tests check recorded pairs.',
     anchors(['tm/parse.py', 'tm/show.py', 'src/instrs.rs', 'tools/normalize.py'],
             [('renaming', 'tools/normalize.py'), ('show', 'src/instrs.rs')], ['program text']),
     na='pure functions from text to text: no schedule, clock, I/O, shared state or fault for the outcome to depend on; '
        'nothing for a simulator to decide')

prop('C15', 'Graph classifications describe the program\'s control flow',
     'A program reported connected, reduced, strict or with given dead ends has that property in the graph of its transitions.',
     ['programs'], 'all programs',
     'The tests check recorded counts.',
     anchors(['tools/graph.py', 'src/graph.rs'], [('reduction', 'tools/graph.py Graph'), ('connectivity', 'src/graph.rs is_connected')],
             ['graph predicates']),
     na='pure functions of one program: no schedule, clock, I/O or fault involved')


def built(i):
    return (V / 'sim' / 'props' / f'{i.lower()}.py').exists()


def main():
    rows, checks, na = [], [], []
    for p in P:
        rows.append({k: v for k, v in p.items() if not k.startswith('_')})
        i = p['id']
        if built(i) and p['_t']:
            checks.append({'property': i, 'quick_cmd': f'python3 -B sim/main.py check {i} quick',
                           'thorough_cmd': f'python3 -B sim/main.py check {i} thorough',
                           'technique': p['_t'], 'level': 'exploration', 'level_note': p['_n']})
        else:
            na.append({'property': i, 'reason': p['_na'] or 'no check built yet'})
    (V / 'properties.jsonl').write_text(''.join(json.dumps(r) + '\n' for r in rows))
    (V / 'MANIFEST.json').write_text(json.dumps({
        'version': 1, 'hooks': {'guard': 'BB_SIM', 'enable': 'set in the environment of the run by the check of C10; nothing is built differently', 'source_commits': ['7a8c99a68d5d9ae1b6b67d71b5bc75334eca5c55']}, 'setup_cmd': 'python3 -B sim/build.py build_ref build_ext build_ext_sim build_treeref build_simrand', 'checks': checks, 'not_applicable': na,
    }, indent=1) + '\n')


if __name__ == '__main__':
    main()
