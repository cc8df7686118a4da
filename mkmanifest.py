#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json
NOTE = ('Seeded sampling of scenarios, schedules and faults, not enumeration: a quiet run is evidence, not proof. Trusted: the simulator (sim/), the stub Qt headers (workload/qt), '
        'libclang 20, the oracle in dst/%s.py. ')
T = {
 'C01': ('differential simulation: seeded batches with failing members against fresh single runs', 'Batches of 2-12 translation units.'),
 'C02': ('differential simulation: seeded clang-tidy runs over several files against fresh single-file runs', 'Up to 3 runs of up to 8 files per process.'),
 'C03': ('seeded thread scheduling with preemption at every access to static memory, happens-before race detection, differential oracle', 'No preemption inside libclang itself; 2-4 threads.'),
 'C04': ('differential simulation: seeded session sequences in one process against fresh processes', 'Sequences of 2-10 sessions.'),
 'C05': ('simulation of exporting batches with failing members; exported file against single exports and against what is printed', 'Batches of 2-12 translation units.'),
 'C06': ('simulation of exporting sessions in sequence and on scheduled threads, with export faults; files against fresh processes', 'Up to 3 threads.'),
 'C07': ('fault injection into every file operation of the export, against the same run without faults', 'Faults at the system call boundary of the fixes file.'),
 'C08': ('seeded crashes at every export operation and a seeded conductor interleaving exporting processes, file read after every operation', 'Process crashes, not power loss.'),
 'C09': ('the same execution under different simulated heaps (placement, reuse, fill of heap and dead stack), clocks and random numbers', 'Memory seen through malloc and the stack below the frame; 3 heaps per scenario (6 in the thorough tier).'),
 'C10': ('the same input simulated under several seeded check selections, orders and entry points', '3-6 selections per input.'),
 'C11': ('simulated histories of documents with seeded suppression comments (sequential and scheduled threads) against an executable reference model', 'The model is the documented grammar; lines inside macros are not judged.'),
 'C12': ('torn inputs and read faults at seeded bytes in seeded sequences, against the compiler alone and fresh runs', 'Inputs on which the compiler alone fails to end are not judged.'),
 'C13': ('seeded read, overlay and export faults over batches; exit status against the compiler alone under the same faults', 'read(2)-based input; no mmap faults.'),
 'C14': ('compilation with the plugin, under seeded arguments and export faults, against the compilation without it', 'IR and object output on x86-64.'),
}
NA = {
 'C15': 'A pure function of the option strings and the environment: no schedule, time, I/O or history takes part, so there is nothing to simulate (that it does not change with the history is part of C02, C04, C10).',
 'C16': 'A pure function of the text of a file: parsing comments meets no fault or schedule (their effect across histories, sessions and threads is C11).',
 'C17': 'A pure function of a location and three options: no schedule, time, I/O or history.',
 'C18': 'A pure function of a check name and the configuration: no schedule, time, I/O or history (that errors do not disturb other checks is part of C10).',
 'C19': 'About the meaning of a source text transformation: a pure function of the input; deciding it needs program equivalence, not schedules or faults.',
 'C20': 'Conformance of about a hundred pattern matchers to their documentation: a pure function of the syntax tree without any nondeterminism.',
 'C21': 'A static consistency of tables and documents: nothing is executed.',
 'C22': 'A shell script of one exec: it holds no state, reads no file and handles no fault, so its behaviour is a pure function of its arguments and environment.',
}
m = {'version': 1, 'setup_cmd': 'python3 sim/build.py', 'checks': [], 'not_applicable': [{'property': k, 'reason': v} for k, v in sorted(NA.items())],
     'notes': 'No hooks in /repo: clazy is compiled unchanged, instrumented (-fsanitize=thread calls answered by the simulator, libc interposed). Replay: python3 check.py --replay FILE.'}
for k in sorted(T):
    t, n = T[k]
    m['checks'].append({'property': k, 'quick_cmd': 'python3 check.py ' + k, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + k, 'evidence_file': 'evidence/%s.json' % k,
                        'technique': 'deterministic simulation with fault injection: ' + t, 'level': 'exploration', 'level_note': NOTE % k.lower() + n})
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
open('MANIFEST.json', 'a').write('\n')
