#!/usr/bin/env python3
import json, os, sys
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
T = {
 'C01': ('reference-model monitor over generated reads', 'Every returned struct is compared field by field with an independent decoder, over all catalogue and seeded random schemas, both byte orders.'),
 'C02': ('reference-model monitor over faulty reads', 'Every error is compared with the one the model derives; every truncation point of every sampled encoding is run.'),
 'C03': ('stream-operation monitor', 'The instrumented stream records every byte asked for; position and operations after a refusal are checked against the model.'),
 'C04': ('reference-model monitor over generated writes', 'Emitted bytes are compared with an independent encoder.'),
 'C05': ('reference-model monitor over inconsistent writes', 'Outcome compared with the set of faults the model finds in the first offending field (several faults in one field: any of them is accepted).'),
 'C06': ('stream-operation monitor on refused writes', 'Bytes handed to the sink are compared with the encoding of the fields before the offending one.'),
 'C07': ('round-trip monitor over edit histories', 'The two directions of the library are compared with each other; the model only supplies side conditions (widths, ceilings).'),
 'C08': ('history monitor of derived fields', 'Bytes of length and discriminant fields compared with the model after every edit, and around each capacity.'),
 'C09': ('bit-flip monitor of pinned fields', 'Every byte and bit of every pinned field is varied on the wire and in the struct.'),
 'C10': ('boundary monitor of constraints', 'Constraints are evaluated by the model over unbounded integers and compared with what the library accepts, in both directions.'),
 'C11': ('allocation monitor (operator new)', 'Every block requested during a cast is recorded and compared with the field ceiling; two default ceilings are built.'),
 'C12': ('AddressSanitizer, UBSan, LeakSanitizer, memcheck', 'No report on hostile workloads; red-zone tools miss intra-object overflows, which C01/C04 would show as wrong values.'),
 'C13': ('fault injection with stream and allocation monitors', 'Faults are placed at every operation, byte budget and allocation of the sampled casts.'),
 'C14': ('differential monitor across stream kinds and evaluations', 'Four stream kinds at run time and one in constant evaluation are compared on the same cases.'),
 'C15': ('reference-model monitor of presence', 'Sweeps of the fields predicates read, in both directions, against the model.'),
 'C16': ('reference-model monitor of selection', 'Sweeps of selectors, in both directions, against the model.'),
 'C17': ('source snapshot and allocation monitor', 'Object representation and heap blocks are snapshotted around each write; operator new must not run.'),
 'C18': ('ThreadSanitizer and per-thread outcome monitor', 'No race report and outcomes equal to those alone, over free-running threads, stepped interleavings at stream operations and nested casts; other schedules are not explored.'),
 'C19': ('differential monitor across byte orders', 'Paired executions on mirrored inputs.'),
 'C20': ('differential monitor across spellings', 'Paired executions of equivalent schemas on the same inputs.'),
 'C21': ('accessor monitor over edit histories', 'Access granted per field is compared with the role the model computes; addresses and values are monitored.'),
 'C22': ('differential monitor across header sets', 'Digests of the same program built three ways, compared case by case.'),
 'C23': ('acceptance monitor of the schema checks over generated ill-formed schemas', 'The schema checks are constexpr code that runs in the compiler; it is run there on schemas with one fault and on the same schemas without it, and what it accepts is monitored.'),
}
sys.path.insert(0, os.path.join(root, 'harness'))
sys.path.insert(0, root)
sys.dont_write_bytecode = True
from checks import CHECKS
m = {'version': 1, 'setup_cmd': 'python3 run.py --setup',
     'checks': [{'property': p, 'quick_cmd': f'python3 run.py {p} quick', 'thorough_cmd': f'python3 run.py {p} thorough', 'evidence_file': f'evidence/{p}.json',
                 'technique': t, 'level': CHECKS[p]['level'], 'level_note': n + ' Trusts the reference model, the generators\' reach and the compiler; held on the executions observed, not proved.'} for p, (t, n) in T.items()],
     'not_applicable': [],
     'notes': 'No hooks in /repo are needed: the library is header-only and generic over the stream, so the instrumented streams, operator new and the sanitizers observe everything from outside.'}
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
