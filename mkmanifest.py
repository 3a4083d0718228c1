#!/usr/bin/env python3
"""Write MANIFEST.json: python3 mkmanifest.py ID... (the claimed properties)."""
import json, sys
claimed = sys.argv[1:]
tech = {
 'C01': 'seeded fault injection into simulated writers (error, short, full, interrupted, panicking, re-entrant) at every byte position; history checked against a fault-free golden run',
 'C02': 'seeded simulation of a lossy, reordering, fragmenting link with retransmission between a writing and a reading node; bits and independent exact reader compared',
 'C03': 'seeded simulation of a damaging disk under the parser; every outcome checked against an independent exact reference parser',
 'C04': 'seeded simulation of a storage path with torn, mixed, zeroed and flipped writes under the codecs; outcomes checked against an independent IEEE 754 model',
 'C05': 'deterministic thread scheduler with preemption at instrumented instructions, seeded schedules (random, PCT, shared-access, stall, boundary), results checked against runs alone in a fresh process',
 'C06': 'simulated signal delivery at seeded instrumented instructions and re-entrant writers; results checked against uninterrupted runs',
 'C07': 'simulated heap that refuses the n-th or all later requests; outcomes checked against the fault-free run',
 'C08': 'deterministic scheduler that suspends all other callers forever at seeded points, and step budgets per call',
 'C09': 'seeded histories with injected failures (writer errors, unwinding, parse errors, documented panics) compared with the first call of a fresh process',
 'C10': 'simulated memory environment: seeded dirty stack and heap, guard pages, canaries, allocation ledger, placement; results compared across environments',
 'C11': 'simulated host environment (math library, FP control word, clock, random source, environment) and differently built peer nodes; results compared across nodes',
 'C12': 'seeded simulation of replicas under reordering, duplicating delivery; states checked against an IEEE 754 order model and for convergence',
 'C14': 'simulated shortage of stack: every call on a thread whose stack ends at an inaccessible page, also nested in renderings, left by unwinding and on an unoptimised node; depth and results checked',
 'C13': 'seeded crash/restart simulation with torn checkpoints on one or several builds; final state compared with the uninterrupted run',
}
note = ('Seeded search over schedules and fault sequences: absence of a violation is evidence, not proof. Real library code runs in every simulated node; '
        'trusts the harness model (selftest), the kernel fork/mmap interface and the rustc/LLVM toolchain; the digit tables missing from the checkout are regenerated from their definition.')
na_pure = ('Pure function of its arguments: no schedule, clock, I/O, fault, crash or other party in it, so deterministic simulation with fault injection has nothing to decide here; '
           'feeding generated operands to it would be input generation in simulator vocabulary.')
props = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
level = {}
m = {'version': 1, 'setup_cmd': './setup.sh',
     'hooks': {'guard': 'none: no hook in /repo', 'enable': 'public API, link-time symbols and compiler instrumentation flags only (build.sh)', 'source_commits': []},
     'checks': [], 'not_applicable': [],
     'notes': 'Replay a violation with ./replay.sh FILE [-v]. known-findings.txt lists recorded and repaired defects.'}
for p in props:
    if p in claimed:
        m['checks'].append({'property': p, 'quick_cmd': f'./check.sh {p}', 'thorough_cmd': f'./check.sh {p}', 'evidence_file': f'evidence/{p}.json',
                            'technique': 'deterministic simulation with fault injection: ' + tech[p], 'level': 'exploration', 'level_note': note})
    else:
        m['not_applicable'].append({'property': p, 'reason': na_pure if p[0] == 'N' else 'Check under construction; not claimed yet.'})
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
