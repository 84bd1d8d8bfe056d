#!/usr/bin/env python3
"""Writes MANIFEST.json from the drivers present and the notes below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SAN = 'AddressSanitizer+UBSan build driven by generated workloads; '
T = {
 'C01': 'sanitizer-monitored hostile-input execution (ASan+UBSan, allocation-balance and CPU-time monitors)',
 'C02': 'sanitizer-monitored hostile resource decoding (ASan+UBSan, allocation-balance and CPU-time monitors)',
 'C06': 'differential runs under heap-fill variation and valgrind memcheck',
 'C26': 'runtime monitors over object observables around copies, edits and destruction (ASan, allocation balance)',
 'C27': 'ThreadSanitizer plus comparison of concurrent with sequential results',
 'C30': 'sanitizer-monitored execution with hostile arguments (ASan+UBSan, allocation balance)',
 'C31': 'fault injection at every allocation and text-conversion call under ASan+UBSan with allocation-balance monitor',
}
DEF = 'runtime oracle (independent model) over generated workloads, under ASan+UBSan'
N = 'Held on the executions listed in the evidence; says nothing about inputs the generators never produce. Trusts the reference model in /verif/src and clang 18 sanitizers.'
NOTES = {
 'C06': 'Heap contents are varied by filling fresh blocks; memcheck watches a sample of the same cases for use of uninitialised values.',
 'C27': 'ThreadSanitizer sees the interleavings that happen in the run; libc internals it does not intercept are not checked.',
 'C31': 'Every single failing allocation of each sampled scenario is tried (up to the cap in the evidence); double faults are not.',
}
ids = ['C%02d' % i for i in range(1, 37)]
checks, na = [], []
for i in ids:
    if os.path.exists(V + '/src/drivers/%s.cpp' % i):
        checks.append({'property': i, 'quick_cmd': 'python3 run.py %s --tier quick' % i, 'thorough_cmd': 'python3 run.py %s --tier thorough' % i,
            'evidence_file': 'evidence/%s.json' % i, 'technique': T.get(i, DEF), 'level': 'fault_enumeration' if i == 'C31' else 'exploration', 'level_note': (NOTES.get(i, '') + ' ' + N).strip()})
    else: na.append({'property': i, 'reason': 'no check registered yet (work in progress)'})
json.dump({'version': 1, 'setup_cmd': 'python3 run.py --setup', 'checks': checks, 'not_applicable': na,
    'notes': 'No hooks in /repo: the library is observed through its public interface and compiler instrumentation only. See DESIGN.md.'}, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
