#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks registered in vp.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import vp
NOTE = {
 'S': ('runtime reference-model monitor', 'Random physical points over all masses, couplings and frames; every observed amplitude compared with an independent tree-level reference or with another execution, disagreements adjudicated in quadruple precision. No claim beyond the points visited.'),
 'C': ('runtime reference-model monitor', 'Random and structured inputs and operation sequences; every observed result compared with an independent model. No claim beyond the executions observed.'),
 'R': ('sanitizers and differential execution', 'Instrumented executions of generated workloads over all processes and library types. No claim beyond the executions observed.'),
}
SPECIAL = {'R01': 'AddressSanitizer, LeakSanitizer and UndefinedBehaviorSanitizer', 'R02': 'valgrind memcheck and memory-pattern differential', 'R03': 'ThreadSanitizer and differential execution',
           'R06': 'monitoring of process state and output around each execution', 'R07': 'heap monitoring over repeated executions', 'R08': 'monitoring of floating-point exception flags at every step',
           'R04': 'differential execution over build configurations', 'R05': 'runtime reference-model monitor of the example program'}
checks, na = [], []
for l in open(H + '/properties.jsonl'):
    p = json.loads(l)['id']
    if p not in vp.CHECKS:
        na.append({'property': p, 'reason': 'check not built yet'})
        continue
    t, n = NOTE[p[0]]
    checks.append({'property': p, 'quick_cmd': 'VERIF_TIER=quick python3 vp.py ' + p, 'thorough_cmd': 'VERIF_TIER=thorough python3 vp.py ' + p,
                   'evidence_file': 'evidence/%s.json' % p, 'technique': SPECIAL.get(p, t), 'level': 'exploration', 'level_note': n})
json.dump({'version': 1, 'setup_cmd': 'python3 vp.py setup', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo are needed: everything is observed through the public API, sanitizers and valgrind. Checks build from the current /repo tree into /verif/build (git-ignored).'},
          open(H + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
