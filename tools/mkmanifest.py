#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
props = [json.loads(l) for l in open('properties.jsonl')]
T = {
 'S01': ('deterministic simulation: seeded thread schedules at every atomic operation, linearizability checker', 'exploration',
   'Random exploration of interleavings of the real stack on the real epoch-reclamation library; sequentially consistent executions only (weak memory is judged through S02).'),
 'S02': ('deterministic simulation: seeded thread schedules, happens-before race detector, tracking allocator, drop accounting', 'exploration',
   'Random exploration; data races are decided per execution by vector clocks over every access of instrumented code, so an ordering weaker than needed is seen even though execution is sequentially consistent.'),
 'S03': ('deterministic simulation: seeded schedules with threads stalled for ever at random instructions', 'exploration',
   'Random exploration of stall points; one-time initialisation of the reclamation library is done before any stall.'),
 'S04': ('deterministic simulation: seeded thread schedules, length bounds over the recorded history', 'exploration',
   'Random exploration of interleavings.'),
}
exec(open('tools/manifest_more.py').read()) if os.path.exists('tools/manifest_more.py') else None
NA = {
 'N01': 'A pure function of the sequence of calls: no schedule, clock, fault or interleaving for a simulator to decide.',
 'N02': 'A pure function of the sequence of calls: no schedule, clock, fault or interleaving for a simulator to decide.',
 'N03': 'A pure function of its two operands: no schedule, clock, fault or interleaving for a simulator to decide.',
 'N04': 'A pure function of the sequence of calls: no schedule, clock, fault or interleaving for a simulator to decide.',
}
m = {'version': 1, 'setup_cmd': './build.sh', 'checks': [], 'not_applicable': [],
     'notes': 'No hook in /repo: the simulator attaches at the compiler-instrumentation and libc seams (DESIGN.md).'}
for p in props:
    i = p['id']
    if i in T:
        t, l, n = T[i]
        m['checks'].append({'property': i, 'quick_cmd': f'./check.sh {i} quick', 'thorough_cmd': f'./check.sh {i} thorough',
                            'technique': t, 'level': l, 'level_note': n})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'No check yet: work in progress.')})
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
