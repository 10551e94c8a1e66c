#!/usr/bin/env python3
"""Writes MANIFEST.json from the property modules that exist."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
TECH = {
    'C01': 'deterministic simulation: seeded I/O fault injection at every file operation of a stage',
    'C02': 'deterministic simulation: seeded crash points with lost/torn unsynced writes, restart and comparison with the clean run',
    'C03': 'deterministic simulation: seeded damage of the durable hand-over state and read faults during loading',
    'C04': 'deterministic simulation: seeded scheduler deciding every thread switch between concurrent stages',
    'C05': 'deterministic simulation: seeded call histories with failed calls and hostile callers, compared with calls in a fresh process',
    'C06': 'deterministic simulation: seeded checkpoint/restart of the running building at arbitrary ticks, bit comparison',
}
GEN = 'deterministic simulation: seeded environment schedules and disturbances, '
ORACLE = {
    'C07': 'heat balances checked on every tick of the history', 'C08': 'vapour balances checked on every tick of the history',
    'C09': 'surface and radiation balances checked on every tick of the history',
    'C10': 'conduction recursion replayed from the recorded history of every wall',
    'C11': 'comfort automaton replayed over the recorded history', 'C12': 'control invariants checked on every tick of the history',
    'C13': 'metamorphic runs over the calendar and run-up schedule', 'C14': 'twin runs diverging by one injected disturbance',
    'C15': 'reports cross-checked against the history and the files', 'C16': 'disturbances stop, bounded progress to an independent steady state',
    'C17': 'marker events injected in raw data traced through every stage',
    'C18': 'refinement of an independent executable model over the whole trajectory',
    'C21': 'seeded skies (bursts, a sun anywhere) taken through the pipeline, every surface and window checked at every step, and turned with the sun',
    'C23': 'whole-pipeline trajectories refine an independent model built from the specification; damaged specifications injected',
    'C24': 'twin runs of one history in another order, in copies and at another scale'}
NOTE = ('Seeded search: every explored run satisfied the property; unexplored schedules, houses and fault positions are not covered. '
        'Trusts numpy/pandas/CPython and the oracles described in DESIGN.md; floating tolerances as stated there.')
PURE = {
    'C19': 'a pure function of its arguments: no schedule, clock, I/O, fault or history for the simulator to decide; a seeded input '
           'sweep would be plain property testing',
    'C20': 'pure scalar formulas without state, time or I/O; nothing for a simulated schedule or fault to act on',
    'C22': 'a pure function that the pipeline does not call (the call is commented out); no state, time or I/O for the simulator to decide',
}
checks, na = [], []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)['id']
    if p in PURE:
        na.append({'property': p, 'reason': PURE[p]})
        continue
    if not os.path.exists(os.path.join(HERE, 'dst', 'props', p.lower() + '.py')):
        na.append({'property': p, 'reason': 'not built yet'})
        continue
    checks.append({'property': p, 'quick_cmd': 'python3 check.py %s' % p, 'thorough_cmd': 'python3 check.py %s --tier thorough' % p,
                   'evidence_file': 'evidence/%s.json' % p, 'technique': TECH.get(p) or GEN + ORACLE[p],
                   'level': 'exploration', 'level_note': NOTE})
m = {'version': 1, 'setup_cmd': 'python3 -m py_compile check.py && rm -rf __pycache__', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks were needed in /repo: every seam (files, clock, randomness, threads, environment data) is reached from '
              'outside. Repairs are the fix: commits listed in known_findings.txt.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks,', len(na), 'not applicable')
