"""Writes MANIFEST.json from sim/props.py and properties.jsonl."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from sim import props

NA = {
    'C90': 'A pure closed-form computation (nonasymptotic/bound.py): no scheduling, time, I/O, randomness or fault can change its result, so simulation has nothing to decide.',
    'C91': 'Pure geometry of one segment at a time: no scheduling, time, I/O, randomness or fault can change the answer, so simulation has nothing to decide (the independent geometric judge used by C01-C05 only covers the motions that planner runs happen to check).',
    'C92': 'A pure geometric and graph computation over a fixed roadmap: no schedule, clock, I/O or fault is in it, so simulation has nothing to decide; in this tree it is unimplemented (it raises NotImplementedError first thing). Its inputs (roadmaps) are covered by C01.',
}
TECH = 'deterministic simulation: seeded schedules, faults and operation histories run against the real code, '
NOTES = props.NOTES
checks, na = [], []
for line in open(os.path.join(V, 'properties.jsonl')):
    d = json.loads(line)
    p = d['id']
    if p in props.PROPS:
        checks.append({'property': p, 'quick_cmd': './run check %s quick' % p, 'thorough_cmd': './run check %s thorough' % p,
                       'technique': TECH + NOTES[p][0], 'level': 'exploration', 'level_note': NOTES[p][1],
                       'evidence_file': 'evidence/%s.json' % p})
    else:
        na.append({'property': p, 'reason': NA.get(p, 'check not built yet')})
doc = {'version': 1, 'setup_cmd': './run list',
       'hooks': {'guard': 'none', 'enable': 'No hooks: every seam is patched from outside (see DESIGN.md), /repo runs unmodified.', 'source_commits': []},
       'checks': checks, 'not_applicable': na}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(doc, f, indent=1)
    f.write('\n')
