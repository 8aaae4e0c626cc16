#!/usr/bin/env python3
"""Writes ../MANIFEST.json from the rules there are."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.join(HERE, '..')
sys.path.insert(0, ROOT)
from sa.rules import RULES

NA = {
    'C30': 'A property of whole histories with keys compared by foreign code (an order that is not total, '
           'a key that changes); the steps of an induction over histories are C27 and C28.',
    'C31': 'A property of unbounded interleaved histories of several processes; the local obligations '
           'it rests on are C06, C07, C21 and C22.',
    'C32': 'Depends on pickling and unpickling of arbitrary values, which is library behaviour '
           'and runtime data.',
    'C34': 'Which records are reachable is runtime data; the obligations that make a pack keep '
           'what is committed and report what it removes are C15 and C17.',
    'C35': 'Equality of results with the built-in types for all values is a value-level '
           'equivalence that no static analysis in reach settles.',
    'C36': 'A quantitative property of runtime counts and access patterns.',
    'C37': 'Termination under an unbounded rate of commits is a property of the schedule, not of the source.',
}
checks = []
for pid in sorted(RULES):
    title, module = RULES[pid]
    m = importlib.import_module('sa.rules.' + module)
    doc = ' '.join((m.__doc__ or '').split())
    checks.append({
        'property': pid,
        'quick_cmd': 'python3 check.py %s quick' % pid,
        'thorough_cmd': 'python3 check.py %s thorough' % pid,
        'evidence_file': 'evidence/%s.json' % pid,
        'technique': getattr(m, 'TECHNIQUE', 'path-sensitive typestate and dataflow analysis of the source'),
        'level': 'other',
        'level_note': 'Decided from the source on every run: ' + doc + ' ' + ' '.join(
            'Assumes: %s.' % a for a in getattr(m, 'ASSUMPTIONS', [])),
    })
na = [{'property': k, 'reason': v} for k, v in sorted(NA.items())]
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    p = json.loads(line)
    if p['id'] not in RULES and p['id'] not in NA:
        na.append({'property': p['id'], 'reason': 'No check has been built yet.'})
json.dump({'version': 1, 'setup_cmd': 'python3 -m compileall -q sa check.py', 'checks': checks,
           'not_applicable': na,
           'notes': 'Static analysis only; no hooks in /repo. See DESIGN.md.'},
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
