#!/usr/bin/env python3
"""Writes MANIFEST.json: a property is claimed when specs/<id>.py is there."""
import importlib
import json
import os
import sys
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, os.path.join(HERE, 'specs'))
sys.path.insert(0, os.path.join(HERE, 'absint'))
checks, na = [], []
TECH = 'path-sensitive abstract interpretation of the syntax trees of /repo/src/deep (static analysis, own analyser)'
for n in range(1, 21):
    p = 'C%02d' % n
    if not os.path.exists(os.path.join(HERE, 'specs', p.lower() + '.py')):
        na.append({'property': p, 'reason': 'no check has been built for it yet'})
        continue
    m = importlib.import_module(p.lower())
    checks.append({
        'property': p, 'quick_cmd': 'python3 check.py %s' % p, 'thorough_cmd': 'python3 check.py %s --tier thorough' % p,
        'evidence_file': 'evidence/%s.json' % p, 'technique': getattr(m, 'TECHNIQUE', TECH), 'level': getattr(m, 'LEVEL', 'other'),
        'level_note': getattr(m, 'NOTE', None) or (
            m.EXPLANATION + ' Every path of every scenario of abstract inputs is walked through the current source (counts in the evidence); '
            'within the scenarios the answer is for all values of the unknowns. Trusts the analyser, its models of the standard library and of the trace protocol.')})
d = {'version': 1, 'setup_cmd': 'python3 tools/selftest.py' if os.path.exists(os.path.join(HERE, 'tools', 'selftest.py')) else 'true',
     'checks': checks, 'not_applicable': na,
     'notes': 'The checks read the source of /repo (or of $VERIF_REPO), they neither build nor run it. See DESIGN.md.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(d, f, indent=1)
    f.write('\n')
