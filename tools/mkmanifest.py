#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
GEN = 'Every obligation generated on this run from the current sources is accepted by the verifier (Python 2 semantics of /verif/engine and z3 trusted; library calls by assumed contracts). '
# level, note
N = {
 'S01': ('proof', 'Texts of any length: the codec is a homomorphism proved per character and per length case.'),
}
BOUND = {}
exec(open(os.path.join(HERE, 'tools', 'levels.py')).read())
checks = []
for p in props:
    i = p['id']
    lv, note = LEVELS[i]
    checks.append({
        'property': i,
        'quick_cmd': 'python3-vt /verif/check.py %s --tier quick' % i,
        'thorough_cmd': 'python3-vt /verif/check.py %s --tier thorough' % i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': 'contract harnesses over the real sources: symbolic execution to verification conditions, discharged by z3 (deductive, per obligation)',
        'level': lv, 'level_note': GEN + note})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': [],
     'notes': 'No hooks in /repo: the verifier reads the ASTs of the real sources on every run. See DESIGN.md.'}
open(os.path.join(HERE, 'MANIFEST.json'), 'w').write(json.dumps(m, indent=1) + '\n')
