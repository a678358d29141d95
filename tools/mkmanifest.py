#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist."""
import json, os, ast
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + '/properties.jsonl')]
checks, na = [], []
TECH = ('TLA+ specification model-checked with TLC; behaviours generated from it are replayed on the real code and histories recorded '
        'from the real code are validated against it')
for p in props:
    f = '%s/checks/%s.py' % (here, p['id'].lower())
    if not os.path.exists(f):
        na.append({'property': p['id'], 'reason': 'check not built yet'})
        continue
    doc = ast.get_docstring(ast.parse(open(f).read())) or ''
    checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py ' + p['id'],
                   'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p['id'],
                   'technique': TECH, 'level': 'model_checking', 'level_note': ' '.join(doc.split())[:600]})
json.dump({'version': 1, 'setup_cmd': 'python3 tools/selftest.py', 'checks': checks, 'not_applicable': na,
           'notes': 'See DESIGN.md. Specification in /verif/spec (TLA+, TLC).'}, open(here + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
