#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py; with --check, tells whether the tools the checks need are there."""
import json, os, shutil, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
if '--check' in sys.argv:
    missing = [t for t in ('g++', 'clang++', 'python3') if not shutil.which(t)]
    print('missing: %s' % missing if missing else 'tools present')
    sys.exit(1 if missing else 0)
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'python3 tools/mkmanifest.py --check', 'checks': [], 'not_applicable': [],
     'notes': 'No hooks in /repo: the monitors observe the public interface, interposed libc calls and sanitizers. '
              'The fix: commits in /repo are listed in known_findings.txt.'}
for p in props:
    c = CHECKS.get(p['id'])
    if c is None:
        m['not_applicable'].append({'property': p['id'], 'reason': 'no check has been built yet'})
        continue
    m['checks'].append({'property': p['id'], 'quick_cmd': 'python3 check.py %s' % p['id'],
                        'thorough_cmd': 'python3 check.py %s --thorough' % p['id'],
                        'technique': c['technique'], 'level': c.get('level', 'exploration'),
                        'level_note': c['note']})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
