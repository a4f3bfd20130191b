#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/config.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools')
import config
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    c = config.CHECKS.get(i)
    if not c:
        na.append({'property': i, 'reason': config.NOT_APPLICABLE.get(i, 'no check built yet')})
        continue
    checks.append({
        'property': i,
        'quick_cmd': 'python3 tools/check.py %s quick' % i,
        'thorough_cmd': 'python3 tools/check.py %s thorough' % i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': 'symbolic execution of the LLVM IR of the real code, assertions decided by Z3 (bounded), native replay of counterexamples',
        'level': 'model_checking',
        'level_note': 'Every input within the bounds is decided by the solver. Bounds: %s. Trusted: clang/LLVM front end, the symx executor, Z3, the stubs in stubs/%s.' % (c['bounds'], ('; ' + '; '.join(c['assumptions'])) if c.get('assumptions') else ''),
    })
m = {'version': 1, 'setup_cmd': 'make -s -j8 -C engine B=/verif/.build/engine', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the checks compile /repo/lib/src unmodified. known_findings.json lists recorded and repaired defects.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
