#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py (run after changing the registered checks)."""
import json, sys
sys.path.insert(0, '/verif')
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
m = dict(version=1, setup_cmd='python3 tools/selftest.py', checks=[], not_applicable=[])
for p in props:
    c = CHECKS.get(p)
    if not c:
        m['not_applicable'].append(dict(property=p, reason=NOT_APPLICABLE.get(p, 'check under construction')))
        continue
    m['checks'].append(dict(property=p, quick_cmd='python3 check.py %s --tier quick' % p, thorough_cmd='python3 check.py %s --tier thorough' % p,
        technique='bounded symbolic execution of the compiled C++ (LLVM bitcode) with Z3 deciding every branch and assertion',
        level=c.get('level', 'model_checking'),
        level_note='Holds for every input within the stated bounds (' + '; '.join(c['bounds'] if isinstance(c['bounds'], list) else [c['bounds']])[:700] + '). Trusts the engine (validated against native runs of sampled paths on every run), Z3, clang, and the libstdc++/future models in shim/.'))
m['notes'] = 'See DESIGN.md. Findings: known_findings.txt.'
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
