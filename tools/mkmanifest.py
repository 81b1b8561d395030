#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks below (properties without a row become not_applicable)."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, 'tools'))
from checks_table import CHECKS, NOT_APPLICABLE
props = [json.loads(l)['id'] for l in open(os.path.join(here, 'properties.jsonl'))]
checks = []
na = []
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        checks.append({
            'property': p,
            'quick_cmd': f'./check {p} quick',
            'thorough_cmd': f'./check {p} thorough',
            'evidence_file': f'evidence/{p}.json',
            'technique': c['technique'],
            'level': c.get('level', 'model_checking'),
            'level_note': c['note'],
        })
    else:
        na.append({'property': p, 'reason': NOT_APPLICABLE.get(p, 'no check built yet')})
m = {
    'version': 1,
    'setup_cmd': './check setup',
    'checks': checks,
    'not_applicable': na,
    'notes': 'No hooks: everything the checks need is reachable through the public API, the command line tools and the generated files. Findings (all repaired by "fix:" commits in /repo) are listed in known-findings.txt; DESIGN.md describes the method.',
}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
