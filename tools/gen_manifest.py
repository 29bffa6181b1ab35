#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, 'tools')); sys.dont_write_bytecode = True
import checks
props = [json.loads(l)['id'] for l in open(f'{R}/properties.jsonl')]
m = dict(version=1, setup_cmd='./check --build',
    checks=[dict(property=p, quick_cmd=f'./check {p}', thorough_cmd=f'./check {p} --tier thorough', evidence_file=f'evidence/{p}.json',
        technique=checks.CHECKS[p]['technique'], level='model_checking',
        level_note='Bounded: ' + checks.CHECKS[p]['bounds'] + ' Assumes: ' + ' '.join(checks.CHECKS[p].get('assumptions', []) or ['only the common assumptions in DESIGN.md.']))
        for p in props if p in checks.CHECKS],
    not_applicable=[dict(property=p, reason=checks.NOT_APPLICABLE.get(p, 'No check built yet.')) for p in props if p not in checks.CHECKS],
    notes='No hooks are needed: the harnesses use the public API only. See DESIGN.md.')
json.dump(m, open(f'{R}/MANIFEST.json', 'w'), indent=1); open(f'{R}/MANIFEST.json', 'a').write('\n')
