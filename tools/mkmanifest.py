"""Writes MANIFEST.json from the contract files present.  python3 tools/mkmanifest.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'contracts on the functions in /repo, extracted from source on every run and proved (pyvc + z3 + Lean); native oracle for replay'
NOTES = {}
if os.path.exists(os.path.join(HERE, 'tools', 'notes.json')):
    NOTES = json.load(open(os.path.join(HERE, 'tools', 'notes.json')))
checks, na = [], []
for l in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(l)['id']
    note = NOTES.get(p, {})
    if not os.path.exists(os.path.join(HERE, 'contracts', p.lower() + '.py')):
        if note.get('not_applicable'):
            na.append(dict(property=p, reason=note['not_applicable']))
        continue
    checks.append(dict(property=p, quick_cmd='/opt/venv/bin/python -B check.py ' + p,
                       thorough_cmd='/opt/venv/bin/python -B check.py %s --tier thorough' % p,
                       evidence_file='evidence/%s.json' % p, technique=note.get('technique', TECH), level=note.get('level', 'proof'),
                       level_note=note.get('level_note', 'Every obligation generated from the current source must be discharged; extraction is validated against the real code; exact real arithmetic stands for floating point.')))
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
         notes='See DESIGN.md. Each check extracts the functions under contract from /repo, proves the contracts, re-checks the Lean lemmas and replays countermodels on the real code.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks')
