"""writes MANIFEST.json from the table below (run by hand)"""
import json
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
exec(open('/verif/manifest_table.py').read())
checks, na = [], []
for p in props:
    if p['id'] in CLAIMED:
        level, note = CLAIMED[p['id']]
        checks.append(dict(property=p['id'], quick_cmd='/opt/venv/bin/python -W ignore check.py %s --tier quick' % p['id'],
                           thorough_cmd='/opt/venv/bin/python -W ignore check.py %s --tier thorough' % p['id'],
                           technique='deductive verification of contracts on the real functions (symbolic execution VCs, z3), bounded contract runs where noted',
                           level=level, level_note=note))
    else:
        na.append(dict(property=p['id'], reason=NA.get(p['id'], 'check not built yet')))
json.dump(dict(version=1, setup_cmd='/opt/venv/bin/python -W ignore -c "import sys; sys.path.insert(0, \'.\'); import pyvc.driver"', checks=checks, not_applicable=na,
               notes='no hooks in /repo; see DESIGN.md'), open('/verif/MANIFEST.json', 'w'), indent=1)
