"""rewrite the tables of DESIGN.md from the evidence files and from seeded/"""
import glob
import json
import os
import re

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| property | contracts | proved | obligations | bounded contracts |', '|---|---|---|---|---|']
for f in sorted(glob.glob(H + '/evidence/P*.json')):
    d = json.load(open(f))
    c = d['coverage']
    b = [x['contract'] for x in c['bounded_contracts']]
    names = {}
    for x in b:
        k = re.sub(r' (value|objective|constraint|domain|inside|outside|Fenchel|Moreau|proximal|solve|feasible fixed|polar splits|conjugate values|conjugate of the conjugate|after a parameter change|smooth conjugate|lagrange proximal|bound proximal|lagrange solve|bound solve|proximal, modular|lagrange|bound)$', '', x)
        k = re.sub(r' (lagrange|bound)$', '', k)
        names[k] = names.get(k, 0) + 1
    rows.append('| %s | %d | %d | %d | %s |' % (d['property'], c['contracts'], c['contracts_proved'], c['discharged'],
                                               ', '.join(k + (' (%d)' % n if n > 1 else '') for k, n in sorted(names.items())) or 'none'))
seed = ['| change | property | needs |', '|---|---|---|']
for f in sorted(glob.glob(H + '/seeded/*/meta.json')):
    m = json.load(open(f))
    seed.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['property'], m['needs']))
t = open(H + '/DESIGN.md').read()
for tag, r in (('table', rows), ('seeded', seed)):
    t = re.sub(r'<!-- %s -->.*?<!-- end %s -->' % (tag, tag), lambda m: '<!-- %s -->\n%s\n<!-- end %s -->' % (tag, '\n'.join(r), tag), t, flags=re.S)
open(H + '/DESIGN.md', 'w').write(t)
