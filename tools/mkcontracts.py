"""Writes CONTRACTS.md (units, functions, bounds, assumptions) and the table of planted changes in DESIGN.md.
Run with /opt/venv/bin/python -B tools/mkcontracts.py [SEEDLOG] after all checks (reads evidence/)."""
import glob
import importlib
import json
import os
import re
import sys
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
sys.path.insert(0, HERE)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
warnings.simplefilter('ignore')
out = ['# Contract units', '', 'Generated by tools/mkcontracts.py.', '']
for f in sorted(glob.glob(os.path.join(HERE, 'contracts', 'c[0-9][0-9].py'))):
    n = os.path.basename(f)[:-3]
    m = importlib.import_module('contracts.' + n)
    ev = os.path.join(HERE, 'evidence', n.upper() + '.json')
    cov = json.load(open(ev))['coverage'] if os.path.exists(ev) else {}
    head = n.upper()
    if cov:
        by = ', '.join('%s %d' % x for x in sorted(cov['obligations_by_backend'].items()))
        head += ': %d of %d obligations discharged (%s)' % (cov['discharged'], cov['obligations'], by)
    out += ['## ' + head, '']
    ass = []
    for u in m.UNITS:
        fns = ', '.join('`%s`' % getattr(t, '__qualname__', str(t)) for t in u.targets)
        out.append('- **%s**: %s%s' % (u.name, fns, '; *bound: %s*' % u.bound if u.bound else ''))
        for a in u.assumptions:
            if a not in ass:
                ass.append(a)
    dep = importlib.import_module('contracts.depends').DEPENDS.get(n.upper(), {})
    if dep:
        out += ['', 'Run as well, because they prove contracts used at calls: ' + '; '.join('%s of %s' % (', '.join(v), k) for k, v in dep.items()) + '.']
    out += ['', 'Assumed: ' + '; '.join(ass) + '.' if ass else 'Assumed: nothing beyond the models.', '']
open(os.path.join(HERE, 'CONTRACTS.md'), 'w').write('\n'.join(out))

caught = {}
if len(sys.argv) > 1:
    for l in open(sys.argv[1]):
        g = re.match(r'(\S+) \((C\d+)\) exit (\d+) (\d+) viol (\d+) nofail', l)
        if g:
            caught[g[1]] = 'not caught' if g[3] != '1' else 'obligation, no failing input' if g[5] != '0' else 'failing input replayed'
    rows = ['| change | property | needs | breaks | check |', '|---|---|---|---|---|']
    for d in sorted(glob.glob(os.path.join(HERE, 'seeded', '*'))):
        j = json.load(open(os.path.join(d, 'meta.json')))
        n = os.path.basename(d)
        rows.append('| %s | %s | %s | %s | %s |' % (n, j['property'], j['needs'], j['what_it_breaks'], caught.get(n, '?')))
    p = os.path.join(HERE, 'DESIGN.md')
    s = open(p).read()
    t = '\n'.join(rows)
    if 'SEEDTABLE' in s:
        s = s.replace('SEEDTABLE', t)
    else:
        s = re.sub(r'\| change \| property.*?\n\n', lambda _: t + '\n\n', s, flags=re.S)
    open(p, 'w').write(s)
