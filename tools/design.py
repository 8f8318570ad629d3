#!/usr/bin/env python3
"""DESIGN.md from tools/design_template.md, the planted bugs and the measured times of the last runs."""
import glob
import json
import os

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(os.path.join(H, 'tools', 'design_template.md')).read()
rows = ['| planted bug | property (check that catches it) | what it needs |', '|---|---|---|']
for m in sorted(glob.glob(os.path.join(H, 'seeded', '*', 'meta.json'))):
    d = json.load(open(m))
    rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(m)), d['property'], ' '.join(str(d['needs']).split())))
cf = os.path.join(H, 'tools', 'cost.json')
cost = json.load(open(cf)) if os.path.isfile(cf) else {}
for e in glob.glob(os.path.join(H, 'evidence', '*.json')):
    d = json.load(open(e))
    if d['tier'] == 'quick':
        cost[d['property']] = [d['wall_s'], d['coverage']['evaluations']]
json.dump(cost, open(cf, 'w'), indent=1, sort_keys=True)
c = '; '.join('%s %.0f s (%d executions)' % (k, v[0], v[1]) for k, v in sorted(cost.items()))
t = t.replace('@@SEEDS@@', '\n'.join(rows)).replace('@@COST@@', c).replace('@@MORE@@\n\n', '')
open(os.path.join(H, 'DESIGN.md'), 'w').write(t)
