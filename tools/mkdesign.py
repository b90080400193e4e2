"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import glob
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = ROOT + '/DESIGN.md'
head = open(p).read().split('| bug | caught by |')[0]
rows = ['| bug | caught by | what it breaks |', '|---|---|---|']
for d in sorted(glob.glob(ROOT + '/seeded/*/meta.json')):
    m = json.load(open(d))
    rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), m.get('caught', m['property']), m['what_it_breaks'].replace('|', '/')))
open(p, 'w').write(head + '\n'.join(rows) + '\n')
