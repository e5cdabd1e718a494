#!/usr/bin/env python3
# rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    j = json.load(open(m)); i = os.path.basename(os.path.dirname(m))
    f = sorted({l[6:].strip() for l in open(os.path.dirname(m) + '/patch.diff') if l.startswith('+++ b/')})
    rows.append('| %s | %s | %s | %s | %s |' % (i, ', '.join(x.replace('code/dynamix/', '') for x in f), j['what_it_breaks'], j['needs'], j.get('caught_by', j['property'])))
mark = '<!-- table of planted bugs (tools/seedtable.py) -->'
s = open(V + '/DESIGN.md').read().split(mark)[0].rstrip('\n')
open(V + '/DESIGN.md', 'w').write(s + '\n\n' + mark + '\n\n| bug | where | breaks | needs | caught by |\n|---|---|---|---|---|\n' + '\n'.join(x.replace('\n', ' ') for x in rows) + '\n')
