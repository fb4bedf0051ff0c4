"""Writes the table of planted bugs into DESIGN.md (between the markers), from seeded/*/meta.json."""
import glob
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| planted bug | property whose quick check reports it | needs |', '|---|---|---|']
for f in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    d = json.load(open(f))
    rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), d['property'] if not d.get('missed') else '%s (missed)' % d['property'], d['needs'].replace('|', '/')))
p = os.path.join(V, 'DESIGN.md')
s = open(p).read()
s = re.sub(r'<!-- table -->.*<!-- /table -->', lambda m: '<!-- table -->\n%s\n<!-- /table -->' % '\n'.join(rows), s, flags=re.S)
open(p, 'w').write(s)
