"""Puts the table of the planted bugs into DESIGN.md."""
import glob, json, os, re
rows = []
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m = json.load(open(d))
    rows.append((m['property'], os.path.basename(os.path.dirname(d)), m['needs']))
t = '\n'.join(['<!-- seeds -->', '| check | planted bug | needs |', '|---|---|---|'] + ['| %s | %s | %s |' % r for r in sorted(rows)] + ['<!-- /seeds -->'])
p = '/verif/DESIGN.md'
s = open(p).read()
s = s.replace('SEEDTABLE', t) if 'SEEDTABLE' in s else re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda m: t, s, flags=re.S)
open(p, 'w').write(s)
