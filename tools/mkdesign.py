"""Rewrites the table of planted changes in DESIGN.md (run by hand)."""
import glob, json, os, re
import vt

rows = []
for d in sorted(glob.glob(os.path.join(vt.VERIF, 'seeded', '*', 'meta.json'))):
    m = json.load(open(d))
    rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), m['needs'], m['property']))
p = os.path.join(vt.VERIF, 'DESIGN.md')
s = open(p).read()
head = '| planted change | needs | caught by |\n|---|---|---|\n'
a, b = s.split(head)
b = re.sub(r'^(\|.*\n|SEEDTABLE\n)*', '', b)
open(p, 'w').write(a + head + '\n'.join(rows) + '\n\n' + b.lstrip('\n'))
