# DESIGN.md = design_head.md + design_tail.md + the table of planted bugs.
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = os.path.join(root, 'tools')
out = open(os.path.join(t, 'design_head.md')).read() + open(os.path.join(t, 'design_tail.md')).read()
res = {}
p = os.path.join(t, 'seedresults.txt')
if os.path.exists(p):
    for l in open(p):
        f = l.rstrip('\n').split('\t')
        res[f[0]] = f[1]
out += '| planted bug | what it needs | caught by |\n|---|---|---|\n'
for d in sorted(os.listdir(os.path.join(root, 'seeded'))):
    m = json.load(open(os.path.join(root, 'seeded', d, 'meta.json')))
    out += '| %s | %s | %s |\n' % (d, m['needs'], res.get(d, '?'))
open(os.path.join(root, 'DESIGN.md'), 'w').write(out)
