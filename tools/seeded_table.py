"""Rewrites the planted-bug table at the end of DESIGN.md from tools/seeded_results.json and seeded/*/meta.json."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(os.path.join(V, 'tools', 'seeded_results.json')))
d = open(os.path.join(V, 'DESIGN.md')).read()
mark = '<!-- planted bugs -->\n'
d = d.split(mark)[0] + mark
d += '| id | property | needs | caught by |\n|---|---|---|---|\n'
for m in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    i = os.path.basename(os.path.dirname(m))
    j = json.load(open(m))
    d += '| %s | %s | %s | %s |\n' % (i, j['property'], j['needs'], res.get(i, '?'))
open(os.path.join(V, 'DESIGN.md'), 'w').write(d)
