"""rewrite the table of planted changes in DESIGN.md from seeded/*/meta.json"""
import json, os, collections
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for b in sorted(os.listdir(os.path.join(here, 'seeded'))):
    d = json.load(open(os.path.join(here, 'seeded', b, 'meta.json')))
    f = lambda x: ' '.join(str(x).split()).replace('|', '/')
    rows.append('| %s | %s | %s | %s |' % (d['property'], b, f(d['needs']), f(d['what_it_breaks'])))
rows.sort()
p = os.path.join(here, 'DESIGN.md')
s = open(p).read()
a, b = '<!-- planted -->\n', '<!-- /planted -->'
t = a + '| caught by | change | needs | breaks |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n' + b
if a in s:
    s = s[:s.index(a)] + t + s[s.index(b) + len(b):]
else:
    s = s.rstrip() + '\n\n## Planted changes and the checks that catch them\n\nAll of them are caught by the quick check of the property in the first column (VERIF_SEED=1).\n\n' + t + '\n'
open(p, 'w').write(s)
