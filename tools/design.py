"""Rewrites the table of planted bugs in DESIGN.md."""
import json, os, glob, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| planted bug | caught by | what it breaks | needs |', '|---|---|---|---|']
for d in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    m = json.load(open(d))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), m['property'], m['what_it_breaks'], m['needs']))
p = os.path.join(V, 'DESIGN.md')
s = open(p).read()
t = '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->'
if '@@SEEDS@@' in s:
    s = s.replace('@@SEEDS@@', t)
else:
    s = re.sub(r'<!-- seeds -->.*?<!-- /seeds -->', lambda m: t, s, flags=re.S)
open(p, 'w').write(s)
