#!/usr/bin/env python3
# Rewrites the generated tables of DESIGN.md (between <!-- name --> and <!-- /name -->).
import json, os, re
base = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def load(n): return json.load(open(os.path.join(base, n)))
def put(text, name, body):
    return re.sub(r'<!-- %s -->.*<!-- /%s -->' % (name, name), lambda m: '<!-- %s -->\n%s\n<!-- /%s -->' % (name, body, name), text, flags=re.S)
p = os.path.join(base, 'DESIGN.md')
text = open(p).read()
fixed = []
for l in load('known_findings.json')['fixed']:
    m = re.match(r'fixed: property=(C\d+) (\w+) (.*)', l)
    fixed.append('* %s `%s` %s' % m.groups())
text = put(text, 'fixed', '\n'.join(fixed))
notes = load('tools/seednotes.json')
rows = ['| planted bug | needs | caught by | strengthened for it |', '|---|---|---|---|']
for d in sorted(os.listdir(os.path.join(base, 'seeded'))):
    meta = load('seeded/%s/meta.json' % d)
    n = notes.get(d, {})
    rows.append('| %s | %s | %s %s | %s |' % (d, meta['needs'], meta['property'], ', '.join('`%s`' % k for k in n.get('keys', [])), n.get('strengthened', '-')))
text = put(text, 'seeds', '\n'.join(rows))
open(p, 'w').write(text)
