#!/usr/bin/env python3
# Writes the table of planted bugs in DESIGN.md from seeded/*/meta.json and
# tools/caught.json (seed -> checks that reported it).
import json, os, re
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
caught = json.load(open(here + '/caught.json'))
rows = ['| planted bug | breaks | needs | caught by |', '|---|---|---|---|']
for d in sorted(os.listdir(root + '/seeded')):
    m = json.load(open(f'{root}/seeded/{d}/meta.json'))
    rows.append(f"| {d} | {m['property']}: {m['what_it_breaks']} | {m['needs']} | {', '.join(caught.get(d, [])) or 'not caught'} |")
p = root + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'<!-- seeds -->.*?<!-- /seeds -->', lambda _: '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->', s, flags=re.S)
open(p, 'w').write(s)
