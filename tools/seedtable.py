"""Rewrite the table of planted bugs in DESIGN.md."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| planted bug | property | what it breaks | caught by |', '|---|---|---|---|']
for s in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(f'{V}/seeded/{s}/meta.json'))
    rows.append(f"| {s} | {m['property']} | {m['what_it_breaks'].split('. ')[0]} | {m.get('caught_by', m['property'])} |")
t = open(V + '/DESIGN.md').read()
tab = '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->'
if '<!-- seeds -->' in t:
    t = re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda m: tab, t, flags=re.S)
else:
    t = t.replace('SEEDTABLE', '\n\n' + tab)
open(V + '/DESIGN.md', 'w').write(t)
