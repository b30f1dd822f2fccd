"""Section 5 of DESIGN.md: the planted bugs and the checks that catch them."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(V + '/tools/caught.json'))
rows = ['| bug | property | needs | breaks | caught by |', '|---|---|---|---|---|']
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(f'{V}/seeded/{d}/meta.json'))
    rows.append(f"| {d} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {caught.get(d, 'not yet run')} |")
p = V + '/DESIGN.md'; s = open(p).read()
s = re.sub(r'(<!-- bugs -->\n).*?(<!-- /bugs -->)', lambda x: x[1] + '\n'.join(rows) + '\n' + x[2], s, flags=re.S)
open(p, 'w').write(s)
