# writes the table of planted bugs at the end of DESIGN.md
import json, os
D = '/verif/DESIGN.md'
s = open(D).read()
mark = '<!-- planted bugs -->\n'
rows = []
for i in sorted(os.listdir('/verif/seeded')):
    m = json.load(open(f'/verif/seeded/{i}/meta.json'))
    rows.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
t = mark + "| bug | caught by | what it breaks | what it needs |\n|---|---|---|---|\n" + "\n".join(rows) + "\n"
s = s[:s.index(mark)] + t if mark in s else s.replace('SEEDTABLE\n', t)
open(D, 'w').write(s)
