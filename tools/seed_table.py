"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ''
for i in sorted(os.listdir(here + '/seeded')):
    m = json.load(open(f'{here}/seeded/{i}/meta.json'))
    rows += f"| {i} | {m['property']} | {m['what_it_breaks']} — {m['needs']} |\n"
p = here + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'(\| change \| caught by \|[^\n]*\n\|[-|]*\n)(?:\|[^\n]*\n)*', lambda m: m.group(1) + rows, s)
open(p, 'w').write(s)
