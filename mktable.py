"""Rewrites the table of planted bugs in DESIGN.md from their descriptions.  Not used by any check."""
import glob, json, os, re, sys
here = os.path.dirname(os.path.abspath(__file__))
rows = []
for d in sorted(glob.glob(os.path.join(here, 'seeded', '*', ''))):
    m = json.load(open(d + 'meta.json'))
    rows.append((m['property'], os.path.basename(d[:-1]), m['what_it_breaks']))
rows.sort()
txt = '| check | planted bug | what it breaks |\n|---|---|---|\n' + ''.join(f'| {a} | {b} | {c} |\n' for a, b, c in rows)
p = os.path.join(here, 'DESIGN.md')
t = open(p).read()
t = re.sub(r'(<!-- bugs -->\n).*?(<!-- /bugs -->)', lambda m: m.group(1) + txt + m.group(2), t, flags=re.S)
open(p, 'w').write(t)
print(len(rows))
