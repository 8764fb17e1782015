"""Rewrites section 5 of DESIGN.md from seeded/*/meta.json (by hand; no check uses it)."""
import json, glob, os, re
MISSED = set('''s33 s34 s43 s49 s59 s60 s62 s65 s74 s77 s81 s84 s91 s95 s101 s103 s106 s108 s113 s114 s125 s128 s129 s135 s136
s142 s151 s155 s157 s175'''.split()) | set(open(os.path.join(os.path.dirname(__file__), 'missed_first.txt')).read().split())
rows = {}
for f in sorted(glob.glob('/verif/seeded/*/meta.json'), key=lambda f: int(re.search(r'/s(\d+)/', f).group(1))):
    m = json.load(open(f)); i = f.split('/')[-2]
    rows.setdefault(m['property'], []).append(i + ('*' if i in MISSED else ''))
n = sum(map(len, rows.values()))
t = ['## 5. Planted bugs', '', f'{n} planted bugs under `seeded/` (what each needs and breaks: its `meta.json`), by the property whose check catches it.',
     'A star marks those the check missed when they were first tried; the workload was then extended and the check now catches them.', '',
     '| check | planted bugs |', '|---|---|']
t += [f'| {k} | {", ".join(v)} |' for k, v in sorted(rows.items())]
extra = open(os.path.join(os.path.dirname(__file__), 'design_tail.md')).read()
d = open('/verif/DESIGN.md').read()
d = re.split(r'\nSEEDTABLE|\n## 5\. Planted bugs', d)[0].rstrip('\n') + '\n\n' + '\n'.join(t) + '\n\n' + extra
open('/verif/DESIGN.md', 'w').write(d)
