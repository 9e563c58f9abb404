#!/usr/bin/env python3
"""table.py LOG...: merge score.py logs into scores.json and rewrite the table of planted changes in DESIGN.md."""
import json, os, re, sys
here = os.path.dirname(os.path.abspath(__file__)); S = '/verif/seeded'
f = here + '/scores.json'
sc = json.load(open(f)) if os.path.exists(f) else {}
for log in sys.argv[1:]:
    for l in open(log):
        m = re.match(r'(\S+) (C\d\d) (CAUGHT|\*\*\* MISSED.*?) ?\d+s ?(.*)', l)
        if not m: continue
        i, p, r, rest = m.groups()
        if r == 'CAUGHT':
            w = re.findall(r'(?:regression |replays/C\d\d-)?([a-z_0-9]+)-[0-9a-f]{16}\.json', rest) or re.findall(p + r' ([a-z_0-9]+):', rest)
            sc[i] = {'property': p, 'by': w[-1] if w else '?'}
        else:
            sc[i] = {'property': p, 'by': None}
ids = sorted(os.listdir(S))
sc = {k: v for k, v in sc.items() if k in ids}
json.dump(sc, open(f, 'w'), indent=0, sort_keys=True)
rows = ['<!-- planted -->', '| change | property | needs | caught by |', '|---|---|---|---|']
n = 0
for i in sorted(ids, key=lambda i: (json.load(open(f'{S}/{i}/meta.json'))['property'], i)):
    m = json.load(open(f'{S}/{i}/meta.json'))
    b = sc.get(i, {}).get('by', '?')
    n += b not in (None, '?')
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {m['property'] + ' ' + b if b not in (None, '?') else ('missed' if b is None else 'not run')} |")
rows.append('<!-- /planted -->')
d = open('/verif/DESIGN.md').read()
t = '\n'.join(rows)
d = re.sub(r'<!-- planted -->.*<!-- /planted -->', lambda _: t, d, flags=re.S) if '<!-- planted -->' in d else d.replace('@@SEEDED@@', '@@HEAD@@\n\n' + t)
open('/verif/DESIGN.md', 'w').write(d)
print(n, 'of', len(ids), 'caught; missed:', [k for k, v in sc.items() if v['by'] is None])
