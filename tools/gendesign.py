#!/usr/bin/env python3
"""Rewrites the generated parts of DESIGN.md: the table of harnesses with their
bounds and the table of planted bugs."""
import subprocess, json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = subprocess.run([R + '/bin/gosym', 'list'], capture_output=True, text=True, check=True).stdout
rows = {}
for l in out.strip().split('\n'):
    c, n, q, t, b = l.split('\t')
    rows.setdefault(c, []).append((n, q, t, b))
titles = {}
for l in open(R + '/properties.jsonl'):
    d = json.loads(l)
    titles[d['id']] = d['title']
h = []
for c in sorted(rows):
    h.append(f'**{c} {titles[c]}**\n')
    for n, q, t, b in rows[c]:
        t = '' if t == '[]' else f'; thorough also {t[1:-1]}'
        h.append(f'* `{n}` p = {q[1:-1]}{t}: {b}.')
    h.append('')
s = []
caught = {}
if os.path.exists(R + '/tools/caught.json'):
    caught = json.load(open(R + '/tools/caught.json'))
for i in sorted(os.listdir(R + '/seeded')):
    m = json.load(open(f'{R}/seeded/{i}/meta.json'))
    s.append(f"* `{i}` ({m['property']}): {m['what_it_breaks'].rstrip('.')}. Caught by: {', '.join(caught.get(i, [])) or 'not evaluated'}.")
def put(text, tag, body):
    return re.sub(f'(<!-- {tag} -->\n).*?(<!-- end {tag} -->)', lambda m: m[1] + body + '\n' + m[2], text, flags=re.S)
p = R + '/DESIGN.md'
x = open(p).read()
x = put(x, 'harnesses', '\n'.join(h))
x = put(x, 'planted', '\n'.join(s))
open(p, 'w').write(x)
