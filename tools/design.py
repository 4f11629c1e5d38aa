#!/usr/bin/env python3
"""fill in the lists of findings and planted bugs of DESIGN.md"""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(os.path.join(here, 'DESIGN.md')).read()
missed = json.load(open(os.path.join(here, 'tools', 'missed.json')))
kf = json.load(open(os.path.join(here, 'known-findings.json')))
kf = kf.get('findings', kf) if isinstance(kf, dict) else kf
lines = []
for k in sorted(kf, key=lambda k: (k['status'] != 'known', k['property'])):
    if k['status'] == 'known':
        lines.append(f"* **{k['property']} (recorded, `{k['key']}`)** {k['what']} — {k['where']}")
    else:
        m = re.match(r'fixed: property=(\S+) (\S+) (.*)', k['what'], re.S)
        lines.append(f"* {m[1]} `{m[2]}` {m[3]}")
rows = []
for d in sorted(os.listdir(os.path.join(here, 'seeded'))):
    f = os.path.join(here, 'seeded', d, 'meta.json')
    if os.path.exists(f):
        m = json.load(open(f))
        rows.append(f"| {d} | {m['needs']} | {missed.get(d, '')} |")
def put(text, mark, body):
    a, b = f'<!-- {mark} -->', f'<!-- /{mark} -->'
    block = a + '\n' + body + '\n' + b
    if f'@@{mark}@@' in text:
        return text.replace(f'@@{mark}@@', block)
    return re.sub(re.escape(a) + '.*?' + re.escape(b), lambda _: block, text, flags=re.S)
src = put(src, 'FINDINGS', '\n'.join(lines))
# a table must not be interrupted by comments: header inside
head = '| id | needs | first missed? what was added |\n|---|---|---|\n'
src = src.replace(head + '@@SEEDED@@', '@@SEEDED@@')
src = put(src, 'SEEDED', head + '\n'.join(rows))
open(os.path.join(here, 'DESIGN.md'), 'w').write(src)
