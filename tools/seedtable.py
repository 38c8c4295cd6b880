#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md from a log of results
(lines: "<id> <CHECK> rc=1 VIOLATION property=<P> replay=.../<P>-<class>-<hash>.plan")."""
import json, os, re, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for f in sys.argv[1:]:
    for l in open(f):
        m = re.match(r'(\S+) (C\d+) rc=(\d+)(?:.*?replay=\S*/C\d+-(\S+)-[0-9a-f]+\.plan)?', l)
        if m: res.setdefault(m.group(1), {})[m.group(2)] = (m.group(3), m.group(4) or '')
rows = ["| planted bug | property | what it breaks | caught by (violation) |", "|---|---|---|---|"]
for d in sorted(os.listdir(here + '/seeded')):
    m = json.load(open(f'{here}/seeded/{d}/meta.json'))
    r = res.get(d, {})
    hit = ', '.join(f'{c} ({v})' for c, (rc, v) in sorted(r.items()) if rc == '1') or '**missed**'
    rows.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {hit} |")
p = here + '/DESIGN.md'
s = open(p).read()
b, e = '<!-- seeded -->', '<!-- /seeded -->'
body = b + '\n' + '\n'.join(rows) + '\n' + e
if b in s: s = s[:s.index(b)] + body + s[s.index(e) + len(e):]
else: s = s.replace('@@SEEDED@@', body)
open(p, 'w').write(s)
