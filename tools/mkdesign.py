#!/usr/bin/env python3
"""Fills the tables of DESIGN.md from tools/DESIGN.in.md, the harness, known_findings.txt, regress/ and seeded/."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
subs = {}
for f in glob.glob(V + '/harness/*.go'):
    for m in re.finditer(r'Name: "(C\d\d/\w+)", Quick: (\d+), Thorough: (\d+)', open(f).read()):
        subs[m[1]] = (int(m[2]), int(m[3]))
table = ', '.join('%s %d (%d)' % (k, *subs[k]) for k in sorted(subs)) + '.'
fixes = {}
for l in open(V + '/known_findings.txt'):
    m = re.match(r'fixed: property=(C\d\d) ([0-9a-f]+) (.*)', l)
    if m:
        fixes.setdefault(m[2][:7], [m[3], []])[1].append(m[1])
fx = '\n'.join('* %s (%s): %s' % (c, ', '.join(ps), t) for c, (t, ps) in fixes.items())
sd = []
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(f))
    sd.append('* %s (%s): %s' % (os.path.basename(os.path.dirname(f)), d['property'], d['needs']))
s = open(V + '/tools/DESIGN.in.md').read()
for k, v in (('TABLE', table), ('FIXES', fx), ('SEEDED', '\n'.join(sd))):
    s = s.replace('@@' + k + '@@', v)
open(V + '/DESIGN.md', 'w').write(s)
