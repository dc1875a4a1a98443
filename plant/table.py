#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import glob, json, os
v = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
head = '\n## Planted bugs, and what catches them\n'
t = head + '\nEach is in `seeded/<id>/`, and is caught by the quick check of the property its name begins with.\n\n| bug | breaks | manifests with |\n|---|---|---|\n'
for f in sorted(glob.glob(v + '/seeded/*/meta.json')):
    d = json.load(open(f))
    t += f"| {os.path.basename(os.path.dirname(f))} | {d['what_it_breaks']} | {d['needs']} |\n"
p = v + '/DESIGN.md'
s = open(p).read().split(head)[0].rstrip('\n') + '\n' + t
open(p, 'w').write(s)
