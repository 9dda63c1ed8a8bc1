#!/usr/bin/env python3
"""Appends the table of planted bugs to DESIGN.md (after the marker line)."""
import json, glob, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(root, 'DESIGN.md')
s = open(p).read().split('## Planted bugs')[0].rstrip('\n')
out = ['', '', '## Planted bugs', '', 'Written from the property texts, kept in `seeded/`, never committed in /repo. Each '
       'is caught by the quick check of', 'its property (seed 1) unless noted.', '', '| Bug | Check | What it breaks |', '|---|---|---|']
for f in sorted(glob.glob(os.path.join(root, 'seeded', '*', 'meta.json'))):
    d = json.load(open(f))
    out.append('| %s | %s%s | %s |' % (f.split(os.sep)[-2], d['property'], d.get('note', ''), d['what_it_breaks'].replace('|', '\\|')))
open(p, 'w').write(s + '\n'.join(out) + '\n')
