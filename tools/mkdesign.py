#!/usr/bin/env python3
"""DESIGN.md = design_head.md + one section per property + findings + design_tail.md + seeded bugs."""
import json, glob, os
H = os.path.dirname(os.path.abspath(__file__))
R = os.path.dirname(H)
o = open(H + '/design_head.md').read()
for f in sorted(glob.glob(H + '/props/P*.json')):
    d = json.load(open(f))
    if 'not_applicable' in d:
        o += "### %s - %s\n\nNot applicable: %s\n\n" % (d['id'], d['title'], d['not_applicable'])
        continue
    o += "### %s - %s\n\n%s\n\n* Workload: `sim/workloads/%s.cpp`. %s\n* Range: %s\n* Why tests cannot: %s\n* Notes: %s\n\n" % (
        d['id'], d['title'], d['statement'], d['workload'], d['rule'], d['quantifier']['text'], d['why_tests_cant'], d.get('level_note', ''))
o += "## 3. Genuine defects found and repaired\n\n"
k = json.load(open(R + '/known-findings.json'))
l = k if isinstance(k, list) else [k[x] for x in k if isinstance(k[x], list)][0]
for e in l:
    o += "* %s (%s, %s): %s\n" % (e['id'], e['property'], e.get('fixed', 'recorded, not repaired')[:7], e['what'])
o += "\n" + open(H + '/design_tail.md').read()
o += "## 6. Planted changes and what catches them\n\nEach lies in `seeded/<id>/`.\n\n| change | property | needs | caught by |\n|---|---|---|---|\n"
c = json.load(open(H + '/caught.json')) if os.path.exists(H + '/caught.json') else {}
for f in sorted(glob.glob(R + '/seeded/*/meta.json')):
    n = os.path.basename(os.path.dirname(f))
    d = json.load(open(f))
    o += "| %s | %s | %s | %s |\n" % (n, d['property'], d['needs'], c.get(n, '?'))
if os.path.exists(H + '/design_mut.md'):
    o += "\n" + open(H + '/design_mut.md').read()
open(R + '/DESIGN.md', 'w').write(o)
