#!/usr/bin/env python3
"""Writes DESIGN.md: the hand-written preamble (gen/preamble.md), one section per property from
props.py, the rules declared in tool/*.go, and the planted bugs in seeded/*/meta.json."""
import glob, json, os, re, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
import props

src = {f: open(f).read() for f in sorted(glob.glob(root + '/tool/*.go'))}
rules = {}
for f, s in src.items():
    m = re.search(r'checks\["(C\d\d)"\]', s)
    for m in re.finditer(r'func check(C\d\d)\(p \*Prog, r \*Report\) \{(.*?)\n\}\n', s, re.S):
        rules.setdefault(m.group(1), []).extend(re.findall(r'r\.rule\("([^"]+)", "((?:[^"\\]|\\.)*)", (\d+)\)', m.group(2)))
plants = {}
for f in sorted(glob.glob(root + '/seeded/*/meta.json')):
    d = json.load(open(f))
    plants.setdefault(d['property'], []).append((f.split('/')[-2], d))
fixed = {}
for l in open(root + '/known_findings.txt'):
    m = re.match(r'(fixed|known): property=(C\d\d) (.*)', l.strip())
    if m:
        fixed.setdefault(m.group(2), []).append((m.group(1), m.group(3)))
out = [open(here + '/preamble.md').read().rstrip() + '\n']
out.append('\n## Properties\n')
for d in sorted(props.PROPS, key=lambda d: d['id']):
    i = d['id']
    out.append('\n### %s %s\n' % (i, d['title']))
    out.append('\nMethod: %s. Quantifies over %s. Why tests cannot settle it: %s\n' % (d['technique'], d['quant'], d['why']))
    out.append('\nRules (with the least number of places each must find, so that an analysis that lost its subject is not quiet):\n\n')
    for n, t, k in rules.get(i, []):
        out.append('- `%s` (%s): %s\n' % (n, k, t))
    out.append('\nBounds and trust: %s\n' % d['note'])
    if i in fixed:
        out.append('\nDefects found in ivy and repaired while building this:\n\n')
        for k, t in fixed.pop(i):
            out.append('- %s %s\n' % (k, t))
    if i in plants:
        out.append('\nPlanted bugs (all caught by this check unless noted):\n\n')
        for n, m in plants[i]:
            out.append('- `%s`: %s; needs %s\n' % (n, m['what_it_breaks'], m['needs']))
if fixed:
    out.append('\n### Repairs found while reading for properties that have no check\n\n')
    for i in sorted(fixed):
        for k, t in fixed[i]:
            out.append('- %s %s\n' % (k, t))
out.append('\n## Not applicable\n\n')
for d in props.NA:
    out.append('- %s %s: %s\n' % (d['id'], d['title'], d['reason']))
open(root + '/DESIGN.md', 'w').write(''.join(out))
