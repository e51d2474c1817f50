#!/usr/bin/env python3
"""DESIGN.md from design_head.md, the notes below, the mutation tables, the planted changes and the fix list."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(V + '/tools/design_notes.py').read(), ns)
N = ns['N']
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
na = json.load(open(V + '/tools/na.json'))
man = json.load(open(V + '/MANIFEST.json'))
claimed = {c['property'] for c in man['checks']}
out = [open(V + '/tools/design_head.md').read(), '\n## Properties\n']
for p in props:
    i = p['id']
    out.append('\n### %s: %s\n' % (i, p['title']))
    if i in na and i not in claimed:
        out.append('Not applicable: %s\n' % na[i])
        continue
    out.append(N[i].strip() + '\n')
    f = V + '/tools/muts/%s.py' % i
    if os.path.exists(f):
        m = {}
        exec(open(f).read(), m)
        out.append('Regression edits: %d breaking (all reported), %d harmless (all quiet).\n' % (sum(x[0] == 'V' for x in m['M']), sum(x[0] != 'V' for x in m['M'])))
out.append('\n## Genuine defects found and repaired\n\nEach was reported by the check named, confirmed against the code, and repaired by the "fix:" commit in /repo (known_findings.json has the hashes). None is left unrepaired.\n\n')
for l in open(V + '/tools/fixed.txt'):
    l = l.strip()
    if l:
        a, b, c = l.split('|')
        out.append('- %s: %s (`%s`)\n' % (a, c, b))
out.append(ns['TAIL'])
out.append('\n## Planted changes and what catches them\n\n| change | caught by | what it breaks |\n|---|---|---|\n')
caught = ns['CAUGHT']
for d in sorted(glob.glob(V + '/seeded/*/meta.json'), key=lambda x: int(x.split('/')[-2].split('-')[0][1:])):
    m = json.load(open(d))
    n = d.split('/')[-2]
    out.append('| %s | %s | %s |\n' % (n, caught.get(n, m['property']), m['what_it_breaks'].replace('|', '/')))
open(V + '/DESIGN.md', 'w').write(''.join(out))
