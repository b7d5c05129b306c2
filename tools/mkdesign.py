#!/usr/bin/env python3
"""Rewrites the generated parts of DESIGN.md: bounds and oracles, scenarios, planted changes."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(V + '/DESIGN.md').read()
m = json.load(open(V + '/checks.json'))
def between(a, b, body):
    global s
    i = s.index(a) + len(a); j = s.index(b, i) if b else len(s)
    s = s[:i] + body + s[j:]
rows = ''.join('| %s | %s | %s |\n' % (k, m[k]['bounds']['quick'], m[k]['oracle']) for k in sorted(m))
i = s.index('| C01 |'); j = s.index('\n### Scenarios of each check')
s = s[:i] + rows + s[j:]
sc = ''
for k in sorted(m):
    t = open(V + '/harness/%s.cpp' % k.lower()).read()
    sc += '* %s: %s\n' % (k, ', '.join(re.findall(r'\{ "(\w+)",', t[t.index('explore_main('):])))
between('### Scenarios of each check\n', '\n### Notes on single', sc)
pl = '\n'
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(f))
    pl += '* %s - %s: %s (needs: %s)\n' % (os.path.basename(os.path.dirname(f)), d['property'], d['what_it_breaks'], d['needs'])
between('### All planted changes, each caught by the quick check of the property named\n', None, pl)
open(V + '/DESIGN.md', 'w').write(s)
