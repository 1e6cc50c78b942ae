"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and tools/bugs.json."""
import json, os, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = '## Planted bugs and which check catches them\n'
b = json.load(open(R + '/tools/bugs.json'))
rows = []
for m in sorted(glob.glob(R + '/seeded/*/meta.json')):
    i = os.path.basename(os.path.dirname(m))
    d = json.load(open(m))
    how = 'not caught: ' + b['missed'][i] if i in b['missed'] else 'caught, after: ' + b['strengthened'][i] if i in b['strengthened'] else 'caught'
    rows.append((d['property'], i, d['what_it_breaks'], d['needs'], how))
rows.sort()
t = '\nEach is run against the quick check of its property; "after" says what had to be added to the check first.\n\n'
t += '| property | bug | breaks | needs | quick check |\n|---|---|---|---|---|\n'
t += ''.join('| %s |\n' % ' | '.join(x.replace('|', '\\|').replace('\n', ' ') for x in r) for r in rows)
s = open(R + '/DESIGN.md').read()
open(R + '/DESIGN.md', 'w').write(s[:s.index(H)] + H + t)
