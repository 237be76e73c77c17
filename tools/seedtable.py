#!/usr/bin/env python3
"""Rewrites the planted-bug table of DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
rows = []
for d in sorted(glob.glob('seeded/*/meta.json')):
    m = json.load(open(d))
    rows.append((m['property'], d.split('/')[1], m['what_it_breaks'], m['needs']))
rows.sort()
missed = {}
if os.path.exists('tools/missed.json'):
    missed = json.load(open('tools/missed.json'))
t = '| property | change | what it breaks | needs | caught by |\n|---|---|---|---|---|\n'
for p, n, w, q in rows:
    c = 'not caught: ' + missed[n] if n in missed else p
    t += '| %s | %s | %s | %s | %s |\n' % (p, n, w.replace('|', '\\|'), q.replace('|', '\\|'), c)
s = open('DESIGN.md').read()
a, b = '<!-- seeds -->\n', '<!-- /seeds -->'
s = s[:s.index(a) + len(a)] + t + s[s.index(b):]
open('DESIGN.md', 'w').write(s)
