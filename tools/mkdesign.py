#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, glob, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = root + '/DESIGN.md'
head = '## Planted bugs\n'
s = open(p).read().split(head)[0]
missed = {
    'c07-timestamp-wrap': 'missed at first: clocks now also start near 2^31 and 2^32',
    'c10-delegate-without-allowance': 'missed at first: approvals of 0 are now generated',
    'c05-half-unit-of-token-1': 'missed at first: the lone party now repeats an operation many times, with powers of two',
    'c03-limit-at-the-maximum': 'missed at first: refused swaps are now given the accounts they would need if accepted',
    'c04-no-upper-clamp': 'labelled C03 at first',
}
try:
    missed.update(json.load(open(root + '/tools/seeding/notes.json')))
except FileNotFoundError:
    pass
rows = []
for m in sorted(glob.glob(root + '/seeded/*/meta.json')):
    d = json.load(open(m)); i = os.path.basename(os.path.dirname(m))
    rows.append('| %s | %s | %s | %s | %s |' % (i, d['property'], d['what_it_breaks'].replace('|', '/'), d['needs'].replace('|', '/'), missed.get(i, '')))
s += head + '''
Each lives in `seeded/<id>/`; every one compiles, passes the 150 tests, has a demonstration that runs the real
program, and is reported by the quick check of its property (others often report it as well). Written from the
statements and the code; the last column says what was changed when a check missed it.

| id | caught by | what it breaks | needs | note |
|---|---|---|---|---|
''' + '\n'.join(rows) + '\n'
open(p, 'w').write(s)
print(len(rows))
