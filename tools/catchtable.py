"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {'s13': 'missed at first (order of bands), L02 strengthened', 's15': 'missed at first (orders that start with the smallest), E02 strengthened',
          's17': 'missed at first (in-place operators on the data of a leaf), E04 strengthened', 's19': 'missed at first (falsy parameter values), O05 strengthened',
          's22': 'missed at first (implicit flows), D01 strengthened', 's35': 'missed at first (no model of tall images), G03 strengthened',
          's43': 'missed at first (only some retained sets), O03 strengthened',
          's52': 'missed at first (truth of an integer), L02 strengthened', 's56': 'missed at first (descending codes), Q01 strengthened',
          's57': 'missed at first (reductions of an array), Q01 strengthened',
          's87': 'missed at first (types of the values), L01 strengthened',
          's45': 'missed at first (only some retained sets), O03 strengthened'}
rows = []
for f in sorted(glob.glob(ROOT + '/seeded/*/meta.json')):
    d = json.load(open(f))
    i = f.split('/')[-2]
    rows.append('| %s | %s | %s | %s | %s |' % (i, d['property'], d['what_it_breaks'], d['needs'], MISSED.get(i, d.get('status', 'caught'))))
p = ROOT + '/DESIGN.md'
s = open(p).read()
head = '| seed | property | breaks | needs | caught |\n|------|----------|--------|-------|--------|\n'
i = s.index('| seed |')
j = re.compile(r'\n\n|\Z').search(s, i).start()
open(p, 'w').write(s[:i] + head + '\n'.join(rows) + '\n' + s[j:].lstrip('\n').join(['\n', '']) if s[j:].strip() else s[:i] + head + '\n'.join(rows) + '\n')
