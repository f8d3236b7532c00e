#!/usr/bin/env python3
"""rewrites the generated part of DESIGN.md (from '## 2. Properties' on) from jobs.py, properties.jsonl, seeded/ and bin/design_tail.md"""
import json, os, sys, glob, importlib.util
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/harness'); sys.path.insert(0, V + '/bin')
sp = importlib.util.spec_from_file_location('jobs', V + '/harness/jobs.py'); J = importlib.util.module_from_spec(sp); sp.loader.exec_module(J)
O = json.load(open(V + '/bin/design_oracles.json'))
s = open(V + '/DESIGN.md').read().split('## 2. Properties')[0]
s += '''## 2. Properties

For each: the code encoded, the oracle, and how wide it is in a quick run (in brackets: a thorough run). The bounds of every job are in
`evidence/<id>.json`. All 28 are claimed, none is not applicable.

'''
for l in open(V + '/properties.jsonl'):
    p = json.loads(l); i = p['id']; b = J.PROPS[i]
    s += '### %s %s\n\n*Code:* %s.\n*Oracle:* %s.\n\n*Bounds:* %s\n' % (i, p['title'], O[i][0], O[i][1], b.get('bounds', ''))
    if b.get('outside'): s += '*Outside:* %s\n' % b['outside']
    s += '\n'
s += '''## 3. Planted bugs

Each changes one or two lines, compiles, passes the tests, and is caught by the quick check of its property (counterexample replayed natively).

| Change | Needs | Caught by |
|---|---|---|
'''
C = json.load(open(V + '/bin/design_caught.json'))
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d)); n = os.path.basename(os.path.dirname(d))
    s += '| %s: %s | %s | %s |\n' % (n, m['what_it_breaks'], m['needs'], C.get(n, m['property']))
s += '\n' + open(V + '/bin/design_tail.md').read()
open(V + '/DESIGN.md', 'w').write(s)
