#!/usr/bin/env python3
"""replay.py FILE: runs a recorded counterexample against the natively built /repo again (exit 1: it still fails)"""
import json, os, sys, tempfile
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, check
r = json.load(open(sys.argv[1]))
build.engine(); tree = build.Tree(); tree.bitcode()
j = {'name': r['job'], 'h': r['harness'], 'tools': r['tools'], 'p': r['params'], 'defs': r['defs'], 'lib': r['harness'].startswith('lib_')}
d = tempfile.mkdtemp(dir=build.B)
ok, txt = check.replay(tree, j, r['counterexample'], d + '/r')
print(('reproduced: ' if ok else 'not reproduced: ') + txt); sys.exit(1 if ok else 0)
