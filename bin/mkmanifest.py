#!/usr/bin/env python3
"""writes MANIFEST.json from harness/jobs.py and properties.jsonl"""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/harness')
import jobs as J
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'python3 bin/build.py', 'checks': [], 'not_applicable': [],
     'notes': 'All checks: symbolic execution of the LLVM IR of /repo/src by engine/ (symir), Z3 deciding every branch and assertion; see DESIGN.md. No hooks are used.'}
for p in props:
    i = p['id']
    if i in J.PROPS and J.PROPS[i].get('jobs'):
        s = J.PROPS[i]
        m['checks'].append({'property': i, 'quick_cmd': 'python3 bin/check.py %s quick' % i, 'thorough_cmd': 'python3 bin/check.py %s thorough' % i,
            'evidence_file': 'evidence/%s.json' % i, 'technique': 'symbolic execution of the compiled C source (LLVM IR) with Z3, counterexamples replayed natively',
            'level': 'model_checking', 'level_note': 'Holds for every value within the bounds: ' + s.get('bounds', 'see evidence') + (' Outside: ' + s['outside'] if s.get('outside') else '') + ' Trusts the engine and its models of the C library and utf8proc, cross-checked on sampled paths against the native build.'})
    else: m['not_applicable'].append({'property': i, 'reason': J.NA.get(i, 'no check yet')})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); open(V + '/MANIFEST.json', 'a').write('\n')
print(len(m['checks']), 'checks;', len(m['not_applicable']), 'not applicable')
