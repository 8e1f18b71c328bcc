#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from props.py and checks.py"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import P
from checks import CHECKS
V = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for k, p in P.items():
        a = dict(files=p['files'], mechanism=p['mech'])
        if p['state']: a['state'] = p['state']
        if p['observe']: a['observe_at'] = p['observe']
        a['hook_needed'] = None
        f.write(json.dumps(dict(id=k, title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'], anchors=a)) + '\n')
checks, na = [], []
for k, p in P.items():
    if k in CHECKS:
        checks.append(dict(property=k, quick_cmd='python3 check.py %s quick' % k, thorough_cmd='python3 check.py %s thorough' % k, evidence_file='evidence/%s.json' % k,
            technique=p['technique'] or 'symbolic execution of the interpreter\'s LLVM bitcode, assertions decided by Z3, counterexamples replayed natively',
            level='model_checking', level_note=p['note'] or ('Bounded: holds for every value of the symbolic inputs within: ' + CHECKS[k]['bounds'] + '. Trusts the executor, Z3, clang-18 -O1 and the libc models; passing paths are sampled and re-run natively under AddressSanitizer.')))
    else: na.append(dict(property=k, reason=p['na'] or 'no check built'))
json.dump(dict(version=1, hooks=dict(guard='CLOX_VERIF', enable='vlib.py compiles /repo with -DCLOX_VERIF: the harness decides after how many instructions a thread is switched (vm.h)', source_commits=['a6e5b47']), setup_cmd='python3 -c "import vlib; vlib.symex()"', checks=checks, not_applicable=na, notes='check.py ID quick|thorough; known-findings.txt lists recorded defects; evidence/ID.json is rewritten by every run'), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
