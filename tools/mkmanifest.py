#!/usr/bin/env python3
"""writes MANIFEST.json from props.py and properties.jsonl"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import props
ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
NA = {}
NOTE = ('Every path of the harnesses within the stated bounds is explored and every assertion decided by z3 on that path; hive bytes, lengths, '
        'offsets, names and call arguments are symbolic. Trusted: rustc\'s LLVM IR, the symbolic executor in engine/ (cross-checked on '
        'sampled paths against native runs in every check), z3. Counterexamples are replayed natively before they are reported. Bounds: ')
checks = []
for i in ids:
    if i in props.PROPS:
        b = props.PROPS[i]['bounds']
        b = b('quick') if callable(b) else b
        checks.append(dict(property=i, quick_cmd='./check.py %s quick' % i, thorough_cmd='./check.py %s thorough' % i,
                           evidence_file='evidence/%s.json' % i,
                           technique='symbolic execution of the compiled LLVM IR with z3 deciding branches and assertions',
                           level='model_checking', level_note=NOTE + b))
na = [dict(property=i, reason=NA.get(i, 'no check finished yet')) for i in ids if i not in props.PROPS]
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
         notes='No hooks: the harness crate uses only the public API of nt-hive. See DESIGN.md; known_findings.txt lists defects found.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
