#!/usr/bin/env python3-vt
"""replay.py PROPERTY INPUT  --  rebuilds the native harness from /repo's current tree and runs one counterexample on it"""
import os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import check

feature = sys.argv[1].lower()
ll, rp = check.build(feature)
o, cov, outs = check.replay(rp, sys.argv[2])
print('dev build:', o, 'covers', cov, 'outs', outs)
rel = check.build_release(feature)
if rel:
    o, cov, outs = check.replay(rel, sys.argv[2])
    print('release build:', o, 'covers', cov, 'outs', outs)
