#!/usr/bin/env python3
"""ad-hoc runs: q.py FILE.pl [GOAL] : native when no GOAL, else consult and run GOAL; output truncated"""
import sys, os, tempfile, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.realpath(__file__)), '..', 'lib'))
from gpv.run import Sys, scratch
s = Sys(os.environ.get('V', 'plain'))
f = os.path.abspath(sys.argv[1])
d = scratch('q')
shutil.copy(f, d + '/a.pl')
if len(sys.argv) > 2:
    r = s.consult_run(d, ['a.pl'], sys.argv[2], timeout=20, log=d + '/log')
else:
    r = s.native_run(d, ['a.pl'], timeout=20, log=d + '/log', opts=os.environ.get('OPTS', ''))
    print(getattr(r, 'cout', '')[:2000])
print('rc', r.rc, 'timeout', r.timeout)
print(r.out[:int(os.environ.get("LIM","9000"))])
print(r.err[:3000])
shutil.rmtree(d)
