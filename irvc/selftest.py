#!/usr/bin/env python3
"""setup_cmd: the tools the checks need are present, and the pipeline rejects a wrong contract."""
import os, sys, shutil, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import irvc
for t in ('clang++', 'opt-18', 'cbmc', 'c++filt', 'ar'):
    if not shutil.which(t): sys.exit('missing tool: ' + t)
w = tempfile.mkdtemp(prefix='irvc.selftest.')
try:
    for entry, want in (('h_good', 0), ('h_bad', 1)):
        H = irvc.Harness(file='selftest.cc', entry=entry, cuts={'_ZL5sumto.*': dict(tag='sum')})
        r = irvc.Run(H, w).verify()
        if len(r['fails']) != want or r['unreached']: sys.exit('selftest %s: %r' % (entry, r['fails']))
finally: shutil.rmtree(w, ignore_errors=True)
print('ok')
