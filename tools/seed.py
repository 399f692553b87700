#!/usr/bin/env python3
"""seed.py ID PROPERTY NEEDS BREAKS < edits   (edits: lines '@@@ file', '<<<', old, '===', new, '>>>')
Makes seeded/ID from the edits and the demo.cc already in it, and confirms it in a scratch copy of /repo."""
import sys, os, re, json, subprocess, shutil
sid = sys.argv[1]
if len(sys.argv) > 2: prop, needs, breaks = sys.argv[2:5]
else: m = json.load(open('/verif/seeded/' + sid + '/meta.json')); prop, needs, breaks = m['property'], m['needs'], m['what_it_breaks']
D = '/verif/seeded/' + sid
SH = '''#!/bin/bash
# cwd: a built /repo.  Links demo.cc with the built objects, runs it in a scratch directory.
set -e
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$d"' EXIT
objcopy --redefine-sym main=bees_main src/bees.o "$d/bees.o"
g++ -std=c++17 -O1 -w -fno-access-control -D_FILE_OFFSET_BITS=64 -Iinclude -Isrc "$here/demo.cc" "$d/bees.o" $(ls src/*.o | grep -v '/bees\\.o$') lib/libcrucible.a -lpthread -o "$d/demo"
cd "$d" && timeout 120 ./demo
'''
os.makedirs(D, exist_ok=True)
if not os.path.exists(D + '/demo.sh'): open(D + '/demo.sh', 'w').write(SH)
os.chmod(D + '/demo.sh', 0o755)
S = '/tmp/sd'
if not os.path.isdir(S): subprocess.check_call(['cp', '-a', '/repo', S])
def sh(c, **k): return subprocess.run(c, shell=True, cwd=S, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
sh('git checkout -q -- .')
cur = None
t = '' if len(sys.argv) == 2 else sys.stdin.read()
if not t: subprocess.check_call(['git', 'apply', D + '/patch.diff'], cwd=S)
for m in re.finditer(r'@@@ (\S+)\n|<<<\n(.*?)===\n(.*?)>>>\n', t, re.S):
    if m.group(1): cur = m.group(1); continue
    p = S + '/' + cur; s = open(p).read()
    if s.count(m.group(2)) != 1: sys.exit('edit matches %d times: %s' % (s.count(m.group(2)), m.group(2)))
    open(p, 'w').write(s.replace(m.group(2), m.group(3)))
open(D + '/patch.diff', 'w').write(sh('git diff').stdout)
json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(D + '/meta.json', 'w'), indent=1)
def demo(): return subprocess.run(['bash', D + '/demo.sh'], cwd=S, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
def build():
    r = sh('sed "s#cd /repo#cd /tmp/sd#" /opt/vp/build.sh > /tmp/sd_build.sh; bash /tmp/sd_build.sh')
    return r
r = build()
if r.returncode: sys.exit('BUILD FAILS\n' + r.stdout[-1500:])
m = demo(); print('mutant demo rc', m.returncode, m.stdout[-300:])
t = sh('cd test && make -j8 2>&1 | tail -3'); 
sh('git checkout -q -- .'); build()
c = demo(); print('clean demo rc', c.returncode, c.stdout[-300:])
print('tests on mutant:', t.returncode, t.stdout[-200:])
print('OK' if m.returncode and not c.returncode else 'NOT OK')
