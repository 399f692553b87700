"""Native replay: the harness and the real source it includes, compiled for the
host with the same callee replacements as the proof, run on concrete inputs."""
import os, re, subprocess
from irvc import *

_arch = {}
def archive(work):
    """the rest of /repo, compiled for the host (bodies the harness does not include)"""
    if work in _arch: return _arch[work]
    d = os.path.join(work, 'narch'); os.makedirs(d, exist_ok=True)
    srcs = [(REPO + '/lib/' + f, []) for f in sorted(os.listdir(REPO + '/lib')) if f.endswith('.cc')]
    srcs += [(REPO + '/src/' + f, ['-Dmain=bees_main_']) for f in sorted(os.listdir(REPO + '/src')) if f.startswith('bees') and f.endswith('.cc')]
    st = os.path.join(d, 'stub.cc')
    open(st, 'w').write('extern "C" { extern const char *BEES_VERSION; const char *BEES_VERSION = "v"; extern const char *BEES_USAGE; const char *BEES_USAGE = ""; }\n')
    srcs.append((st, []))
    ps = []; objs = []
    def reap(n):
        while len(ps) > n: ps.pop(0).wait()
    for s, x in srcs:
        o = os.path.join(d, os.path.basename(s) + '.o'); objs.append(o)
        ps.append(subprocess.Popen(CXX + ['-O0'] + incs(False) + x + ['-c', s, '-o', o], stderr=subprocess.DEVNULL))
        reap(7)
    reap(0)
    a = os.path.join(d, 'rest.a')
    sh(['ar', 'rcs', a] + [o for o in objs if os.path.exists(o)])
    for o in objs:
        if os.path.exists(o): os.unlink(o)
    _arch[work] = a
    return a

def build(H, work):
    src = os.path.join(VERIF, 'harness', H.file)
    ll = os.path.join(work, H.name + '.n.ll')
    compile_ll(src, ll, model=False, defs=H.defs + ['VC_NATIVE'])
    t = open(ll).read()
    names = re.findall(r'^define [^@]*@("?[\w.$<>,:~ ]+"?)\(', t, re.M)
    sub = {}
    for pat, tgt in (H.native_replace if H.native_replace is not None else H.replace).items():
        decl = set(re.findall(r'^declare [^@]*@("?[\w.$]+"?)\(', t, re.M)) | set(names)
        for n in decl:
            if re.match(pat + '$', n) and n != tgt: sub[n] = tgt
    if sub:
        out = []; skip = False
        for line in t.split('\n'):
            m = re.match(r'^(define|declare) [^@]*@("?[\w.$]+"?)\(', line)
            if m and m.group(2) in sub:
                skip = m.group(1) == 'define'
                continue
            if skip:
                if line == '}': skip = False
                continue
            out.append(line)
        t = '\n'.join(out)
        t = re.sub(r'@([\w.$]+)', lambda m: '@' + sub.get(m.group(1), m.group(1)), t)
        # comdats of removed definitions
        t = re.sub(r'^\$([\w.$]+) = comdat any$', lambda m: '' if m.group(1) in sub else m.group(0), t, flags=re.M)
    # system calls with a harness contract
    vcx = set(n[4:] for n in names if n.startswith('vcx_'))
    t = re.sub(r'^declare [^@]*@(%s)\(.*$' % '|'.join(map(re.escape, vcx)), '', t, flags=re.M) if vcx else t
    if vcx: t = re.sub(r'@(%s)\(' % '|'.join(map(re.escape, vcx)), r'@vcx_\1(', t)
    open(ll, 'w').write(t)
    exe = os.path.join(work, H.name + '.exe')
    cmd = ['clang++', '-std=c++17', '-w', '-O1', '-DVC_NATIVE', '-DVC_ENTRY=' + H.entry, '-I' + HERE, ll, os.path.join(HERE, 'vc_native.cc'), '-o', exe,
           archive(work), '-lpthread', '-luuid', '-Wl,--unresolved-symbols=ignore-all,--allow-multiple-definition', '-no-pie'] + H.native_link
    rc, so, se = sh(cmd, 200)
    if rc:
        cmd.remove('-luuid'); rc, so, se = sh(cmd, 200)
    if rc: raise ToolError('native link failed: ' + se[-1500:])
    return exe

def search(H, work, hints, secs, seed=1, nproc=8):
    """returns (list of values, label) of a native failure, or None"""
    exe = build(H, work)
    ps = []
    hf = []
    for i, h in enumerate(hints or [[]]):
        fn = os.path.join(work, '%s.hint%d' % (H.name, i))
        open(fn, 'w').write('\n'.join(map(str, h))); hf.append(fn)
    for i in range(nproc):
        of = os.path.join(work, '%s.found%d' % (H.name, i))
        if os.path.exists(of): os.unlink(of)
        ps.append((subprocess.Popen([exe, 'search', str(secs), str(seed * 1000 + i), hf[i % len(hf)], of, ''], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL), of))
    best = None; log = []
    for p, of in ps:
        try: so = p.communicate(timeout=secs + 30)[0].decode()
        except subprocess.TimeoutExpired: p.kill(); continue
        log.append(so.strip())
        if so.startswith('FOUND'):
            v = [int(x) for x in open(of).read().split()]
            lab = so.strip().split('label=', 1)[1]
            if best is None or len(v) < len(best[0]): best = (v, lab)
    return best, log
