#!/usr/bin/env python3
"""irvc: contract verification driver.
   real C++ source -> clang IR -> C (ll2c/emit) -> CBMC obligations; failing
   obligations are replayed on the native build of the same harness."""
import os, sys, re, subprocess, json, time, hashlib, tempfile, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from ll2c import Module
from emit import Emitter
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
CXX = ['clang++', '-std=c++17', '-fno-access-control', '-D_FILE_OFFSET_BITS=64', '-w']
PASSES = 'function(sroa,early-cse,simplifycfg<no-hoist-common-insts;no-sink-common-insts>,dce)'

class ToolError(Exception): pass

def sh(cmd, timeout=None, inp=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, input=inp)
    except subprocess.TimeoutExpired:
        raise ToolError('timeout: ' + ' '.join(cmd)[:200])
    return p.returncode, p.stdout.decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace')

def incs(model):
    r = []
    if model: r += ['-I' + os.path.join(VERIF, 'model')]
    return r + ['-I' + HERE, '-I' + os.path.join(VERIF, 'harness'), '-I' + REPO + '/include', '-I' + REPO, '-I' + REPO + '/src', '-I' + REPO + '/lib']

def compile_ll(src, out, model=True, defs=(), debug=False):
    cmd = CXX + ['-O0', '-Xclang', '-disable-O0-optnone', '-fno-vectorize', '-S', '-emit-llvm'] + incs(model) + ['-D' + d for d in defs] + \
          (['-DVC_MODEL'] if model else []) + (['-g1'] if debug else []) + [src, '-o', out]
    rc, so, se = sh(cmd, 300)
    if rc: raise ToolError('clang failed:\n' + se[:3000])

class Harness:
    def __init__(self, **k):
        self.file = k['file']; self.entry = k['entry']; self.name = k.get('name', k['entry'])
        self.replace = k.get('replace', {}); self.cuts = k.get('cuts', {}); self.force_extern = k.get('force_extern', [])
        self.unwind = k.get('unwind', 3); self.unwindset = k.get('unwindset', {}); self.opts = k.get('opts', {})
        self.cbmc = k.get('cbmc', []); self.functions = k.get('functions', []); self.defs = k.get('defs', [])
        self.native = k.get('native', True); self.native_replace = k.get('native_replace', None)
        self.timeout = k.get('timeout', 400); self.bounded = k.get('bounded', None)
        self.extra = k.get('extra', []); self.solver = k.get('solver', None)
        self.min_obligations = k.get('min_obligations', 1)
        self.fuzz_s = k.get('fuzz_s', 20); self.native_link = k.get('native_link', [])
        self.model = k.get('model', True)

def find_syms(mod, pat):
    """functions whose demangled-ish mangled name matches regex"""
    return [n for n in mod.funcs if re.match(pat + '$', n[1:].strip('"'))]

class Run:
    def __init__(self, H, work):
        self.H, self.work = H, work
        self.ll = os.path.join(work, H.name + '.ll')
        self.oll = os.path.join(work, H.name + '.o.ll')
        self.stats = {}
    def frontend(self):
        H = self.H
        src = os.path.join(VERIF, 'harness', H.file)
        compile_ll(src, self.ll, model=H.model, defs=H.defs)
        rc, so, se = sh(['opt-18', '-S', '-passes=' + H.opts.get('passes', PASSES), self.ll, '-o', self.oll], 300)
        if rc: raise ToolError('opt failed: ' + se[:2000])
        self.text = open(self.oll).read()
    def translate(self, dropped=frozenset(), houdini=False):
        H = self.H
        mod = Module(); mod.parse(self.text)
        rep = {}
        for pat, tgt in H.replace.items():
            l = find_syms(mod, pat)
            for n in l: rep[n] = '@' + tgt
            self.stats.setdefault('replaced', {})[pat] = len(l)
        e = Emitter(mod, '@' + H.entry, rep, H.cuts, H.force_extern, dict(H.opts, dropped=set(dropped), houdini=houdini))
        c = e.run()
        if e.unframed: raise ToolError('loop writes outside its declared frame: ' + ' | '.join(sorted(set(e.unframed))))
        fn = os.path.join(self.work, H.name + '.c')
        open(fn, 'w').write(c)
        self.E = e
        return fn
    def cbmc(self, fn, trace=False, timeout=None, props=None):
        H = self.H
        cmd = ['cbmc', fn, '--no-standard-checks', '--no-malloc-may-fail', '--unwinding-assertions', '--unwind', str(H.unwind), '--json-ui', '--verbosity', '4', '--no-built-in-assertions' ] if False else \
              ['cbmc', fn, '--no-standard-checks', '--unwinding-assertions', '--unwind', str(H.unwind), '--json-ui', '--verbosity', '8', '--object-bits', str(H.opts.get('object_bits', 10))]
        if H.unwindset: cmd += ['--unwindset', ','.join('%s:%d' % kv for kv in H.unwindset.items())]
        cmd += H.cbmc
        if H.solver: cmd += H.solver
        if trace: cmd += ['--trace']
        for p in props or []: cmd += ['--property', p]
        t = time.time()
        rc, so, se = sh(cmd, timeout or H.timeout)
        dt = time.time() - t
        try: js = json.loads(so)
        except Exception:
            raise ToolError('cbmc output not json (rc %d): %s %s' % (rc, so[-1500:], se[-1500:]))
        res = None; msgs = []
        for x in js:
            if 'result' in x: res = x['result']
            if x.get('messageType') in ('ERROR',): msgs.append(x.get('messageText'))
            if x.get('messageType') == 'WARNING' and 'no body' in x.get('messageText', ''): msgs.append(x['messageText'])
        if res is None: raise ToolError('cbmc gave no result (rc %d): %s' % (rc, '; '.join(msgs)[:1500] or so[-800:]))
        return res, dt, msgs
    def houdini(self):
        """largest inductive subset of the generated loop-invariant candidates"""
        dropped = set(); it = 0; t0 = time.time()
        if not self.H.cuts: return dropped, 0
        while True:
            it += 1
            fn = self.translate(dropped, houdini=True)
            if not self.E.cands: return dropped, it
            props = None
            res, dt, msgs = self.cbmc(fn)
            bad = set()
            for r in res:
                if r['status'] == 'FAILURE' and r['description'].startswith('inv:'):
                    bad.add(re.sub(r':(entry|step)$', '', r['description']))
            if os.environ.get('IRVC_V'): print('houdini %s it %d: %d candidates, %d refuted, %.1fs' % (self.H.name, it, len(self.E.cands), len(bad), dt), file=sys.stderr); os.environ.get('IRVC_V') == '2' and print(sorted(bad)[:25], file=sys.stderr)
            if not bad: return dropped, it
            dropped |= bad
            if it > 40: raise ToolError('houdini did not converge')
    def verify(self):
        H = self.H
        t0 = time.time()
        self.frontend()
        dropped, its = self.houdini()
        fn = self.translate(dropped)
        res, dt, msgs = self.cbmc(fn)
        E = self.E
        obs = []; fails = []; covers = {}; tool = []
        for r in res:
            d = r['description']; st = r['status']
            if d.startswith('cover:'):
                covers[d] = (st == 'FAILURE') or covers.get(d, False)
                continue
            kind = 'ob' if d.startswith('ob:') else 'inv' if d.startswith('inv:') else 'unwind' if 'unwinding assertion' in d else 'safety'
            obs.append((r['property'], d, st, kind))
            if st != 'SUCCESS': fails.append(dict(prop=r['property'], desc=d, status=st, kind=kind, loc=r.get('sourceLocation', {})))
        self.result = dict(name=H.name, file=H.file, entry=H.entry, obligations=len(obs), discharged=sum(1 for o in obs if o[2] == 'SUCCESS'),
            by_kind={k: sum(1 for o in obs if o[3] == k) for k in set(o[3] for o in obs)},
            unreached=[c for c in E.covers if not covers.get(c)], covers=len(covers), fails=fails, solver_s=round(dt, 2), wall_s=round(time.time() - t0, 2),
            functions=[demangle(n[1:]) for n in E.translated], externs=sorted(demangle(n[1:]) for n in E.externs), houdini_rounds=its,
            invariants=sorted(E.cands), instructions=E.stat_ins, msgs=msgs, replaced=self.stats.get('replaced', {}))
        self.cfile = fn
        return self.result
    def trace_inputs(self, prop):
        """values of vc_nd along the counterexample to one property"""
        try: res, dt, msgs = self.cbmc(self.cfile, trace=True, props=[prop])
        except ToolError: return None
        for r in res:
            if r['property'] == prop and r['status'] == 'FAILURE':
                out = []
                for s in r.get('trace', []):
                    if s.get('stepType') == 'assignment' and s.get('lhs') in ('vc_nd', 'vc_ndd') and not s.get('hidden') is None or (s.get('stepType') == 'assignment' and s.get('lhs') in ('vc_nd', 'vc_ndd')):
                        if s.get('sourceLocation', {}).get('function') is None: continue
                        v = s['value']
                        if s['lhs'] == 'vc_nd': out.append(int(v['binary'], 2))
                        else: out.append(int(v['binary'], 2))
                return out
        return None

_dm = {}
def demangle(n):
    if n not in _dm:
        rc, so, se = sh(['c++filt', n])
        _dm[n] = so.strip()
    return _dm[n]

if __name__ == '__main__':
    pass
