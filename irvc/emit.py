"""C emission for ll2c (see ll2c.py)."""
import re, sys
from ll2c import *

STD_BASE = {
 '_ZTISt9exception': None,
 '_ZTISt11logic_error': '_ZTISt9exception', '_ZTISt13runtime_error': '_ZTISt9exception',
 '_ZTISt16invalid_argument': '_ZTISt11logic_error', '_ZTISt12out_of_range': '_ZTISt11logic_error',
 '_ZTISt12length_error': '_ZTISt11logic_error', '_ZTISt12domain_error': '_ZTISt11logic_error',
 '_ZTISt11range_error': '_ZTISt13runtime_error', '_ZTISt14overflow_error': '_ZTISt13runtime_error',
 '_ZTISt15underflow_error': '_ZTISt13runtime_error', '_ZTISt12system_error': '_ZTISt13runtime_error',
 '_ZTISt9bad_alloc': '_ZTISt9exception', '_ZTISt8bad_cast': '_ZTISt9exception',
 '_ZTISt17bad_function_call': '_ZTISt9exception', '_ZTISt12bad_weak_ptr': '_ZTISt9exception',
 '_ZTINSt8ios_base7failureB5cxx11E': '_ZTISt12system_error',
}

# external functions that throw (libstdc++ helper throwers)
THROWERS = {
 '_ZSt20__throw_length_errorPKc': '_ZTISt12length_error', '_ZSt17__throw_bad_allocv': '_ZTISt9bad_alloc',
 '_ZSt20__throw_out_of_rangePKc': '_ZTISt12out_of_range', '_ZSt24__throw_out_of_range_fmtPKcz': '_ZTISt12out_of_range',
 '_ZSt19__throw_logic_errorPKc': '_ZTISt11logic_error', '_ZSt24__throw_invalid_argumentPKc': '_ZTISt16invalid_argument',
 '_ZSt25__throw_bad_function_callv': '_ZTISt17bad_function_call', '_ZSt28__throw_bad_array_new_lengthv': '_ZTISt9bad_alloc',
 '_ZSt20__throw_system_errori': '_ZTISt12system_error', '_ZSt16__throw_bad_castv': '_ZTISt8bad_cast',
 '_ZSt19__throw_range_errorPKc': '_ZTISt11range_error', '_ZSt20__throw_bad_weak_ptrv': '_ZTISt12bad_weak_ptr',
 '_ZSt22__throw_bad_weak_ptrv': '_ZTISt12bad_weak_ptr',
 '__cxa_throw_bad_array_new_length': '_ZTISt9bad_alloc',
}

ALLOC = {'_Znwm', '_Znam', 'malloc', '_ZnwmSt11align_val_t', '_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t'}
FREE = {'_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm', 'free', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t'}
ABORT = {'abort', '_ZSt9terminatev', '__assert_fail', '__clang_call_terminate', '__cxa_pure_virtual', '_ZSt21__glibcxx_assert_failPKciS0_S0_', '__cxa_call_terminate'}
EXC = {'__cxa_allocate_exception', '__cxa_throw', '__cxa_begin_catch', '__cxa_end_catch', '__cxa_rethrow', '__cxa_free_exception', '__cxa_guard_acquire',
       '__cxa_guard_release', '__cxa_guard_abort', '__cxa_atexit', '__cxa_get_exception_ptr', '_Unwind_Resume'}
PTHREAD0 = {'pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_mutex_trylock', 'pthread_mutex_init', 'pthread_mutex_destroy', '__pthread_key_create'}
VCP = {'vc_assert', 'vc_assume', 'vc_cover', 'vc_nd_u64', 'vc_nd_double', 'vc_unreachable', 'vc_alloc', 'vc_same_object', 'vc_uf1', 'vc_uf2', 'vc_havoc',
       'vc_object_size', 'vc_pointer_offset', 'vc_note_trusted', 'vc_readable', 'vc_symbolic'}

# Text output only: stream inserters, string formatting, and the status/trace
# note objects.  Dropped by the extraction (no effect on verified state).
DEFAULT_EXTERN = [r'_ZNKSt9type_info', r'_ZN15BeesStatTmplI', r'_ZN.*lsERSo', r'_ZStlsI', r'_ZN8crucible6to_hex', r'_ZN8crucible\w*ntoa', r'_ZN8crucible7name_fd', r'_ZN8crucible15readlink_or_die', r'_ZN8crucible\w*printf',
  r'_ZN9BeesTracer', r'_ZN8BeesNote', r'_Z6prettyd', r'_ZN8crucible7ChatterC', r'_ZN8crucible7ChatterD', r'_ZN8crucible7Chatter', r'_ZN8crucible10ChatterBox', r'_ZN8crucible13ChatterUnwinder', r'_ZN8crucible12ChatterTracer',
  r'_ZNK?St12system_error', r'_ZNK?St10error_code', r'_ZNSt7__cxx1112basic_string', r'_ZNKSt7__cxx1112basic_string', r'_ZStplIc', r'_ZNSt7__cxx119to_string', r'_ZN8crucible7hexdump']

# reference counting of shared_ptr control blocks (libstdc++): storage stays valid, destructors run by the
# last release are not modelled, unless the harness asks for them (opts refcount)
REFCOUNT = [r'_ZNSt16_Sp_counted_baseILN9__gnu_cxx12_Lock_policyE2EE(10_M_releaseEv|15_M_add_ref_copyEv|15_M_weak_releaseEv|15_M_weak_add_refEv|19_M_release_last_useEv|24_M_release_last_use_coldEv|10_M_destroyEv)']

# externals whose result is modelled more precisely than "unconstrained"
def san(n):
    n = n[1:]
    if n[0] == '"': n = n[1:-1]
    return re.sub(r'[^A-Za-z0-9_]', lambda m: '_%02x' % ord(m.group(0)), n)

class Emitter:
    def __init__(self, mod, entry, replace=None, cuts=None, force_extern=None, opts=None):
        self.m = mod
        self.entry = entry
        self.replace = replace or {}
        self.cuts = cuts or {}
        self.force_extern = force_extern or []
        self.opts = opts or {}
        self.ctn = {}; self.ctdefs = []
        self.need_f = []; self.seen_f = set()
        self.need_g = []; self.seen_g = set()
        self.externs = {}
        self.tids = {}
        self.labels = {}
        self.covers = set()
        self.cands = {}   # label -> expr
        self.stat_ins = 0
        self.translated = []
        self.unsup = []
        self.thunk_id = 0
        self.frame = None
        self.unframed = []

    # ---------------------------------------------------------- types
    def ct(self, t):
        t0 = t
        if t.k == 'int':
            n = t.a
            return {1: 'u1', 8: 'u8', 16: 'u16', 32: 'u32', 64: 'u64', 128: 'u128'}.get(n) or 'unsigned __CPROVER_bitvector[%d]' % n
        if t.k == 'ptr': return 'ptr'
        if t.k == 'void': return 'void'
        if t.k in ('float', 'double'): return t.k
        if t.k == 'x86_fp80': return 'long double'
        if t.k == 'opaque': return 'u8'
        key = t.key()
        if key in self.ctn: return self.ctn[key]
        if t.k == 'named':
            r = self.m.types.get(t.a)
            if r is None or r.k == 'opaque':
                self.ctn[key] = 'u8'; return 'u8'
            nm = 'struct T%d' % len(self.ctn)
            self.ctn[key] = nm
            if r.k == 'struct': self._emit_struct(nm, r, t.a)
            else:
                self.ctn[key] = self.ct(r)
            return self.ctn[key]
        if t.k == 'struct':
            nm = 'struct T%d' % len(self.ctn)
            self.ctn[key] = nm
            self._emit_struct(nm, t, key)
            return nm
        if t.k in ('arr', 'vec'):
            e = self.ct(t.b)
            nm = 'struct T%d' % len(self.ctn)
            self.ctn[key] = nm
            if t.a == 0 or self.m.size(t.b) == 0:
                self.ctdefs.append('%s { u8 empty[0]; };' % nm)
            else:
                self.ctdefs.append('%s { %s a[%d]; };' % (nm, e, t.a))
            return nm
        raise Exception('ct ' + key)
    def _emit_struct(self, nm, r, cm):
        fl = []
        for i, x in enumerate(r.a):
            if self.m.size(x) == 0:
                fl.append(('u8', i, '[0]')); 
                # zero size member
                self.ct(x) if x.k not in ('opaque',) else None
                continue
            fl.append((self.ct(x), i, ''))
        b = ' '.join('%s f%d%s;' % f for f in fl) or 'u8 empty[0];'
        self.ctdefs.append('%s { %s }%s; /* %s */' % (nm, b, ' __attribute__((packed))' if r.packed else '', cm.replace('*/', '')))

    def sct(self, t):
        n = t.a
        return {1: 's1', 8: 's8', 16: 's16', 32: 's32', 64: 's64', 128: 's128'}.get(n) or 'signed __CPROVER_bitvector[%d]' % n

    # ---------------------------------------------------------- names
    def use_func(self, name):
        name = self.replace.get(name, name)
        if name in self.m.aliases:
            v = self.m.aliases[name]
            if v[0] == 'g': return self.use_func(v[1])
        f = self.m.funcs.get(name)
        if name not in self.seen_f:
            self.seen_f.add(name); self.need_f.append(name)
        return 'F_' + san(name)
    def is_func(self, name):
        name = self.replace.get(name, name)
        return name in self.m.funcs or (name in self.m.aliases and self.m.aliases[name][0] == 'g' and self.m.aliases[name][1] in self.m.funcs)
    def use_glob(self, name):
        if name in self.m.aliases:
            v = self.m.aliases[name]
            if v[0] == 'g': return self.use_glob(v[1])
        if name not in self.seen_g:
            self.seen_g.add(name); self.need_g.append(name)
        return 'G_' + san(name)
    def tid(self, name):
        if name not in self.tids: self.tids[name] = len(self.tids) + 1
        return self.tids[name]
    def local(self, n):
        return 'v_' + san(n)

    # ---------------------------------------------------------- values
    def val(self, t, v, init=False):
        k = v[0]
        if k == 'l': return self.local(v[1])
        if k == 'g':
            if self.is_func(v[1]):
                return '((ptr)&%s)' % self.use_func(v[1])
            if v[1].startswith('@_ZTI') :
                # typeinfo addresses only serve as identities
                return '((ptr)%d)' % (0x1000 + self.tid(v[1][1:]))
            return '((ptr)&%s)' % self.use_glob(v[1])
        r = self.m.resolve(t)
        if k == 'int':
            n = v[1]
            if r.k != 'int': raise Exception('int const for ' + t.key())
            w = r.a
            n &= (1 << w) - 1
            if w <= 64: return '((%s)%dULL)' % (self.ct(r), n)
            return '((((%s)%dULL)<<64)|%dULL)' % (self.ct(r), n >> 64, n & (2**64-1))
        if k == 'null': return '((ptr)0)'
        if k == 'fp':
            x = v[1]
            if x.startswith('0x'):
                if r.k in ('double', 'float') and x[2] not in 'KLMHR':
                    d = _struct.unpack('<d', _struct.pack('<Q', int(x, 16)))[0]
                    if d != d: return '((%s)(0.0/0.0))' % r.k
                    if d in (float('inf'), -float('inf')): return '((%s)(%s1.0/0.0))' % (r.k, '-' if d < 0 else '')
                    return '((%s)%s)' % (r.k, d.hex())
                return '((long double)0)'
            return '((%s)%s)' % (r.k, x)
        if k in ('undef', 'zero'):
            if r.k in ('int',): return '((%s)0)' % self.ct(r) if k == 'zero' or init else self.nd(r)
            if r.k == 'ptr': return '((ptr)0)'
            if r.k in ('float', 'double', 'x86_fp80'): return '((%s)0)' % self.ct(r)
            if init: return '{0}' if self.m.size(r) else '{}'
            return '((%s){0})' % self.ct(t) if k == 'zero' else self.undef(t)
        if k == 'str':
            b = []
            s = v[1]; i = 0
            while i < len(s):
                if s[i] == '\\':
                    if s[i+1] == '\\': b.append(92); i += 2
                    else: b.append(int(s[i+1:i+3], 16)); i += 3
                else: b.append(ord(s[i])); i += 1
            return '{{' + ','.join(map(str, b)) + '}}'
        if k == 'agg':
            if init:
                inner = []
                for (t2, v2) in v[1]:
                    if self.m.size(t2) == 0: inner.append('{}')
                    else: inner.append(self.val(t2, v2, True))
                s = '{' + ','.join(inner) + '}'
                if r.k in ('arr', 'vec'): return '{' + s + '}' if v[1] else '{}'
                return s
            return '((%s)%s)' % (self.ct(t), self.val(t, v, True))
        if k == 'cgep':
            return self.gep(v[1], self.val(PTR, v[2]), v[3])
        if k == 'ccast':
            return self.cast(v[1], v[2], self.val(v[2], v[3]), v[4])
        if k == 'cbin':
            return self.bin(v[1], v[2], self.val(v[2], v[3]), self.val(v[2], v[4]))
        raise Exception('val ' + str(v)[:100])
    def nd(self, t):
        t0 = t
        t = self.m.resolve(t)
        if t.k == 'int': return 'nd_%s()' % self.ct(t) if t.a in (1, 8, 16, 32, 64, 128) else '((%s)nd_u128())' % self.ct(t)
        if t.k == 'ptr': return 'nd_ptr()'
        if t.k in ('float', 'double'): return 'nd_%s()' % t.k
        if t.k == 'x86_fp80': return '((long double)0)'
        return self.undef(t0)
    def undef(self, t):
        c = self.ct(t)
        nm = 'undef_' + re.sub(r'\W+', '_', c)
        self.undefs.add((nm, c))
        return '%s()' % nm

    def gep(self, bt, base, idx):
        r = self.m.resolve(bt)
        i0t, i0 = idx[0]
        c = self.ct(bt)
        def ix(t, v):
            if v[0] == 'int': 
                n = v[1]
                return str(n)
            return '(s64)(%s)%s' % (self.sct(t), self.val(t, v))
        if self.m.size(bt) == 0:
            if r.k == 'arr' and len(idx) > 1 and self.m.size(r.b): return self.gep(r.b, base, idx[1:])
            return base
        if len(idx) == 1:
            if i0[0] == 'int' and i0[1] == 0: return base
            if r.k == 'int' and r.a == 8:
                return '((ptr)((u8*)%s + (%s)))' % (base, ix(i0t, i0))
            return '((ptr)((%s*)%s + (%s)))' % (c, base, ix(i0t, i0))
        e = '((%s*)%s)' % (c, base)
        if i0[0] == 'int' and i0[1] == 0: e = '(*%s)' % e
        else: e = '%s[%s]' % (e, ix(i0t, i0))
        t = bt
        for pos, (it, iv) in enumerate(idx):
            if pos == 0: continue
            r = self.m.resolve(t)
            if r.k == 'struct':
                n = iv[1]
                e += '.f%d' % n; t = r.a[n]
                if self.m.size(t) == 0:
                    rest = idx[pos + 1:]
                    tr = self.m.resolve(t)
                    if tr.k == 'arr' and rest and self.m.size(tr.b):
                        # flexible array member: step in elements
                        return self.gep(tr.b, '((ptr)&%s)' % e, rest)
                    return '((ptr)&%s)' % e
            else:
                e += '.a[%s]' % ix(it, iv); t = r.b
        return '((ptr)&%s)' % e

    def cast(self, o, ft, x, tt):
        c = self.ct(tt)
        if o in ('trunc',):
            if tt.a == 1: return '((u1)((%s)&1))' % x
            return '((%s)%s)' % (c, x)
        if o == 'zext': return '((%s)%s)' % (c, x)
        if o == 'sext':
            if ft.a == 1: return '((%s)(-(%s)%s))' % (c, self.sct(tt), x)
            return '((%s)(%s)(%s)%s)' % (c, self.sct(tt), self.sct(ft), x)
        if o == 'ptrtoint': return '((%s)(u64)%s)' % (c, x)
        if o == 'inttoptr': return '((ptr)(u64)%s)' % x
        if o in ('bitcast', 'addrspacecast'):
            a, b = self.m.resolve(ft), self.m.resolve(tt)
            if a.k == b.k == 'ptr' or a == b: return x
            if a.k == 'int' and b.k == 'double': return 'bc_u64_double(%s)' % x
            if a.k == 'double' and b.k == 'int': return 'bc_double_u64(%s)' % x
            if a.k == 'int' and b.k == 'float': return 'bc_u32_float(%s)' % x
            if a.k == 'float' and b.k == 'int': return 'bc_float_u32(%s)' % x
            raise Exception('bitcast')
        if o in ('fptrunc', 'fpext'): return '((%s)%s)' % (c, x)
        if o == 'fptoui': return '((%s)%s)' % (c, x)
        if o == 'fptosi': return '((%s)(%s)%s)' % (c, self.sct(tt), x)
        if o == 'uitofp': return '((%s)%s)' % (c, x)
        if o == 'sitofp': return '((%s)(%s)%s)' % (c, self.sct(ft), x)
        raise Exception(o)

    def bin(self, o, t, a, b):
        r = self.m.resolve(t)
        c = self.ct(t)
        if o[0] == 'f':
            if o == 'frem': return 'nd_%s()' % r.k
            return '(%s %s %s)' % (a, {'fadd': '+', 'fsub': '-', 'fmul': '*', 'fdiv': '/'}[o], b)
        ops = {'add': '+', 'sub': '-', 'mul': '*', 'udiv': '/', 'urem': '%', 'and': '&', 'or': '|', 'xor': '^', 'shl': '<<', 'lshr': '>>'}
        if o in ops:
            e = '((%s)(%s %s %s))' % (c, a, ops[o], b)
            if r.a == 1 and o in ('add', 'sub'): e = '((u1)(%s & 1))' % e
            return e
        s = self.sct(t)
        if o == 'sdiv': return '((%s)((%s)%s / (%s)%s))' % (c, s, a, s, b)
        if o == 'srem': return '((%s)((%s)%s %% (%s)%s))' % (c, s, a, s, b)
        if o == 'ashr': return '((%s)((%s)%s >> %s))' % (c, s, a, b)
        raise Exception(o)

    # ---------------------------------------------------------- program
    def run(self):
        self.undefs = set()
        self.compute_maythrow()
        self.use_func(self.entry)
        bodies = []
        protos = []
        gdefs = []
        while self.need_f or self.need_g:
            while self.need_f:
                n = self.need_f.pop()
                self.emit_func(n, protos, bodies)
            while self.need_g:
                n = self.need_g.pop()
                self.emit_glob(n, gdefs)
        out = [RUNTIME_HEAD]
        out += self.ctdefs
        for nm, c in sorted(self.undefs): out.append('static %s %s(void) { %s x; return x; }' % (c, nm, c))
        out += protos
        out += ['%s;' % d for d in self.gdecls]
        out += gdefs
        out.append(self.exc_match())
        out.append(RUNTIME_TAIL)
        out += bodies
        out.append('int main(void) { vc_init_exc(); %s F_%s(); return 0; }' % (' '.join('F_%s();' % san('@' + x) for x in []), san(self.entry)))
        return '\n'.join(out)

    gdecls = []
    def emit_glob(self, n, gdefs):
        g = self.m.globals.get(n)
        if g is None:
            self.gdecls = self.gdecls + ['u8 G_%s' % san(n)]; return
        t = g['ty']
        if self.m.resolve(t).k == 'opaque' or self.m.size(t) == 0:
            self.gdecls = self.gdecls + ['u8 G_%s[8]' % san(n)]; return
        c = self.ct(t)
        q = ''
        self.gdecls = self.gdecls + ['extern %s%s G_%s' % (q, c, san(n))]
        if g['init'] is None:
            gdefs.append('%s G_%s;' % (c, san(n)))
            self.externs[n] = 'global'
        else:
            v = g['init']
            if v[0] == 'zero' : gdefs.append('%s G_%s;' % (c, san(n)))
            else:
                gdefs.append('%s%s G_%s = %s;' % (q, c, san(n), self.val(t, v, True)))

    def attr_text(self, f):
        s = f.attrs
        for m in re.findall(r'#\d+', s): s += ' ' + self.m.attrs.get(m, '')
        return s

    def callee_name(self, v):
        if v[0] != 'g': return None
        n = v[1]
        n = self.replace.get(n, n)
        while n in self.m.aliases and self.m.aliases[n][0] == 'g': n = self.m.aliases[n][1]
        n = self.replace.get(n, n)
        return n

    def parse_body(self, f):
        if f.blocks is None and f.body is not None:
            FuncParser(self.m, f).run()

    def is_extern(self, name):
        f = self.m.funcs.get(name)
        if f is None or f.body is None: return True
        for r in DEFAULT_EXTERN + self.force_extern + ([] if self.opts.get('refcount') else REFCOUNT):
            if re.match(r, name[1:]): return True
        return False

    def compute_maythrow(self):
        """reachable functions that may raise, by fixpoint over the IR"""
        m = self.m
        seen = set(); work = [self.entry]; calls = {}; mt = set()
        indirect = set()
        def addglob(v, work, gseen):
            if not isinstance(v, tuple): return
            if v[0] == 'g':
                n = self.replace.get(v[1], v[1])
                if n in m.aliases and m.aliases[n][0] == 'g': n = self.replace.get(m.aliases[n][1], m.aliases[n][1])
                if n in m.funcs:
                    work.append(n); self.addr_taken.add(n)
                elif n in m.globals and n not in gseen and not n.startswith('@_ZTI'):
                    gseen.add(n)
                    i = m.globals[n]['init']
                    if i: addglob(i, work, gseen)
            for x in v[1:]:
                if isinstance(x, (tuple,)): addglob(x, work, gseen)
                elif isinstance(x, list):
                    for y in x:
                        if isinstance(y, tuple):
                            for z in y:
                                if isinstance(z, tuple): addglob(z, work, gseen)
        self.addr_taken = set()
        gseen = set()
        while work:
            n = work.pop()
            if n in seen: continue
            seen.add(n)
            f = m.funcs.get(n)
            if f is None: continue
            calls[n] = set()
            if self.is_extern(n):
                if n[1:] in THROWERS or n[1:] in ('__cxa_throw', '__cxa_rethrow'): mt.add(n)
                continue
            self.parse_body(f)
            for (lb, il) in f.blocks:
                for ins in il:
                    if ins.op in ('call', 'invoke'):
                        cn = self.callee_name(ins.d['callee'])
                        if cn is None:
                            if ins.op == 'call' and not self.nounwind_site(ins): indirect.add(n)
                        else:
                            work.append(cn)
                            if ins.op == 'call' and not self.nounwind_site(ins): calls[n].add(cn)
                        for (t, v, d) in ins.d['args']:
                            if v is not None: addglob(v, work, gseen)
                    elif ins.op == 'resume': mt.add(n)
                    else:
                        for kk, v in ins.d.items():
                            if isinstance(v, tuple): addglob(v, work, gseen)
                            elif isinstance(v, list):
                                for y in v:
                                    if isinstance(y, tuple):
                                        for z in y:
                                            if isinstance(z, tuple): addglob(z, work, gseen)
        mt |= indirect
        ch = True
        while ch:
            ch = False
            for n in seen:
                if n in mt: continue
                if calls.get(n, set()) & mt:
                    mt.add(n); ch = True
        self.maythrow = mt

    def nounwind_site(self, ins):
        s = ins.d['attrs']
        if 'nounwind' in s: return True
        for mm in re.findall(r'#\d+', s):
            if re.search(r'\bnounwind\b', self.m.attrs.get(mm, '')): return True
        cn = self.callee_name(ins.d['callee'])
        if cn:
            f = self.m.funcs.get(cn)
            if f is not None and re.search(r'\bnounwind\b', self.attr_text(f)): return True
        return False

    # ---------------------------------------------------------- functions
    def proto(self, f, name):
        ps = ', '.join('%s %s' % (self.ct(t), self.local(pn) if pn else 'p%d' % i) for i, (t, pn, d) in enumerate(f.params)) or 'void'
        return '%s F_%s(%s)' % (self.ct(f.rt), san(name), ps)

    def emit_func(self, name, protos, bodies):
        f = self.m.funcs.get(name)
        if f is None: raise Exception('no function ' + name)
        if self.is_extern(name):
            # address-taken extern: provide stub
            protos.append(self.proto(f, name) + ';')
            b = '' if f.rt.k == 'void' else 'return %s;' % self.extern_ret(f.rt, name, [('p%d' % i if not pn else self.local(pn)) for i, (t, pn, d) in enumerate(f.params)], [t for t, _, _ in f.params])
            bodies.append(self.proto(f, name) + ' { %s }' % b)
            if name not in self.externs and name[1:] not in EXC | ALLOC | FREE | ABORT | VCP: self.externs[name] = 'fn'
            return
        self.parse_body(f)
        self.translated.append(name)
        # by-value struct params: copy semantics are explicit in IR (byval ptr)
        protos.append(self.proto(f, name) + ';')
        FE = FuncEmitter(self, f, name)
        bodies.append(FE.run())

    def extern_ret(self, rt, name, args, tys):
        """unmodelled external: result unconstrained, except stream inserters which return their stream"""
        r = self.m.resolve(rt)
        if r.k == 'ptr' and args and tys[0].k == 'ptr' and self.ret_this(name):
            return args[0]
        return self.nd(rt)
    def ret_this(self, name):
        n = name[1:]
        return bool(re.match(r'(_ZNSo|_ZNSt13basic_ostream|_ZStls|_ZNSirs|_ZStrs|_ZNSt7__cxx1112basic_string.*(aS|pL|6appendE|6assignE)|_ZN?St.*basic_o?stream|_ZSt4endl|_ZSt7setfill|_ZNSt8ios_base)', n)) or bool(re.search(r'basic_ostream|basic_istream', n))

    def exc_match(self):
        # derive relation over type ids
        bases = dict(STD_BASE)
        for g, d in self.m.globals.items():
            if g.startswith('@_ZTI') and d['init'] and d['init'][0] == 'agg':
                l = d['init'][1]
                if len(l) >= 3 and l[2][1][0] == 'g': bases[g[1:]] = l[2][1][1][1:]
        rows = []
        names = list(self.tids)
        # make sure that all thrown types' ancestors have ids only when caught
        for n in names:
            x = bases.get(n)
            seen = set()
            while x and x not in seen:
                seen.add(x)
                if x in self.tids: rows.append((self.tids[n], self.tids[x]))
                x = bases.get(x)
        s = 'static u1 vc_derives(u32 t, u32 b) {\n  if (t == b) return 1;\n'
        for a, b in rows: s += '  if (t == %d && b == %d) return 1;\n' % (a, b)
        return s + '  return 0;\n}'

class FuncEmitter:
    def __init__(self, E, f, name):
        self.E, self.f, self.name = E, f, name
        self.m = E.m
        self.decl = []
        self.out = []
        self.tmp = 0
        self.alloca_ty = {}
        self.gep_ty = {}
    def w(self, s): self.out.append('  ' + s)
    def v(self, t, v): return self.E.val(t, v)

    def run(self):
        E, f = self.E, self.f
        self.types = {}
        for (t, pn, d) in f.params: self.types[pn] = t
        self.blk = {}
        for (lb, il) in f.blocks:
            self.blk[lb] = il
            for ins in il:
                E.stat_ins += 1
                if ins.dst and ins.ty.k != 'void':
                    self.types[ins.dst] = ins.ty
        for (lb, il) in f.blocks:
            for ins in il:
                if ins.dst and ins.ty.k != 'void':
                    self.decl.append('%s %s;' % (E.ct(ins.ty), E.local(ins.dst)))
                if ins.op == 'alloca':
                    self.alloca_ty[ins.dst] = ins.d['at']
                if ins.op == 'gep':
                    t = ins.d['bt']
                    try:
                        for (it, iv) in ins.d['idx'][1:]:
                            r = self.m.resolve(t)
                            t = r.a[iv[1]] if r.k == 'struct' else r.b
                        self.gep_ty[ins.dst] = t
                    except Exception: pass
        self.find_loops()
        first = True
        for (lb, il) in f.blocks:
            self.cur = lb
            if lb in self.cutheads: self.emit_cut_head(lb)
            self.out.append(' L%s: ;' % san(lb))
            for ins in il: self.ins(ins)
        return E.proto(f, self.name) + ' {\n' + '\n'.join('  ' + d for d in self.decl) + '\n' + '\n'.join(self.out) + '\n}\n'

    # ------------------------------------------------------ loops
    def succs(self, il):
        t = il[-1]
        if t.op == 'br': return [t.d['to']]
        if t.op == 'cbr': return [t.d['a'], t.d['b']]
        if t.op == 'switch': return [t.d['dflt']] + [x for _, x in t.d['cases']]
        if t.op == 'invoke': return [t.d['to'], t.d['unw']]
        return []
    def find_loops(self):
        self.cutheads = {}
        spec = None
        for rx, s in self.E.cuts.items():
            if re.match(rx + '$', self.name[1:].strip('"')): spec = s
        if spec is None: return
        order = [lb for lb, _ in self.f.blocks]
        succ = {lb: self.succs(il) for lb, il in self.f.blocks}
        pred = {lb: [] for lb in order}
        for a in order:
            for b in succ[a]: pred[b].append(a)
        # dominators
        dom = {lb: set(order) for lb in order}
        dom[order[0]] = {order[0]}
        ch = True
        while ch:
            ch = False
            for lb in order[1:]:
                ps = [dom[p] for p in pred[lb]]
                n = set.intersection(*ps) if ps else set()
                n = n | {lb}
                if n != dom[lb]: dom[lb] = n; ch = True
        heads = {}
        for a in order:
            for b in succ[a]:
                if b in dom[a]: heads.setdefault(b, []).append(a)
        idx = 0
        for h in order:
            if h not in heads: continue
            body = {h}; st = list(heads[h])
            while st:
                x = st.pop()
                if x in body: continue
                body.add(x); st += pred[x]
            sel = spec.get('loops', 'all')
            if (sel == 'all' or idx in sel) and self.body_reaches(body, spec):
                self.cutheads[h] = dict(dom=set(x for x in order if h in dom[x]), body=body, backs=set(heads[h]), idx=idx, spec=spec)
            idx += 1

    def body_reaches(self, body, spec):
        """loop selection by what the body calls (directly or not), not by position"""
        if 'calls' not in spec and 'nocalls' not in spec: return True
        E = self.E; seen = set(); work = []
        def push(il):
            for i in il:
                if i.op in ('call', 'invoke'):
                    cn = E.callee_name(i.d['callee'])
                    if cn: work.append(cn)
        for b in body: push(self.blk[b])
        while work:
            n = work.pop(); n = E.replace.get(n, n)
            if n in seen: continue
            seen.add(n)
            f = self.m.funcs.get(n)
            if f is None or f.body is None or E.is_extern(n): continue
            E.parse_body(f)
            for lb, il in f.blocks: push(il)
        hit = lambda rx: any(re.match(rx + '$', n[1:]) for n in seen)
        if 'calls' in spec and not hit(spec['calls']): return False
        if 'nocalls' in spec and hit(spec['nocalls']): return False
        return True

    def loop_vars(self, h):
        """integer variables of a cut loop: header phis plus scalar allocas written in the loop"""
        r = []
        for ins in self.blk[h]:
            if ins.op == 'phi': r.append((self.E.local(ins.dst), ins.ty))
        for a in self.cut_allocas(h):
            t = self.alloca_ty[a]
            if t.k in ('int', 'ptr'): r.append((self.E.local(a) + '_mem', t))
        for lv, t in self.frame_locs(h):
            if t.k == 'int': r.append((lv, t))
        for a in self.cut_allocas(h):
            w = self.wrapped_ptr(self.alloca_ty[a])
            if w: r.append((self.E.local(a) + '_mem' + w, T('ptr')))
        return r

    def wrapped_ptr(self, t):
        """struct { ptr } (an iterator): path of the pointer"""
        w = ''; t = self.m.resolve(t)
        while t.k == 'struct' and len(t.a) == 1: w += '.f0'; t = self.m.resolve(t.a[0])
        return w if w and t.k == 'ptr' else ''

    def frame_locs(self, h):
        """caller-visible scalar locations the loop body writes directly (havocked at the cut)"""
        ci = self.cutheads[h]; E = self.E
        if 'frame' not in ci:
            if E.frame is None:
                from frame import Frame
                E.frame = Frame(E)
            auto, bad = E.frame.check(self, h)
            for b in bad: E.unframed.append('%s.%d: %s' % (self.name[1:], ci['idx'], b))
            defs = self.f._defs; inb = set(i.dst for b in ci['body'] for i in self.blk[b] if i.dst)
            r = []
            for a, t in auto:
                if a[0] == 'l' and a[1] in inb:
                    g = defs[a[1]]; x = E.gep(g.d['bt'], self.v(PTR, g.d['b']), g.d['idx'])
                else: x = self.v(PTR, a)
                lv = '(*(%s*)%s)' % (E.ct(t), x)
                if (lv, t) not in r: r.append((lv, t))
            ci['frame'] = r
        return ci['frame']

    def cut_allocas(self, h):
        """allocas whose content may change in the loop: address used by a store/call/memcpy within the loop body"""
        ci = self.cutheads[h]
        if 'allocas' in ci: return ci['allocas']
        if self.E.frame is None:
            from frame import Frame
            self.E.frame = Frame(self.E)
        F = self.E.frame; f = self.f
        roots = F.roots_fn(f); mod = set()
        for r in F.writes([self.blk[b] for b in ci['body']], f, self.name):
            if r[0] == 'l': mod.add(r[1])
        for b in ci['body']:
            for ins in self.blk[b]:
                if ins.op in ('call', 'invoke') and self.E.callee_name(ins.d['callee']) is None:   # indirect call
                    for (t, v, d) in ins.d['args']:
                        if v and t.k == 'ptr':
                            for r in roots(v):
                                if r[0] == 'l': mod.add(r[1])
        # an alloca whose address is in memory may be modified through that alias
        st = set()
        for lb, il in f.blocks:
            for ins in il:
                if ins.op == 'store' and ins.ty.k == 'ptr' and ins.d['v'][0] == 'l':
                    st |= set(r[1] for r in roots(ins.d['v']) if r[0] == 'l' and not r[2])
        mod |= st
        mod = set(a for a in mod if a in self.alloca_ty)
        ci['allocas'] = sorted(mod)
        return ci['allocas']

    def candidates(self, h):
        ci = self.cutheads[h]
        if 'cands' in ci: return ci['cands']
        E = self.E; spec = ci['spec']
        tag = '%s.%d' % (spec.get('tag', self.name[1:]), ci['idx'])
        dropped = E.opts.get('dropped', set())
        L = []
        def add(kind, expr):
            lab = 'inv:%s:%s' % (tag, kind)
            if lab in dropped: return
            L.append((lab, expr))
            E.cands[lab] = expr
        vs = self.loop_vars(h)
        ents = {}
        for i, (nm, t) in enumerate(vs):
            e = 'ent_%s_%d' % (san(h), i)
            self.decl.append('%s %s;' % (E.ct(t), e))
            ents[nm] = e
        gs = []
        for gi, g in enumerate(spec.get('ghosts', [])):
            gt = E.m.globals['@' + g]['ty']
            E.use_glob('@' + g)
            e = 'gent_%s_%d' % (san(h), gi)
            self.decl.append('%s %s;' % (E.ct(gt), e))
            gs.append(('G_' + san('@' + g), e, gt))
        ci['ents'] = ents; ci['gents'] = gs
        ci['aggs'] = []
        for i, a in enumerate(self.cut_allocas(h)):
            t = self.alloca_ty[a]; n = self.m.size(t)
            if t.k in ('int', 'ptr', 'float', 'double') or n % 8 or n > 64 or n == 0 or self.wrapped_ptr(t): continue
            e = 'aent_%s_%d' % (san(h), i); self.decl.append('%s %s;' % (E.ct(t), e))
            nm = E.local(a) + '_mem'; ci['aggs'].append((nm, e)); ci.setdefault('agglab', {})[nm] = ':a%d==e' % i
            add('a%d==e' % i, ' && '.join('((u64*)&%s)[%d] == ((u64*)&%s)[%d]' % (nm, j, e, j) for j in range(n // 8)))
        consts = []
        for c in spec.get('consts', []):
            E.use_glob('@' + c)
            consts.append('G_' + san('@' + c))
        lvl = spec.get('level', 'affine')
        for i, (nm, t) in enumerate(vs):
            e = ents[nm]
            if t.k == 'ptr':
                add('v%d:obj' % i, '__CPROVER_same_object(%s, %s)' % (nm, e)); ci.setdefault('objlab', {})[nm] = 'inv:%s:v%d:obj' % (tag, i)
                add('v%d==e' % i, '%s == %s' % (nm, e))
                for gi, (g, ge, gt) in enumerate(gs):
                    if gt.k == 'int': add('v%d==e+g%d' % (i, gi), '%s == (ptr)((u8*)%s + (u64)(%s - %s))' % (nm, e, g, ge))
                for ti, tpl in enumerate(spec.get('ptrs', [])):
                    add('v%d:q%d' % (i, ti), self.gsub(tpl).replace('$v', nm).replace('$e', e))
                continue
            if t.k != 'int': continue
            c = E.ct(t); s = E.sct(t)
            add('v%d==e' % i, '%s == %s' % (nm, e))
            if t.a == 1: continue
            for gi, (g, ge, gt) in enumerate(gs if lvl != 'eq' else []):
                add('v%d==e+g%d' % (i, gi), '%s == (%s)(%s + (%s)(%s - %s))' % (nm, c, e, c, g, ge))
                add('v%d==e-g%d' % (i, gi), '%s == (%s)(%s - (%s)(%s - %s))' % (nm, c, e, c, g, ge))
                add('v%d==g%d' % (i, gi), '%s == (%s)%s' % (nm, c, g))
            if lvl != 'eq':
                add('v%d<=e' % i, '%s <= %s' % (nm, e)); add('v%d>=e' % i, '%s >= %s' % (nm, e))
                add('v%ds<=e' % i, '(%s)%s <= (%s)%s' % (s, nm, s, e)); add('v%ds>=e' % i, '(%s)%s >= (%s)%s' % (s, nm, s, e))
                add('v%ds>=0' % i, '(%s)%s >= 0' % (s, nm))
            if 'consts' in spec:
                for ci2, k in enumerate(consts):
                    add('v%d<=c%d' % (i, ci2), '%s <= (%s)%s' % (nm, c, k))
                    add('v%d<c%d' % (i, ci2), '%s < (%s)%s' % (nm, c, k))
                    add('v%d>=c%d' % (i, ci2), '%s >= (%s)%s' % (nm, c, k))
                    add('v%d==c%d' % (i, ci2), '%s == (%s)%s' % (nm, c, k))
            for ti, tpl in enumerate(spec.get('unary', [])):
                add('v%d:u%d' % (i, ti), self.gsub(tpl).replace('$v', nm).replace('$e', e).replace('$t', c))
        if 'pairs' in spec:
            for i, (nm, t) in enumerate(vs):
                for j, (nm2, t2) in enumerate(vs):
                    if i == j or t.k != 'int' or t2.k != 'int' or t.a != t2.a or t.a == 1: continue
                    c = E.ct(t); s = E.sct(t)
                    for ti, tpl in enumerate(spec['pairs']):
                        add('v%d,v%d:p%d' % (i, j, ti), self.gsub(tpl).replace('$v', nm).replace('$w', nm2).replace('$e', ents[nm]).replace('$f', ents[nm2]).replace('$t', c).replace('$s', s))
        if 'ppairs' in spec:
            for i, (nm, t) in enumerate(vs):
                for j, (nm2, t2) in enumerate(vs):
                    if i == j or t.k != 'ptr' or t2.k != 'ptr': continue
                    for ti, tpl in enumerate(spec['ppairs']):
                        add('v%d,v%d:r%d' % (i, j, ti), self.gsub(tpl).replace('$v', nm).replace('$w', nm2).replace('$e', ents[nm]).replace('$f', ents[nm2]))
        for ti, tpl in enumerate(spec.get('inv', [])):
            add('s%d' % ti, self.gsub(tpl))
        for gi, (g, ge, gt) in enumerate(gs):
            if gt.k in ('int', 'ptr'):
                add('g%d==ge' % gi, '%s == %s' % (g, ge))
                if gt.k == 'int': add('g%d>=ge' % gi, '%s >= %s' % (g, ge))
        ci['cands'] = L
        return L

    def gsub(self, tpl):
        """@name -> harness global; !name(args) -> harness function"""
        def rg(mm):
            n = '@' + mm.group(1)
            if n in self.m.funcs: return self.E.use_func(n)
            self.E.use_glob(n); return 'G_' + san(n)
        return re.sub(r'@([A-Za-z_]\w*)', rg, tpl)

    def emit_cut_head(self, h):
        E = self.E; ci = self.cutheads[h]; spec = ci['spec']
        cs = self.candidates(h)
        self.out.append(' L%s_entry: ;' % san(h))
        for nm, t in self.loop_vars(h): self.w('%s = %s;' % (ci['ents'][nm], nm))
        for (g, ge, gt) in ci['gents']: self.w('%s = %s;' % (ge, g))
        for nm, e in ci['aggs']: self.w('%s = %s;' % (e, nm))
        for lab, ex in cs: self.w('__CPROVER_assert(%s, "%s");' % (ex, lab + ':entry'))
        # havoc
        for lv, t in self.frame_locs(h): self.w('%s = %s;' % (lv, E.nd(t)))
        for ins in self.blk[h]:
            if ins.op == 'phi':
                self.w('%s = %s;' % (E.local(ins.dst), self.ndp(ins.ty, E.local(ins.dst), ci, cs)))
        for a in self.cut_allocas(h):
            t = self.alloca_ty[a]
            nm = E.local(a) + '_mem'
            if t.k == 'ptr' or self.wrapped_ptr(t): pn = nm + self.wrapped_ptr(t); self.w('%s = %s;' % (pn, self.ndp(T('ptr'), pn, ci, cs)))
            # proved unchanged: keep the value (same as havoc + assume equal, but pointers inside keep their objects)
            elif nm in ci.get('agglab', {}) and any(lab.endswith(ci['agglab'][nm]) for lab, ex in cs): self.w('%s = %s;' % (nm, dict(ci['aggs'])[nm]))
            else: self.w('%s_mem = %s;' % (E.local(a), E.nd(t)))
        for (g, ge, gt) in ci['gents']: self.w('%s = %s;' % (g, E.nd(gt)))
        for x in spec.get('havoc', []):
            n = '@' + x
            if n in self.m.funcs: self.w('%s();' % E.use_func(n))
            else:
                E.use_glob(n); self.w('G_%s = %s;' % (san(n), E.nd(E.m.globals[n]['ty'])))
        for lab, ex in cs: self.w('__CPROVER_assume(%s);' % ex)
        if not self.E.opts.get('houdini'):
            self.E.covers.add('cover:loop:%s.%d' % (spec.get('tag', self.name[1:]), ci['idx']))
            self.w('__CPROVER_assert(0, "cover:loop:%s.%d");' % (spec.get('tag', self.name[1:]), ci['idx']))

    def ndp(self, t, nm, ci, cs):
        if t.k == 'ptr' and any(lab == ci['objlab'].get(nm) for lab, ex in cs): return '(ptr)((u8*)%s + nd_u64())' % ci['ents'][nm]   # proved to stay in the same object: arbitrary offset
        return self.E.nd(t)

    # ------------------------------------------------------ edges
    def edge(self, to):
        """code for the edge cur -> to (phi copies + goto)"""
        s = ''
        ph = [i for i in self.blk[to] if i.op == 'phi']
        cp = []
        for i in ph:
            for (v, lb) in i.d['inc']:
                if lb == self.cur:
                    cp.append((i, v)); break
        if len(cp) == 1:
            s += '%s = %s; ' % (self.E.local(cp[0][0].dst), self.v(cp[0][0].ty, cp[0][1]))
        elif cp:
            names = []
            for (i, v) in cp:
                t = 'ph%d' % self.tmp; self.tmp += 1
                self.decl.append('%s %s;' % (self.E.ct(i.ty), t))
                s += '%s = %s; ' % (t, self.v(i.ty, v)); names.append(t)
            for (i, v), t in zip(cp, names): s += '%s = %s; ' % (self.E.local(i.dst), t)
        if to in self.cutheads:
            if self.cur in self.cutheads[to]['backs']:
                for lab, ex in self.candidates(to): s += '__CPROVER_assert(%s, "%s"); ' % (ex, lab + ':step')
                return s + '__CPROVER_assume(0);'
            return s + 'goto L%s_entry;' % san(to)
        return s + 'goto L%s;' % san(to)

    def retdummy(self):
        if self.f.rt.k == 'void': return 'return;'
        d = 'rd%d' % self.tmp; self.tmp += 1
        self.decl.append('%s %s;' % (self.E.ct(self.f.rt), d))
        return 'return %s;' % d

    # ------------------------------------------------------ instructions
    def ins(self, i):
        E = self.E; d = i.d; op = i.op
        D = E.local(i.dst) if i.dst else None
        if op == 'phi': return
        if op == 'bin':
            if d['o'] in ('udiv', 'sdiv', 'urem', 'srem'):
                b = d['b']
                if b[0] != 'int' and E.opts.get('divcheck', True):
                    self.w('__CPROVER_assert(%s != 0, "div-by-zero");' % self.v(i.ty, b))
            if d['o'] == 'urem' and E.opts.get('urem_uf') and d['b'][0] != 'int':
                # any function with a result below the divisor (the contract's own remainder is the same function)
                a, b = self.v(i.ty, d['a']), self.v(i.ty, d['b'])
                self.w('%s = __CPROVER_uninterpreted_vc2(9, %s, %s); __CPROVER_assume(%s < %s);' % (D, a, b, D, b))
            else:
                self.w('%s = %s;' % (D, E.bin(d['o'], i.ty, self.v(i.ty, d['a']), self.v(i.ty, d['b']))))
        elif op == 'cast': self.w('%s = %s;' % (D, E.cast(d['o'], d['ft'], self.v(d['ft'], d['a']), i.ty)))
        elif op == 'fneg': self.w('%s = -%s;' % (D, self.v(i.ty, d['a'])))
        elif op == 'copy': self.w('%s = %s;' % (D, self.v(i.ty, d['a'])))
        elif op == 'icmp':
            a, b = self.v(d['ct'], d['a']), self.v(d['ct'], d['b'])
            c = d['c']
            o = {'eq': '==', 'ne': '!=', 'ugt': '>', 'uge': '>=', 'ult': '<', 'ule': '<=', 'sgt': '>', 'sge': '>=', 'slt': '<', 'sle': '<='}[c]
            if d['ct'].k == 'ptr':
                if c not in ('eq', 'ne'): a, b = '(u64)' + a, '(u64)' + b
            elif c[0] == 's':
                s = E.sct(d['ct']); a, b = '(%s)%s' % (s, a), '(%s)%s' % (s, b)
                if d['ct'].a == 1: a, b = '(-(int)%s)' % a, '(-(int)%s)' % b
            self.w('%s = (%s %s %s);' % (D, a, o, b))
        elif op == 'fcmp':
            a, b = self.v(d['ct'], d['a']), self.v(d['ct'], d['b'])
            c = d['c']
            o = {'oeq': '==', 'une': '!=', 'ogt': '>', 'oge': '>=', 'olt': '<', 'ole': '<='}
            if c in o: e = '(%s %s %s)' % (a, o[c], b)
            elif c == 'uno': e = '(%s != %s || %s != %s)' % (a, a, b, b)
            elif c == 'ord': e = '(%s == %s && %s == %s)' % (a, a, b, b)
            elif c == 'ugt': e = '!(%s <= %s)' % (a, b)
            elif c == 'uge': e = '!(%s < %s)' % (a, b)
            elif c == 'ult': e = '!(%s >= %s)' % (a, b)
            elif c == 'ule': e = '!(%s > %s)' % (a, b)
            elif c == 'one': e = '(%s < %s || %s > %s)' % (a, b, a, b)
            elif c == 'ueq': e = '!(%s < %s || %s > %s)' % (a, b, a, b)
            elif c == 'true': e = '1'
            else: e = '0'
            self.w('%s = %s;' % (D, e))
        elif op == 'select': self.w('%s = %s ? %s : %s;' % (D, self.v(INT(1), d['c']), self.v(i.ty, d['a']), self.v(i.ty, d['b'])))
        elif op == 'alloca':
            t = d['at']
            if d['n'] is not None and not (d['n'][1][0] == 'int' and d['n'][1][1] == 1):
                self.w('%s = vc_malloc((u64)%s * %d);' % (D, self.v(*d['n']), max(1, self.m.size(t))))
            else:
                if self.m.size(t) == 0: self.decl.append('u8 %s_mem;' % D)
                else: self.decl.append('%s %s_mem;' % (E.ct(t), D))
                self.w('%s = (ptr)&%s_mem;' % (D, D))
        elif op == 'load':
            if self.m.size(i.ty) == 0: return
            a = self.v(PTR, d['a']); sp = self.sparse(d['a'])
            if sp and i.ty.k == 'int': self.w('if (%s) %s = (%s)%s((ptr)%s, %d); else %s = *(%s*)%s;' % (self.spin(a, sp), D, E.ct(i.ty), sp[1], a, self.m.size(i.ty), D, E.ct(i.ty), a))
            else:
                if sp: self.w('__CPROVER_assert(!%s, "tracked memory is read as integers");' % self.spin(a, sp))
                self.w('%s = *(%s*)%s;' % (D, E.ct(i.ty), a))
            if i.ty.k == 'int' and i.ty.a == 1: self.w('%s &= 1;' % D)
        elif op == 'store':
            if self.m.size(i.ty) == 0: return
            a = self.v(PTR, d['a']); sp = self.sparse(d['a'])
            if sp and i.ty.k == 'int': self.w('if (%s) %s((ptr)%s, %d, %s); else *(%s*)%s = %s;' % (self.spin(a, sp), sp[2], a, self.m.size(i.ty), self.v(i.ty, d['v']), E.ct(i.ty), a, self.v(i.ty, d['v'])))
            else:
                if sp: self.w('__CPROVER_assert(!%s, "tracked memory is written as integers");' % self.spin(a, sp))
                self.w('*(%s*)%s = %s;' % (E.ct(i.ty), a, self.v(i.ty, d['v'])))
        elif op == 'gep': self.w('%s = %s;' % (D, E.gep(d['bt'], self.v(PTR, d['b']), d['idx'])))
        elif op == 'br': self.w(self.edge(d['to']))
        elif op == 'cbr':
            self.w('if (%s) { %s } else { %s }' % (self.v(INT(1), d['c']), self.edge(d['a']), self.edge(d['b'])))
        elif op == 'switch':
            v = self.v(i.ty, d['v'])
            for cv, lb in d['cases']:
                self.w('if (%s == %s) { %s }' % (v, self.v(i.ty, cv), self.edge(lb)))
            self.w(self.edge(d['dflt']))
        elif op == 'ret': self.w('return%s;' % ('' if i.ty.k == 'void' else ' ' + self.v(i.ty, d['v'])))
        elif op == 'unreachable': self.w('__CPROVER_assume(0);')
        elif op == 'resume':
            v = self.v(i.ty, d['v'])
            self.w('vc_exc = 1; vc_exc_obj = %s.f0; %s' % (v, self.retdummy()))
        elif op == 'landingpad':
            self.w('vc_exc = 0; %s.f0 = vc_exc_obj; %s.f1 = 0;' % (D, D))
            e = ''
            ctype = 'vc_exc_typeof(vc_exc_obj)'
            first = True
            has_all = False
            for c in d['catches']:
                if c[0] == 'null':
                    self.w('%sif (1) %s.f1 = %d;' % ('' if first else 'else ', D, 0x7ffffff)); has_all = True
                else:
                    tid = E.tid(c[1][1:])
                    self.w('%sif (vc_derives(%s, %d)) %s.f1 = %d;' % ('' if first else 'else ', ctype, tid, D, tid))
                first = False
            if not d['cleanup'] and not has_all:
                # no clause matches: exception propagates
                self.w('if (%s.f1 == 0) { vc_exc = 1; %s }' % (D, self.retdummy()))
        elif op == 'extractvalue':
            e = self.v(d['at'], d['a'])
            self.w('%s = %s%s;' % (D, e, self.path(d['at'], d['idx'])))
        elif op == 'insertvalue':
            a = d['a']
            if a[0] != 'undef': self.w('%s = %s;' % (D, self.v(i.ty, a)))
            t = i.ty
            for x in d['idx']:
                r = self.m.resolve(t); t = r.b if r.k == 'arr' else r.a[x]
            self.w('%s%s = %s;' % (D, self.path(i.ty, d['idx']), self.v(t, d['b'])))
        elif op == 'atomicrmw':
            p = '*(%s*)%s' % (E.ct(i.ty), self.v(PTR, d['a'])); v = self.v(i.ty, d['v'])
            self.w('%s = %s;' % (D, p))
            o = d['o']
            ex = {'xchg': v, 'add': '%s + %s' % (D, v), 'sub': '%s - %s' % (D, v), 'and': '%s & %s' % (D, v), 'or': '%s | %s' % (D, v), 'xor': '%s ^ %s' % (D, v)}[o]
            self.w('%s = (%s)(%s);' % (p, E.ct(i.ty), ex))
        elif op == 'cmpxchg':
            p = '*(%s*)%s' % (E.ct(d['vt']), self.v(PTR, d['a']))
            self.w('%s.f0 = %s; %s.f1 = (%s == %s); if (%s.f1) %s = %s;' % (D, p, D, p, self.v(d['vt'], d['c']), D, p, self.v(d['vt'], d['n'])))
        elif op in ('call', 'invoke'): self.call(i, D)
        else: raise Exception('ins ' + op)

    def path(self, t, idx):
        s = ''
        for x in idx:
            r = self.m.resolve(t)
            if r.k in ('arr', 'vec'): s += '.a[%d]' % x; t = r.b
            else: s += '.f%d' % x; t = r.a[x]
        return s

    def base_type(self, v):
        """static type of the object v points to, when the IR shows it"""
        if v[0] == 'l' and v[1] in self.alloca_ty: return self.alloca_ty[v[1]]
        if v[0] == 'l' and v[1] in self.gep_ty: return self.gep_ty[v[1]]
        if v[0] == 'g' and v[1] in self.m.globals: return self.m.globals[v[1]]['ty']
        if v[0] == 'l':
            for (t, pn, dd) in self.f.params:
                if pn == v[1]:
                    for k in ('byval', 'sret'):
                        if k in dd: return dd[k]
        return None

    # sparse memory: accesses to one harness object go through harness functions (load, store, move),
    # which track any finite number of its cells and treat the others as arbitrary
    def sparse(self, v):
        o = self.E.opts.get('sparse')
        if not o or re.match(o.get('skip', r'h_.*|inv_.*|vcx_.*|_ZL.*') + '$', self.name[1:]): return None
        if v is not None:
            x = v
            while x[0] == 'cgep': x = x[2]
            if x[0] == 'g' and x[1] != '@' + o['obj']: return None
            if x[0] == 'l' and x[1] in self.alloca_ty: return None
        self.E.use_glob('@' + o['obj'])
        return ('G_' + san('@' + o['obj']), self.E.use_func('@' + o['load']), self.E.use_func('@' + o['store']), self.E.use_func('@' + o['move']))
    def spin(self, a, sp): return '__CPROVER_same_object(%s, &%s)' % (a, sp[0])

    def memcpy(self, dst, src, nv, dv, sv):
        sp = self.sparse(None)
        if sp:
            a, b = self.sparse(dv), self.sparse(sv)
            if nv[0] == 'int' and nv[1] % 8 == 0 and nv[1] <= 64:
                if a or b:
                    c = '||'.join(self.spin(x, sp) for x, y in ((dst, a), (src, b)) if y)
                    self.w('if (%s) {' % c)
                    for o in range(0, nv[1], 8):
                        self.w('{ ptr p_ = (ptr)((u8*)%s + %d), q_ = (ptr)((u8*)%s + %d);' % (src, o, dst, o))
                        self.w('u64 x_ = %s;' % (('%s ? %s(p_, 8) : *(u64*)p_' % (self.spin('p_', sp), sp[1])) if b else '*(u64*)p_'))
                        self.w('if (%s) %s(q_, 8, x_); else *(u64*)q_ = x_; }' % (self.spin('q_', sp) if a else '0', sp[2]))
                    self.w('} else {')
                    self.memcpy0(dst, src, nv, dv, sv)
                    self.w('}'); return
            elif a and b:
                self.w('if (%s && %s) %s(%s, %s, %s); else {' % (self.spin(dst, sp), self.spin(src, sp), sp[3], dst, src, self.v(INT(64), nv)))
                self.w('__CPROVER_assert(!%s && !%s, "tracked memory is not mixed");' % (self.spin(dst, sp), self.spin(src, sp)))
                self.memcpy0(dst, src, nv, dv, sv)
                self.w('}'); return
            elif a or b: self.w('__CPROVER_assert(!%s, "tracked memory is not mixed");' % self.spin(dst if a else src, sp))
        self.memcpy0(dst, src, nv, dv, sv)

    def memcpy0(self, dst, src, nv, dv, sv):
        E = self.E
        if nv[0] == 'int':
            n = nv[1]
            if n == 0: return
            for t in (self.base_type(dv), self.base_type(sv)):
                if t is not None and self.m.size(t) == n:
                    self.w('*(%s*)%s = *(%s*)%s;' % (E.ct(t), dst, E.ct(t), src)); return
            if n <= 512 and n % 8 == 0:
                t = 'struct PW%d' % (n // 8)
                if t not in E.ctn.values():
                    E.ctn[t] = t; E.ctdefs.append('%s { ptr w[%d]; };' % (t, n // 8))
                self.w('*(%s*)%s = *(%s*)%s;' % (t, dst, t, src)); return
            if n in (1, 2, 4):
                u = {1: 'u8', 2: 'u16', 4: 'u32'}[n]
                self.w('*(%s*)%s = *(%s*)%s;' % (u, dst, u, src)); return
            if n <= 64:
                t = 'struct BW%d' % n
                if t not in E.ctn.values():
                    E.ctn[t] = t; E.ctdefs.append('%s { u8 w[%d]; };' % (t, n))
                self.w('*(%s*)%s = *(%s*)%s;' % (t, dst, t, src)); return
            self.w('vc_memcpy(%s, %s, %dULL);' % (dst, src, n)); return
        self.w('vc_memcpy(%s, %s, %s);' % (dst, src, self.v(INT(64), nv)))

    def const_string(self, v):
        while v[0] == 'cgep': v = v[2]
        if v[0] == 'g':
            g = self.m.globals.get(v[1])
            if g and g['init'] and g['init'][0] == 'str':
                s = g['init'][1]
                s = re.sub(r'\\00$', '', s)
                return re.sub(r'\\([0-9A-Fa-f]{2})', lambda mm: chr(int(mm.group(1), 16)), s)
        return None

    def call(self, i, D):
        E = self.E; d = i.d
        def fin(throws):
            if i.op == 'invoke':
                if throws: self.w('if (vc_exc) { %s } else { %s }' % (self.edge(d['unw']), self.edge(d['to'])))
                else: self.w(self.edge(d['to']))
            elif throws:
                self.w('if (vc_exc) { %s }' % self.retdummy())
        if d['callee'][0] == 'asm':
            if D: self.w('%s = %s;' % (D, E.nd(i.ty)))
            return fin(False)
        cn = E.callee_name(d['callee'])
        if cn is None:
            av = [self.v(t, v) for (t, v, dd) in d['args']]
            ps = ', '.join(E.ct(t) for (t, v, dd) in d['args']) or 'void'
            fp = self.v(PTR, d['callee'])
            self.w('%s((%s(*)(%s))%s)(%s);' % ((D + ' = ') if D and i.ty.k != 'void' else '', E.ct(i.ty), ps, fp, ', '.join(av)))
            return fin(True)
        n = cn[1:]
        A = [(t, v) for (t, v, dd) in d['args']]
        if n.startswith('llvm.'): self.intrin(i, D, n, A); return fin(False)
        if E.is_extern(cn):
            if n in VCP: self.vcp(i, D, n, A); return fin(False)
            if n == '_ZNKSt9type_infoeqERKS_':
                self.w('%s = (%s == %s);' % (D, self.v(*A[0]), self.v(*A[1]))); return fin(False)
            if n in ALLOC:
                self.w('%s = vc_malloc(%s);' % (D, self.v(*A[0]))); return fin(False)
            if n in FREE: return fin(False)
            if n in ABORT:
                if n == '__cxa_pure_virtual' or True:
                    lab = 'abort'
                    if n == '__assert_fail':
                        lab = 'assert: %s' % (self.const_string(A[0][1]) or '?')
                    self.w('__CPROVER_assert(%s, "abort-reached: %s"); __CPROVER_assume(0);' % ('0' if not E.opts.get('abort_ok') else '1', re.sub(r'["\\]', "'", lab)))
                return
            if n in THROWERS:
                self.w('vc_throw(vc_exc_alloc(16), %d);' % E.tid(THROWERS[n])); return fin(True)
            if n == '__cxa_allocate_exception':
                self.w('%s = vc_exc_alloc(%s);' % (D, self.v(*A[0]))); return fin(False)
            if n == '__cxa_free_exception': return fin(False)
            if n == '__cxa_throw':
                ti = A[1][1]
                self.w('vc_throw(%s, %d);' % (self.v(*A[0]), E.tid(ti[1][1:]))); return fin(True)
            if n == '__cxa_rethrow':
                self.w('vc_rethrow();'); return fin(True)
            if n == '__cxa_begin_catch':
                self.w('%svc_begin_catch(%s);' % ((D + ' = ') if D else '', self.v(*A[0]))); return fin(False)
            if n == '__cxa_end_catch':
                self.w('vc_end_catch();'); return fin(False)
            if n == '__cxa_get_exception_ptr':
                self.w('%s = %s;' % (D, self.v(*A[0]))); return fin(False)
            if n == '__cxa_guard_acquire':
                self.w('%s = (*(u8*)%s == 0);' % (D, self.v(*A[0]))); return fin(False)
            if n == '__cxa_guard_release':
                self.w('*(u8*)%s = 1;' % self.v(*A[0])); return fin(False)
            if n in ('__cxa_guard_abort',): return fin(False)
            if n == '__cxa_atexit':
                if D: self.w('%s = 0;' % D)
                return fin(False)
            if n in ('memcpy', 'memmove'):
                self.memcpy(self.v(*A[0]), self.v(*A[1]), A[2][1], A[0][1], A[1][1])
                if D: self.w('%s = %s;' % (D, self.v(*A[0])))
                return fin(False)
            if n == 'memset':
                self.w('vc_memset(%s, %s, %s);' % (self.v(*A[0]), self.v(*A[1]), self.v(*A[2])))
                if D: self.w('%s = %s;' % (D, self.v(*A[0])))
                return fin(False)
            if n in ('memcmp', 'bcmp'):
                self.w('%s = vc_memcmp(%s, %s, %s);' % (D, self.v(*A[0]), self.v(*A[1]), self.v(*A[2]))); return fin(False)
            if n == '__errno_location':
                self.w('%s = (ptr)&vc_errno;' % D); return fin(False)
            # redirect variadic/system calls to harness-defined fixed-arity functions
            alt = '@vcx_' + n
            if alt in self.m.funcs and self.m.funcs[alt].body is not None:
                cn = alt; n = alt[1:]
            else:
                E.externs.setdefault(cn, 'fn')
                if n in PTHREAD0:   # uncontended, correctly used mutexes: success
                    if D: self.w('%s = 0;' % D)
                    return fin(False)
                if D and i.ty.k != 'void':
                    self.w('%s = %s;' % (D, E.extern_ret(i.ty, cn, [self.v(*x) for x in A], [x[0] for x in A])))
                return fin(False)
        fn = E.use_func(cn)
        f = self.m.funcs[cn]
        av = [self.v(t, v) for (t, v) in A]
        # arity fix for redirects
        k = len(f.params)
        av = av[:k] + [E.nd(t) for (t, _, _) in f.params[len(av):]]
        # byval: callee gets a copy
        for j, (t, v, dd) in enumerate(d['args'][:k]):
            if 'byval' in dd:
                bt = dd['byval']
                nm = 'bv%d' % self.tmp; self.tmp += 1
                self.decl.append('%s %s;' % (E.ct(bt), nm))
                self.w('%s = *(%s*)%s;' % (nm, E.ct(bt), av[j])); av[j] = '(ptr)&' + nm
        self.w('%s%s(%s);' % ((D + ' = ') if D and i.ty.k != 'void' else '', fn, ', '.join(av)))
        fin(cn in E.maythrow and not (i.op == 'call' and E.nounwind_site(i)))

    def vcp(self, i, D, n, A):
        E = self.E
        if n == 'vc_assert':
            lab = self.const_string(A[1][1]) or '?'
            E.labels[lab] = E.labels.get(lab, 0) + 1
            self.w('__CPROVER_assert(%s, "ob:%s");' % (self.v(*A[0]), lab))
        elif n == 'vc_assume': self.w('__CPROVER_assume(%s);' % self.v(*A[0]))
        elif n == 'vc_cover':
            lab = self.const_string(A[0][1]) or '?'
            E.covers.add('cover:' + lab)
            self.w('__CPROVER_assert(0, "cover:%s");' % lab)
        elif n == 'vc_nd_u64':
            self.w('vc_nd = nd_u64(); %s = vc_nd;' % D)
        elif n == 'vc_nd_double':
            self.w('vc_ndd = nd_double(); %s = vc_ndd;' % D)
        elif n == 'vc_unreachable': self.w('__CPROVER_assume(0);')
        elif n == 'vc_alloc': self.w('%s = vc_malloc(%s);' % (D, self.v(*A[0])))
        elif n == 'vc_same_object': self.w('%s = __CPROVER_same_object(%s, %s);' % (D, self.v(*A[0]), self.v(*A[1])))
        elif n == 'vc_pointer_offset': self.w('%s = __CPROVER_POINTER_OFFSET(%s);' % (D, self.v(*A[0])))
        elif n == 'vc_object_size': self.w('%s = __CPROVER_OBJECT_SIZE(%s);' % (D, self.v(*A[0])))
        elif n == 'vc_readable': self.w('%s = __CPROVER_r_ok(%s, %s);' % (D, self.v(*A[0]), self.v(*A[1])))
        elif n == 'vc_uf1': self.w('%s = __CPROVER_uninterpreted_vc1(%s, %s);' % (D, self.v(*A[0]), self.v(*A[1])))
        elif n == 'vc_uf2': self.w('%s = __CPROVER_uninterpreted_vc2(%s, %s, %s);' % (D, self.v(*A[0]), self.v(*A[1]), self.v(*A[2])))
        elif n == 'vc_havoc': self.w('__CPROVER_havoc_object(%s);' % self.v(*A[0]))
        elif n == 'vc_symbolic': self.w('%s = 1;' % D)
        elif n == 'vc_note_trusted': pass

    def intrin(self, i, D, n, A):
        E = self.E
        b = n[5:]
        def a(k): return self.v(*A[k])
        if b.startswith(('dbg.', 'lifetime.', 'invariant.', 'experimental.noalias', 'stackrestore', 'prefetch', 'donothing', 'assume', 'va_start', 'va_end')): return
        if b.startswith('stacksave'): self.w('%s = (ptr)0;' % D); return
        if b.startswith(('memcpy', 'memmove')): self.memcpy(a(0), a(1), A[2][1], A[0][1], A[1][1]); return
        if b.startswith('memset'):
            nv = A[2][1]; vv = A[1][1]
            t = self.base_type(A[0][1])
            if nv[0] == 'int' and vv == ('int', 0) and t is not None and self.m.size(t) == nv[1]:
                z = 'z%d' % self.tmp; self.tmp += 1
                self.w('{ %s %s = {0}; *(%s*)%s = %s; }' % (E.ct(t), z, E.ct(t), a(0), z) if self.m.resolve(t).k in ('struct', 'arr') else '*(%s*)%s = 0;' % (E.ct(t), a(0)))
                return
            if nv[0] == 'int' and vv == ('int', 0) and nv[1] <= 512 and nv[1] % 8 == 0:
                c = nv[1] // 8
                t = 'struct PW%d' % c
                if t not in E.ctn.values():
                    E.ctn[t] = t; E.ctdefs.append('%s { ptr w[%d]; };' % (t, c))
                self.w('{ %s z = {0}; *(%s*)%s = z; }' % (t, t, a(0))); return
            self.w('vc_memset(%s, %s, %s);' % (a(0), a(1), a(2))); return
        if b.startswith('expect'): self.w('%s = %s;' % (D, a(0))); return
        if b.startswith('eh.typeid.for'):
            v = A[0][1]
            self.w('%s = %d;' % (D, E.tid(v[1][1:]) if v[0] == 'g' else 0x7ffffff)); return
        if b.startswith('threadlocal.address'): self.w('%s = %s;' % (D, a(0))); return
        if b == 'trap' or b.startswith('ubsantrap'):
            self.w('__CPROVER_assert(0, "abort-reached: trap"); __CPROVER_assume(0);'); return
        mm = re.match(r'([us])(add|sub|mul)\.with\.overflow\.i(\d+)', b)
        if mm:
            s, o, w = mm.groups(); t = INT(int(w)); c = E.ct(t)
            op = {'add': '+', 'sub': '-', 'mul': '*'}[o]
            if s == 'u':
                self.w('%s.f0 = (%s)(%s %s %s);' % (D, c, a(0), op, a(1)))
                ov = {'add': '%s.f0 < %s' % (D, a(0)), 'sub': '%s < %s' % (a(0), a(1)), 'mul': '__CPROVER_overflow_mult(%s, %s)' % (a(0), a(1))}[o]
                self.w('%s.f1 = %s;' % (D, ov))
            else:
                sc = E.sct(t)
                self.w('%s.f0 = (%s)(%s %s %s);' % (D, c, a(0), op, a(1)))
                fn = {'add': '__CPROVER_overflow_plus', 'sub': '__CPROVER_overflow_minus', 'mul': '__CPROVER_overflow_mult'}[o]
                self.w('%s.f1 = %s((%s)%s, (%s)%s);' % (D, fn, sc, a(0), sc, a(1)))
            return
        mm = re.match(r'([us])(max|min)\.i(\d+)', b)
        if mm:
            s, o, w = mm.groups(); t = INT(int(w))
            x, y = a(0), a(1)
            c = '%s %s %s' % ((x, '>' if o == 'max' else '<', y) if s == 'u' else ('(%s)%s' % (E.sct(t), x), '>' if o == 'max' else '<', '(%s)%s' % (E.sct(t), y)))
            self.w('%s = (%s) ? %s : %s;' % (D, c, x, y)); return
        if b.startswith('abs.'):
            s = E.sct(i.ty); self.w('%s = ((%s)%s < 0) ? (%s)(-%s) : %s;' % (D, s, a(0), E.ct(i.ty), a(0), a(0))); return
        mm = re.match(r'(ctpop|ctlz|cttz|bswap|fshl|fshr)\.i(\d+)', b)
        if mm:
            o, w = mm.group(1), int(mm.group(2))
            if o == 'bswap': self.w('%s = vc_bswap%d(%s);' % (D, w, a(0)))
            elif o in ('fshl', 'fshr'):
                c = E.ct(i.ty)
                x, y, z = a(0), a(1), '(%s %% %d)' % (a(2), w)
                if o == 'fshl': self.w('%s = %s ? (%s)((%s << %s) | (%s >> (%d - %s))) : %s;' % (D, z, c, x, z, y, w, z, x))
                else: self.w('%s = %s ? (%s)((%s << (%d - %s)) | (%s >> %s)) : %s;' % (D, z, c, x, w, z, y, z, y))
            else: self.w('%s = vc_%s%d(%s);' % (D, o, w, a(0)))
            return
        mm = re.match(r'(floor|ceil|fabs|trunc|rint|nearbyint|round|sqrt|maxnum|minnum|fmuladd|copysign|pow|log|exp)\.f(32|64)', b)
        if mm:
            o = mm.group(1)
            if o == 'fabs': self.w('%s = (%s < 0) ? -%s : %s;' % (D, a(0), a(0), a(0)))
            elif o == 'maxnum': self.w('%s = (%s > %s) ? %s : %s;' % (D, a(0), a(1), a(0), a(1)))
            elif o == 'minnum': self.w('%s = (%s < %s) ? %s : %s;' % (D, a(0), a(1), a(0), a(1)))
            elif o == 'fmuladd': self.w('%s = (%s * %s) + %s;' % (D, a(0), a(1), a(2)))
            elif o in ('floor', 'ceil', 'trunc'): self.w('%s = vc_%s(%s);' % (D, o, a(0)))
            else: self.w('%s = %s;' % (D, E.nd(i.ty)))
            return
        if b.startswith('is.constant'): self.w('%s = 0;' % D); return
        if b.startswith('objectsize'): self.w('%s = ~0ULL;' % D); return
        raise Exception('intrinsic ' + n)

RUNTIME_HEAD = r'''
typedef unsigned char u8; typedef unsigned short u16; typedef unsigned int u32; typedef unsigned long u64; typedef unsigned __int128 u128;
typedef unsigned char u1; typedef signed char s1;
typedef signed char s8; typedef short s16; typedef int s32; typedef long s64; typedef __int128 s128; typedef void *ptr;
u8 nondet_u8(void); u16 nondet_u16(void); u32 nondet_u32(void); u64 nondet_u64(void); u128 nondet_u128(void); ptr nondet_ptr(void); float nondet_float(void); double nondet_double(void); _Bool nondet_bool(void);
static inline u8 nd_u8(void) { return nondet_u8(); }
static inline u1 nd_u1(void) { return nondet_bool(); }
static inline u16 nd_u16(void) { return nondet_u16(); }
static inline u32 nd_u32(void) { return nondet_u32(); }
static inline u64 nd_u64(void) { return nondet_u64(); }
static inline u128 nd_u128(void) { return nondet_u128(); }
static inline ptr nd_ptr(void) { return nondet_ptr(); }
static inline float nd_float(void) { return nondet_float(); }
static inline double nd_double(void) { return nondet_double(); }
u64 __CPROVER_uninterpreted_vc1(u32, u64); u64 __CPROVER_uninterpreted_vc2(u32, u64, u64);
u64 vc_nd; double vc_ndd;
_Bool vc_exc; ptr vc_exc_obj; ptr vc_caught[4]; u32 vc_ncaught; u32 vc_errno;
static inline double bc_u64_double(u64 x) { union { u64 a; double b; } u; u.a = x; return u.b; }
static inline u64 bc_double_u64(double x) { union { u64 a; double b; } u; u.b = x; return u.a; }
static inline float bc_u32_float(u32 x) { union { u32 a; float b; } u; u.a = x; return u.b; }
static inline u32 bc_float_u32(float x) { union { u32 a; float b; } u; u.b = x; return u.a; }
static inline double vc_floor(double x) { return __builtin_floor(x); }
static inline double vc_ceil(double x) { return __builtin_ceil(x); }
static inline double vc_trunc(double x) { return __builtin_trunc(x); }
'''
RUNTIME_TAIL = r'''
static ptr vc_malloc(u64 n) { return __CPROVER_allocate(n, 0); }
static u8 vc_fake_what[8] = "what";
static ptr vc_fake_virtual(ptr self) { return (ptr)vc_fake_what; }
static ptr vc_fake_vtable[8];
struct vc_exc_hdr { u64 type; u64 pad; ptr vptr; u64 body[10]; };
static void vc_init_exc(void) { vc_fake_vtable[0] = (ptr)&vc_fake_virtual; vc_fake_vtable[1] = (ptr)&vc_fake_virtual; vc_fake_vtable[2] = (ptr)&vc_fake_virtual; vc_fake_vtable[3] = (ptr)&vc_fake_virtual; vc_fake_vtable[4] = (ptr)&vc_fake_virtual; vc_fake_vtable[5] = (ptr)&vc_fake_virtual; vc_fake_vtable[6] = (ptr)&vc_fake_virtual; vc_fake_vtable[7] = (ptr)&vc_fake_virtual; }
static ptr vc_exc_alloc(u64 n) { struct vc_exc_hdr *h = __CPROVER_allocate(sizeof(struct vc_exc_hdr), 0); h->vptr = (ptr)vc_fake_vtable; return (ptr)&h->vptr; }
static u32 vc_exc_typeof(ptr o) { return (u32)((struct vc_exc_hdr *)((u8*)o - 16))->type; }
static void vc_throw(ptr o, u32 t) { ((struct vc_exc_hdr *)((u8*)o - 16))->type = t; vc_exc_obj = o; vc_exc = 1; }
static ptr vc_begin_catch(ptr o) { __CPROVER_assert(vc_ncaught < 4, "model: nested catch depth"); vc_caught[vc_ncaught++] = o; return o; }
static void vc_end_catch(void) { if (vc_ncaught) vc_ncaught--; }
static void vc_rethrow(void) { __CPROVER_assert(vc_ncaught > 0, "model: rethrow outside catch"); vc_exc_obj = vc_caught[vc_ncaught-1]; vc_exc = 1; }
static void vc_memcpy(ptr d, ptr s, u64 n) { if (n) { u8 t[n]; __CPROVER_array_copy(t, (u8*)s); __CPROVER_array_replace((u8*)d, t); } }
static void vc_memset(ptr d, u8 c, u64 n) { if (n) { u8 t[n]; __CPROVER_array_set(t, c); __CPROVER_array_replace((u8*)d, t); } }
static u32 vc_memcmp(ptr a, ptr b, u64 n) { for (u64 i = 0; i < n; i++) { u8 x = ((u8*)a)[i], y = ((u8*)b)[i]; if (x != y) return x < y ? -1 : 1; } return 0; }
static u16 vc_bswap16(u16 x) { return (u16)((x >> 8) | (x << 8)); }
static u32 vc_bswap32(u32 x) { return ((u32)vc_bswap16((u16)x) << 16) | vc_bswap16((u16)(x >> 16)); }
static u64 vc_bswap64(u64 x) { return ((u64)vc_bswap32((u32)x) << 32) | vc_bswap32((u32)(x >> 32)); }
static u64 vc_ctpop64(u64 x) { return __builtin_popcountll(x); }
static u32 vc_ctpop32(u32 x) { return __builtin_popcount(x); }
static u64 vc_ctlz64(u64 x) { u64 n = 0; for (int i = 63; i >= 0; i--) { if ((x >> i) & 1) break; n++; } return n; }
static u64 vc_cttz64(u64 x) { u64 n = 0; for (int i = 0; i < 64; i++) { if ((x >> i) & 1) break; n++; } return n; }
static u32 vc_ctlz32(u32 x) { u32 n = 0; for (int i = 31; i >= 0; i--) { if ((x >> i) & 1) break; n++; } return n; }
static u32 vc_cttz32(u32 x) { u32 n = 0; for (int i = 0; i < 32; i++) { if ((x >> i) & 1) break; n++; } return n; }
'''
