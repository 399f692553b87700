"""Frame analysis for cut loops: every location the loop body may write must be
havocked at the cut.  Roots: ('p',i,deep) parameter, ('g',name,deep) global,
('l',alloca,deep) local, ('f',) fresh heap, ('u',) unknown."""
import re

class Frame:
    def __init__(self, E):
        self.E, self.m = E, E.m
        self.sum = {}
        self.busy = set()
        self.escs = {}; self.ebusy = set()

    def call_escapes(self, ins):
        """(argument value, target argument value or None) pairs: pointers a call keeps"""
        cn = self.E.callee_name(ins.d['callee'])
        if cn is None or cn.startswith('@llvm.'): return []
        args = [x for (t, x, d) in ins.d['args']]
        r = []
        for i, j in self.escapes(cn):
            if i < len(args) and args[i]: r.append((args[i], args[j] if j is not None and j < len(args) else None))
        return r

    def escapes(self, cn):
        """{(i, j)}: the function stores its pointer parameter i in the object of parameter j (None: elsewhere)"""
        if cn in self.escs: return self.escs[cn]
        if cn in self.ebusy: return frozenset()
        f = self.m.funcs.get(cn)
        if f is None or f.body is None or self.E.is_extern(cn): return frozenset()
        self.ebusy.add(cn)
        self.E.parse_body(f)
        roots = self.roots_fn(f)
        r = set()
        def note(v, a):
            src = [x for x in roots(v) if x[0] == 'p']
            if not src: return
            for t in (roots(a) if a is not None else [('u',)]):
                for x in src:
                    if t[0] == 'p': 
                        if t[1] != x[1]: r.add((x[1], t[1]))
                    elif t[0] in ('g', 'u'): r.add((x[1], None))
        for lb, il in f.blocks:
            for ins in il:
                if ins.op == 'store' and ins.ty.k == 'ptr' and ins.d['v'][0] == 'l': note(ins.d['v'], ins.d['a'])
                elif ins.op in ('call', 'invoke'):
                    for v, a in self.call_escapes(ins): note(v, a)
        self.ebusy.discard(cn)
        self.escs[cn] = frozenset(r)
        return self.escs[cn]

    def roots_fn(self, f):
        """returns function value -> set of roots, for one IR function"""
        if hasattr(f, '_roots'): return f._roots
        defs = {}; stored = {}; called = set()
        params = {pn: i for i, (t, pn, d) in enumerate(f.params)}
        for lb, il in f.blocks:
            for ins in il:
                if ins.dst: defs[ins.dst] = ins
        memo = {}
        E = self.E
        def roots(v, depth=0):
            if v is None: return frozenset()
            if v[0] == 'g':
                return frozenset([('g', v[1], False)])
            if v[0] == 'cgep': return roots(v[2], depth)
            if v[0] == 'ccast': return roots(v[3], depth)
            if v[0] != 'l': return frozenset()
            n = v[1]
            if n in memo: return memo[n]
            memo[n] = frozenset()     # cycles
            if n in params: r = frozenset([('p', params[n], False)])
            elif n in defs:
                i = defs[n]; r = frozenset()
                if i.op == 'alloca': r = frozenset([('l', n, False)])
                elif i.op == 'gep': r = roots(i.d['b'])
                elif i.op in ('cast', 'copy'): r = roots(i.d['a'])
                elif i.op == 'select': r = roots(i.d['a']) | roots(i.d['b'])
                elif i.op == 'phi':
                    for x, _ in i.d['inc']: r |= roots(x)
                elif i.op == 'load':
                    if i.ty.k == 'ptr':
                        for a in roots(i.d['a']):
                            if a[0] == 'l' and not a[2]:
                                st = stored_in(a[1])
                                r |= st | frozenset([('l', a[1], True)])
                            elif len(a) == 3: r |= frozenset([(a[0], a[1], True)])
                            else: r |= frozenset([a])
                elif i.op in ('call', 'invoke'):
                    cn = E.callee_name(i.d['callee'])
                    nm = (cn or '@?')[1:]
                    from emit import ALLOC
                    if nm in ALLOC or nm.startswith('__cxa_'): r = frozenset([('f',)])
                    elif i.ty.k == 'ptr':
                        for (t, x, d) in i.d['args']:
                            if x and t.k == 'ptr':
                                for a in roots(x):
                                    r |= frozenset([a, (a[0], a[1], True)] if len(a) == 3 else [a])
                                    if a[0] == 'l' and not a[2]: r |= stored_in(a[1])
                elif i.op == 'extractvalue': r = roots(i.d['a'])
                elif i.op == 'insertvalue': r = roots(i.d['a']) | roots(i.d['b'])
                elif i.op == 'landingpad': r = frozenset([('f',)])
            else: r = frozenset()
            memo[n] = r
            return r
        sm = {}
        def stored_in(al):
            if al in sm: return sm[al]
            sm[al] = frozenset()
            r = frozenset()
            for lb, il in f.blocks:
                for ins in il:
                    if ins.op == 'store' and ins.d['v'][0] in ('l', 'g') and ins.ty.k == 'ptr':
                        if any(a[0] == 'l' and a[1] == al for a in base(ins.d['a'])): r |= roots(ins.d['v'])
                    elif ins.op in ('call', 'invoke'):
                        for v, a in self.call_escapes(ins):
                            if a is not None and any(x[0] == 'l' and x[1] == al for x in roots(a)): r |= roots(v)
            sm[al] = r
            return r
        def base(v):
            # alloca bases without touching the memo of loads
            if v[0] == 'l' and v[1] in defs:
                i = defs[v[1]]
                if i.op == 'alloca': return {('l', v[1])}
                if i.op == 'gep': return base(i.d['b'])
                if i.op in ('cast', 'copy'): return base(i.d['a'])
            return set()
        f._roots = roots; f._defs = defs; f._stored = stored_in
        return roots

    def writes(self, il_list, f, name):
        """roots written by a list of instruction lists of f"""
        roots = self.roots_fn(f)
        W = {}
        def add(rs, why):
            for r in rs: W.setdefault(r, why)
        from emit import VCP, EXC, ALLOC, FREE, THROWERS
        for il in il_list:
            for ins in il:
                if ins.op in ('store', 'atomicrmw', 'cmpxchg'): add(roots(ins.d['a']), 'store')
                elif ins.op in ('call', 'invoke'):
                    cn = self.E.callee_name(ins.d['callee'])
                    if cn is None:
                        continue        # indirect: virtual destructors and deleters, see DESIGN
                    n = cn[1:]; args = [x for (t, x, d) in ins.d['args']]
                    if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove') or n.startswith('llvm.memset') or n in ('memcpy', 'memmove', 'memset'):
                        add(roots(args[0]), n); continue
                    if n.startswith('llvm.') or n in VCP or n in EXC or n in ALLOC or n in FREE or n in THROWERS: continue
                    if self.E.is_extern(cn):
                        alt = '@vcx_' + n
                        if alt in self.m.funcs and self.m.funcs[alt].body is not None: cn = alt
                        else: continue   # unmodelled externals have no effect in this extraction
                    for r in self.summary(cn):
                        if r[0] == 'g': add([r], n)
                        elif r[0] == 'p' and r[1] < len(args) and args[r[1]]:
                            for a in roots(args[r[1]]):
                                if len(a) < 3: add([a], n)
                                else:
                                    if r[2]:
                                        add([(a[0], a[1], True)], n)
                                        if a[0] == 'l': add([y for b in f._stored(a[1]) for y in ([b, (b[0], b[1], True)] if len(b) == 3 else [b])], n)
                                    else: add([a], n)
        return W

    def summary(self, cn):
        if cn in self.sum: return self.sum[cn]
        if cn in self.busy: return frozenset()
        f = self.m.funcs.get(cn)
        if f is None or f.body is None: return frozenset()
        self.busy.add(cn)
        self.E.parse_body(f)
        W = self.writes([il for _, il in f.blocks], f, cn)
        r = frozenset(x for x in W if x[0] in ('p', 'g', 'u'))
        self.busy.discard(cn)
        self.sum[cn] = r
        return r

    def check(self, fe, h):
        """fe: FuncEmitter, h: cut head.  returns (auto-havoc list of (addr value, type)), raises on unframed writes"""
        ci = fe.cutheads[h]; spec = ci['spec']; f = fe.f
        body = ci['body']
        W = self.writes([fe.blk[b] for b in body], f, fe.name)
        roots = self.roots_fn(f); defs = f._defs
        inbody = set(i.dst for b in body for i in fe.blk[b] if i.dst)
        ok = spec.get('frame_ok', [])
        declared = set('@' + g for g in spec.get('ghosts', [])) | set('@' + g for g in spec.get('havoc', []))
        hv = spec.get('havoc_writes', [])
        auto = []; bad = []
        # direct stores to loop-invariant addresses outside the locals
        handled = set()
        for b in body:
            for ins in fe.blk[b]:
                if ins.op == 'store':
                    rs = roots(ins.d['a'])
                    if rs and all(r[0] == 'p' and not r[2] for r in rs):
                        a = ins.d['a']
                        inv = a[0] != 'l' or a[1] not in inbody
                        if not inv and defs[a[1]].op == 'gep' and all(x[1][0] == 'int' for x in defs[a[1]].d['idx']) and (defs[a[1]].d['b'][0] != 'l' or defs[a[1]].d['b'][1] not in inbody): inv = True
                        if inv:
                            auto.append((a, ins.ty)); handled |= set(rs)
        # uses of allocas outside the loop body
        def used_outside(al):
            for lb, il in f.blocks:
                if lb in ci['dom']: continue
                for ins in il:
                    if ins.op in ('call', 'invoke'):
                        cn = self.E.callee_name(ins.d['callee'])
                        if cn and cn.startswith('@llvm.lifetime'): continue
                        for (t, x, d) in ins.d['args']:
                            if x and any(r[0] == 'l' and r[1] == al for r in roots(x)): return True
                    if ins.op in ('store', 'load') and any(r[0] == 'l' and r[1] == al for r in roots(ins.d['a'])): return True
            return False
        for r, why in W.items():
            if r[0] == 'f': continue
            if r[0] == 'l':
                if not r[2]: continue
                if not used_outside(r[1]): continue
                nm = 'local %s (deep) via %s' % (r[1], why)
            elif r[0] == 'g':
                g = r[1]
                if g in declared or g[1:].startswith('_ZGV') or re.match(r'_ZZ.*(f_info|t_info)', g[1:]): continue
                if g in self.E.m.globals and self.E.m.globals[g].get('const'): continue
                nm = 'global %s%s via %s' % (g[1:], ' (deep)' if r[2] else '', why)
            elif r[0] == 'p':
                if r in handled and why == 'store' and not r[2]: continue
                nm = 'param %d%s via %s' % (r[1], ' (deep)' if r[2] else '', why)
            else: nm = 'unknown via %s' % why
            if any(re.search(o, nm) for o in ok): continue
            bad.append(nm)
        return auto, bad
