#!/usr/bin/env python3
"""ll2c: mechanical translation of LLVM IR (clang 18 textual form) to C for CBMC.

The input is the IR that clang generates from the real sources in /repo plus
one contract harness.  Nothing in the translated functions is written by
hand: every instruction becomes one C statement.  What the translation drops
(and nothing else) is listed in DESIGN.md section "What extraction drops".
"""
import re, sys, os, struct as _struct

# ---------------------------------------------------------------- lexer ----
TOK = re.compile(r'''\s*(?:;[^\n]*|(
   c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*"
 | [@%$]"(?:[^"\\]|\\.)*"(?:\.\d+)?
 | "(?:[^"\\]|\\.)*"
 | [@%$][-a-zA-Z$._0-9]+
 | \#[0-9]+
 | ![a-zA-Z0-9._]*(?:\s*)
 | -?0x[KLMHR]?[0-9A-Fa-f]+
 | -?[0-9]+\.[0-9]*(?:e[-+]?[0-9]+)?
 | -?[0-9]+
 | \.\.\.
 | [a-zA-Z$._][-a-zA-Z$._0-9]*
 | [\[\]{}()<>=,*|:]
))''', re.X)

def lex(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            if s[pos:].strip() == '':
                break
            raise SyntaxError('lex: %r' % s[pos:pos+80])
        if m.group(1) is not None:
            out.append(m.group(1).strip())
        pos = m.end()
    return out

# ---------------------------------------------------------------- types ----
class T:
    __slots__ = ('k', 'a', 'b', 'packed', '_c', '_s')
    def __init__(self, k, a=None, b=None, packed=False):
        self.k, self.a, self.b, self.packed = k, a, b, packed
    def key(self):
        if self.k in ('int',): return 'i%d' % self.a
        if self.k in ('ptr', 'void', 'float', 'double', 'label', 'metadata', 'opaque', 'x86_fp80', 'token'): return self.k
        if self.k == 'named': return self.a
        if self.k == 'arr': return 'A%d_%s' % (self.a, self.b.key())
        if self.k == 'vec': return 'V%d_%s' % (self.a, self.b.key())
        if self.k == 'struct': return ('P' if self.packed else 'S') + '<' + ','.join(x.key() for x in self.a) + '>'
        if self.k == 'fn': return 'F(%s)' % self.a.key()
        raise Exception(self.k)
    def __eq__(self, o): return self.key() == o.key()
    def __hash__(self): return hash(self.key())

VOID, PTR, LABEL, META = T('void'), T('ptr'), T('label'), T('metadata')
def INT(n): return T('int', n)

FMF = {'fast','nnan','ninf','nsz','arcp','contract','afn','reassoc'}
CC = {'fastcc','coldcc','ccc','tailcc','swiftcc','preserve_mostcc','preserve_allcc'}
PATTRS = {'noundef','zeroext','signext','inreg','nonnull','noalias','nocapture','nofree','nest','returned','swiftself',
  'swifterror','immarg','readonly','writeonly','readnone','writable','dead_on_unwind','noext','allocptr','allocalign','mustprogress','inrange'}
LINK = {'private','internal','available_externally','linkonce','weak','common','appending','extern_weak','linkonce_odr','weak_odr','external',
  'default','hidden','protected','dllimport','dllexport','dso_local','dso_preemptable','unnamed_addr','local_unnamed_addr','externally_initialized'}

class P:
    """token-stream parser"""
    def __init__(self, toks, mod):
        self.t, self.i, self.m = toks, 0, mod
    def peek(self, k=0):
        return self.t[self.i+k] if self.i+k < len(self.t) else None
    def next(self):
        x = self.t[self.i]; self.i += 1; return x
    def accept(self, x):
        if self.peek() == x:
            self.i += 1; return True
        return False
    def expect(self, x):
        y = self.next()
        if y != x: raise SyntaxError('expected %s got %s in %s' % (x, y, ' '.join(self.t)[:300]))
    def type(self):
        x = self.next()
        r = None
        if x == 'void': r = VOID
        elif x == 'ptr':
            r = PTR
            if self.peek() == 'addrspace':
                self.next(); self.expect('('); self.next(); self.expect(')')
        elif x[0] == 'i' and x[1:].isdigit(): r = INT(int(x[1:]))
        elif x in ('float', 'double', 'label', 'metadata', 'x86_fp80', 'token', 'opaque'): r = T(x)
        elif x[0] == '%': r = T('named', x)
        elif x == '[':
            n = int(self.next()); self.expect('x'); e = self.type(); self.expect(']'); r = T('arr', n, e)
        elif x == '{':
            r = T('struct', self._tl('}'))
        elif x == '<':
            if self.peek() == '{':
                self.next(); l = self._tl('}'); self.expect('>'); r = T('struct', l, packed=True)
            else:
                n = int(self.next()); self.expect('x'); e = self.type(); self.expect('>'); r = T('vec', n, e)
        else:
            raise SyntaxError('type: %s in %s' % (x, ' '.join(self.t)[:300]))
        # function type
        while self.peek() == '(' and r.k != 'metadata':
            self.next()
            l = []; va = False
            while not self.accept(')'):
                if self.accept('...'): va = True
                else: l.append(self.type())
                self.accept(',')
            r = T('fn', r, (l, va))
        return r
    def _tl(self, close):
        l = []
        while not self.accept(close):
            l.append(self.type()); self.accept(',')
        return l
    def skip_attrs(self):
        """parameter/return attributes; returns dict of interesting ones"""
        d = {}
        while True:
            x = self.peek()
            if x in PATTRS: self.next(); d[x] = True
            elif x in ('align',):
                self.next()
                if self.accept('('): self.next(); self.expect(')')
                else: self.next()
            elif x in ('dereferenceable', 'dereferenceable_or_null', 'captures', 'memory', 'range', 'nofpclass', 'initializes', 'allocsize','vscale_range'):
                self.next(); self.expect('('); depth = 1
                while depth:
                    y = self.next()
                    if y == '(': depth += 1
                    elif y == ')': depth -= 1
            elif x in ('sret', 'byval', 'byref', 'inalloca', 'preallocated', 'elementtype'):
                self.next(); self.expect('('); ty = self.type(); self.expect(')'); d[x] = ty
            elif x and x[0] == '"':
                self.next()
                if self.accept('='): self.next()
            else: return d
    # ------------------------------------------------ values / constants
    def value(self, ty):
        x = self.next()
        if x[0] == '%': return ('l', x)
        if x[0] == '@': return ('g', x)
        if x in ('true', 'false'): return ('int', 1 if x == 'true' else 0)
        if x in ('null',): return ('null',)
        if x in ('undef', 'poison'): return ('undef',)
        if x == 'zeroinitializer': return ('zero',)
        if x == 'none': return ('zero',)
        if x == 'splat':
            self.expect('('); t2 = self.type(); v = self.value(t2); self.expect(')')
            return ('splat', t2, v)
        if x.startswith('c"'): return ('str', x[2:-1])
        if x == '[':
            l = []
            while not self.accept(']'):
                t2 = self.type(); l.append((t2, self.value(t2))); self.accept(',')
            return ('agg', l)
        if x == '{':
            l = []
            while not self.accept('}'):
                t2 = self.type(); l.append((t2, self.value(t2))); self.accept(',')
            return ('agg', l)
        if x == '<':
            if self.accept('{'):
                l = []
                while not self.accept('}'):
                    t2 = self.type(); l.append((t2, self.value(t2))); self.accept(',')
                self.expect('>')
                return ('agg', l)
            l = []
            while not self.accept('>'):
                t2 = self.type(); l.append((t2, self.value(t2))); self.accept(',')
            return ('agg', l)
        if x == 'getelementptr':
            while self.peek() in ('inbounds', 'nuw', 'nusw', 'inrange'): self.next()
            self.expect('(')
            bt = self.type(); self.expect(',')
            pt = self.type(); b = self.value(pt)
            idx = []
            while self.accept(','):
                while self.peek() == 'inrange': self.next()
                t2 = self.type(); idx.append((t2, self.value(t2)))
            self.expect(')')
            return ('cgep', bt, b, idx)
        if x in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
            self.expect('('); t1 = self.type(); v = self.value(t1); self.expect('to'); t2 = self.type(); self.expect(')')
            return ('ccast', x, t1, v, t2)
        if x in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            while self.peek() in ('nuw', 'nsw', 'exact', 'disjoint'): self.next()
            self.expect('('); t1 = self.type(); a = self.value(t1); self.expect(','); t2 = self.type(); b = self.value(t2); self.expect(')')
            return ('cbin', x, t1, a, b)
        if x == 'dso_local_equivalent' or x == 'no_cfi': return self.value(ty)
        if x == 'blockaddress': raise SyntaxError('blockaddress')
        if ty.k in ('float', 'double', 'x86_fp80'): return ('fp', x)
        if re.match(r'-?\d+$', x): return ('int', int(x))
        raise SyntaxError('value %s: %s' % (x, ' '.join(self.t)[:300]))
    def tv(self):
        t = self.type(); self.skip_attrs(); return (t, self.value(t))

class Func:
    pass

class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}   # name -> dict
        self.funcs = {}     # name -> Func
        self.attrs = {}
        self.aliases = {}
        self.comdat = set()

    def parse(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        pend = []
        while i < n:
            l = lines[i]
            if not l or l[0] in ';!':
                i += 1; continue
            if l.startswith('attributes #'):
                m = re.match(r'attributes (#\d+) = \{(.*)\}', l)
                self.attrs[m.group(1)] = m.group(2)
            elif l[0] == '%':
                m = re.match(r'(%(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)) = type (.*)$', l)
                self.types[m.group(1)] = m.group(2)
            elif l[0] == '@':
                pend.append(l)
            elif l.startswith('declare '):
                self.func_header(l, None)
            elif l.startswith('define '):
                j = i + 1
                while lines[j] != '}': j += 1
                self.func_header(l, lines[i+1:j])
                i = j
            i += 1
        for k in list(self.types):
            p = P(lex(self.types[k]), self)
            self.types[k] = p.type()
        for l in pend: self.global_line(l)

    def global_line(self, l):
        m = re.match(r'(@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)) = (.*)$', l)
        name, rest = m.groups()
        p = P(lex(re.sub(r'(, !\w+ !\d+)+\s*$', '', rest)), self)
        isdecl = False; tls = False
        while True:
            x = p.peek()
            if x in LINK:
                p.next()
                if x in ('external', 'extern_weak'): isdecl = True
            elif x == 'thread_local':
                p.next(); tls = True
                if p.accept('('): p.next(); p.expect(')')
            elif x == 'addrspace':
                p.next(); p.expect('('); p.next(); p.expect(')')
            else: break
        k = p.next()
        if k == 'alias':
            t = p.type(); p.expect(','); t2 = p.type(); v = p.value(t2)
            self.aliases[name] = v
            return
        if k not in ('global', 'constant'): raise SyntaxError(l[:200])
        t = p.type()
        v = None
        if not isdecl: v = p.value(t)
        self.globals[name] = dict(ty=t, init=v, const=(k == 'constant'))

    def func_header(self, l, body):
        l2 = re.sub(r'\s*!dbg !\d+', '', l)
        p = P(lex(l2), self)
        p.next()
        attrs = ''
        while p.peek() in LINK or p.peek() in CC: p.next()
        rd = p.skip_attrs()
        rt = p.type_nofn() if hasattr(p, 'type_nofn') else None
        name = p.next()
        p.expect('(')
        params = []; va = False; k = 0
        while not p.accept(')'):
            if p.accept('...'): va = True
            else:
                t = p.type(); d = p.skip_attrs()
                pn = None
                if p.peek() and p.peek()[0] == '%': pn = p.next()
                params.append((t, pn, d)); k += 1
            p.accept(',')
        pers = None
        while p.peek():
            x = p.next()
            if x[0] == '#': attrs += ' ' + x
            elif x == 'nounwind': attrs += ' nounwind'
        f = Func()
        f.name, f.rt, f.params, f.va, f.attrs, f.body = name, rt, params, va, attrs, body
        f.blocks = None
        old = self.funcs.get(name)
        if old is None or old.body is None: self.funcs[name] = f

def _type_nofn(self):
    """a type not followed by a function-type suffix (used for return types)"""
    x = self.peek()
    r = None
    if x == 'void': self.next(); return VOID
    if x == 'ptr': self.next(); return PTR
    if x[0] == 'i' and x[1:].isdigit(): self.next(); return INT(int(x[1:]))
    if x in ('float', 'double', 'x86_fp80'): self.next(); return T(x)
    if x[0] == '%': self.next(); return T('named', x)
    return self.type()
P.type_nofn = _type_nofn

# ---------------------------------------------------------- instructions --
class Ins:
    __slots__ = ('op', 'dst', 'ty', 'd')
    def __init__(self, op, dst, ty, **d):
        self.op, self.dst, self.ty, self.d = op, dst, ty, d

def strip_md(l):
    l = re.sub(r',\s*!\w[\w.]*\s+![\w]+(\(\))?', '', l)
    l = re.sub(r',\s*!\w[\w.]*\s+!\{\}', '', l)
    return l

BIN = {'add','sub','mul','udiv','sdiv','urem','srem','shl','lshr','ashr','and','or','xor','fadd','fsub','fmul','fdiv','frem'}
CASTS = {'trunc','zext','sext','fptrunc','fpext','fptoui','fptosi','uitofp','sitofp','ptrtoint','inttoptr','bitcast','addrspacecast'}

class FuncParser:
    def __init__(self, mod, f):
        self.m, self.f = mod, f
    def run(self):
        f = self.f
        blocks = []   # (label, [Ins])
        # unnamed params
        k = 0
        np = []
        for (t, pn, d) in f.params:
            if pn is None: pn = '%' + str(k); 
            if re.match(r'%\d+$', pn): k = int(pn[1:]) + 1
            np.append((t, pn, d))
        f.params = np
        cur = None
        # join multi-line constructs (switch, landingpad clauses, invoke)
        L = []
        i = 0
        B = f.body
        while i < len(B):
            l = B[i]
            s = l.strip()
            if not s or s[0] == ';': i += 1; continue
            if s.startswith('switch ') :
                while not s.rstrip().split(', !')[0].endswith(']'):
                    i += 1; s += ' ' + B[i].strip()
                    if B[i].strip().startswith(']'): break
            elif ' landingpad ' in s or s.startswith('landingpad'):
                while i + 1 < len(B) and re.match(r'\s+(cleanup|catch|filter)\b', B[i+1]):
                    i += 1; s += ' ' + strip_md(B[i].strip())
            elif re.search(r'(^|= )(invoke) ', s):
                i += 1; s = strip_md(s) + ' ' + B[i].strip()
            L.append(s); i += 1
        for s in L:
            m = re.match(r'((?:"(?:[^"\\]|\\.)*")|[-a-zA-Z$._0-9]+):(\s*;.*)?$', s)
            if m:
                cur = ('%' + m.group(1), []); blocks.append(cur); continue
            if cur is None:
                # entry block: label number = k
                cur = ('%' + str(k), []); blocks.append(cur)
            ins = self.ins(strip_md(s))
            if ins is not None: cur[1].append(ins)
        f.blocks = blocks

    def ins(self, s):
        s = re.sub(r'\s*;.*$', '', s) if ' ; ' in s and '"' not in s else s
        p = P(lex(s), self.m)
        dst = None
        if p.peek(1) == '=':
            dst = p.next(); p.next()
        op = p.next()
        if op in ('tail', 'musttail', 'notail'): op = p.next()
        if op == 'call' or op == 'invoke': return self.call(op, dst, p)
        if op in BIN:
            while p.peek() in ('nuw','nsw','exact','disjoint') or p.peek() in FMF: p.next()
            t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
            return Ins('bin', dst, t, o=op, a=a, b=b)
        if op in CASTS:
            while p.peek() in ('nuw','nsw','nneg') or p.peek() in FMF: p.next()
            t = p.type(); a = p.value(t); p.expect('to'); t2 = p.type()
            return Ins('cast', dst, t2, o=op, ft=t, a=a)
        if op == 'fneg':
            while p.peek() in FMF: p.next()
            t = p.type(); return Ins('fneg', dst, t, a=p.value(t))
        if op == 'freeze':
            t = p.type(); return Ins('copy', dst, t, a=p.value(t))
        if op in ('icmp', 'fcmp'):
            while p.peek() in FMF or p.peek()=='samesign': p.next()
            c = p.next(); t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
            return Ins(op, dst, INT(1), c=c, ct=t, a=a, b=b)
        if op == 'select':
            while p.peek() in FMF: p.next()
            ct = p.type(); c = p.value(ct); p.expect(','); t = p.type(); a = p.value(t); p.expect(','); p.type(); b = p.value(t)
            return Ins('select', dst, t, c=c, a=a, b=b)
        if op == 'phi':
            while p.peek() in FMF: p.next()
            t = p.type(); inc = []
            while True:
                p.expect('['); v = p.value(t); p.expect(','); lb = p.next(); p.expect(']'); inc.append((v, lb))
                if not p.accept(','): break
            return Ins('phi', dst, t, inc=inc)
        if op == 'alloca':
            p.accept('inalloca')
            t = p.type(); n = None
            if p.accept(','):
                if p.peek() != 'align' and p.peek() != 'addrspace':
                    nt = p.type(); n = (nt, p.value(nt))
            return Ins('alloca', dst, PTR, at=t, n=n)
        if op == 'load':
            at = p.accept('atomic'); p.accept('volatile')
            t = p.type(); p.expect(','); pt = p.type(); a = p.value(pt)
            return Ins('load', dst, t, a=a)
        if op == 'store':
            p.accept('atomic'); p.accept('volatile')
            t = p.type(); v = p.value(t); p.expect(','); pt = p.type(); a = p.value(pt)
            return Ins('store', None, t, v=v, a=a)
        if op == 'getelementptr':
            while p.peek() in ('inbounds', 'nuw', 'nusw'): p.next()
            bt = p.type(); p.expect(','); pt = p.type(); b = p.value(pt); idx = []
            while p.accept(','):
                t2 = p.type(); idx.append((t2, p.value(t2)))
            return Ins('gep', dst, PTR, bt=bt, b=b, idx=idx)
        if op == 'br':
            if p.peek() == 'label':
                p.next(); return Ins('br', None, None, to=p.next())
            t = p.type(); c = p.value(t); p.expect(','); p.next(); a = p.next(); p.expect(','); p.next(); b = p.next()
            return Ins('cbr', None, None, c=c, a=a, b=b)
        if op == 'switch':
            t = p.type(); v = p.value(t); p.expect(','); p.next(); d = p.next(); p.expect('[')
            cases = []
            while not p.accept(']'):
                t2 = p.type(); cv = p.value(t2); p.expect(','); p.next(); cases.append((cv, p.next()))
            return Ins('switch', None, t, v=v, dflt=d, cases=cases)
        if op == 'ret':
            t = p.type()
            return Ins('ret', None, t, v=None if t.k == 'void' else p.value(t))
        if op == 'unreachable': return Ins('unreachable', None, None)
        if op == 'resume':
            t = p.type(); return Ins('resume', None, t, v=p.value(t))
        if op == 'landingpad':
            t = p.type(); cl = False; cs = []
            while p.peek():
                x = p.next()
                if x == 'cleanup': cl = True
                elif x == 'catch':
                    t2 = p.type(); cs.append(p.value(t2))
                elif x == 'filter':
                    t2 = p.type(); p.value(t2); cs.append(('null',))
                else: break
            return Ins('landingpad', dst, t, cleanup=cl, catches=cs)
        if op == 'extractvalue':
            t = p.type(); a = p.value(t); idx = []
            while p.accept(','): idx.append(int(p.next()))
            return Ins('extractvalue', dst, self.sub(t, idx), at=t, a=a, idx=idx)
        if op == 'insertvalue':
            t = p.type(); a = p.value(t); p.expect(','); t2 = p.type(); b = p.value(t2); idx = []
            while p.accept(','): idx.append(int(p.next()))
            return Ins('insertvalue', dst, t, a=a, b=b, idx=idx)
        if op == 'atomicrmw':
            p.accept('volatile'); o = p.next(); pt = p.type(); a = p.value(pt); p.expect(','); t = p.type(); v = p.value(t)
            return Ins('atomicrmw', dst, t, o=o, a=a, v=v)
        if op == 'cmpxchg':
            p.accept('weak'); p.accept('volatile'); pt = p.type(); a = p.value(pt); p.expect(','); t = p.type(); c = p.value(t); p.expect(','); p.type(); n = p.value(t)
            return Ins('cmpxchg', dst, T('struct', [t, INT(1)]), vt=t, a=a, c=c, n=n)
        if op == 'fence': return None
        if op == 'va_arg': raise SyntaxError('va_arg')
        raise SyntaxError('op %s: %s' % (op, s[:200]))

    def sub(self, t, idx):
        for i in idx:
            t = self.m.resolve(t)
            t = t.b if t.k == 'arr' else t.a[i]
        return t

    def call(self, op, dst, p):
        while p.peek() in FMF or p.peek() in CC: p.next()
        p.skip_attrs()
        while p.peek() in CC: p.next()
        rt = p.type()
        fnty = None
        if rt.k == 'fn': fnty = rt; rt = rt.a
        if p.peek() == 'asm':
            # inline asm: skip
            p.next()
            while p.peek() in ('sideeffect', 'alignstack', 'inteldialect'): p.next()
            p.next(); p.expect(','); p.next()
            callee = ('asm',)
        else:
            callee = p.value(PTR)
        p.expect('(')
        args = []
        while not p.accept(')'):
            t = p.type()
            if t.k == 'metadata':
                # skip metadata operand
                depth = 0
                while not (depth == 0 and p.peek() in (',', ')')):
                    y = p.next()
                    if y in '({[': depth += 1
                    elif y in ')}]': depth -= 1
                args.append((t, None, {}))
            else:
                d = p.skip_attrs(); args.append((t, p.value(t), d))
            p.accept(',')
        attrs = ''
        to = unw = None
        while p.peek():
            x = p.next()
            if x[0] == '#': attrs += ' ' + x
            elif x == 'nounwind': attrs += ' nounwind'
            elif x == 'to' : p.expect('label'); to = p.next()
            elif x == 'unwind': p.expect('label'); unw = p.next()
        return Ins(op, dst, rt, callee=callee, args=args, attrs=attrs, to=to, unw=unw, fnty=fnty)

def _resolve(self, t):
    while t.k == 'named':
        r = self.types.get(t.a)
        if r is None: return T('opaque')
        t = r
    return t
Module.resolve = _resolve

# ---------------------------------------------------------- layout --------
def _align(self, t):
    t = self.resolve(t)
    if t.k == 'int':
        n = t.a
        return 1 if n <= 8 else 2 if n <= 16 else 4 if n <= 32 else 8 if n <= 64 else 16
    if t.k in ('ptr', 'double'): return 8
    if t.k == 'float': return 4
    if t.k == 'x86_fp80': return 16
    if t.k in ('arr',): return _align(self, t.b)
    if t.k == 'vec': return min(16, _size(self, t))
    if t.k == 'struct': return 1 if t.packed or not t.a else max(_align(self, x) for x in t.a)
    return 1
def _size(self, t):
    t = self.resolve(t)
    if t.k == 'int':
        n = t.a
        return 1 if n <= 8 else 2 if n <= 16 else 4 if n <= 32 else 8 if n <= 64 else 16 * ((n+127)//128)
    if t.k in ('ptr', 'double'): return 8
    if t.k == 'float': return 4
    if t.k == 'x86_fp80': return 16
    if t.k in ('arr', 'vec'): return t.a * _size(self, t.b)
    if t.k == 'struct':
        o = 0
        for x in t.a:
            a = 1 if t.packed else _align(self, x)
            o = (o + a - 1) // a * a
            o += _size(self, x)
        a = _align(self, t)
        return (o + a - 1) // a * a
    return 0
Module.align = _align
Module.size = _size
