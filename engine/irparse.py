"""Parser for the textual LLVM 18 IR that clang emits from /repo's sources.

Only what clang -O1 -disable-llvm-passes + sroa/simplifycfg/loop-simplify produces is
covered; anything else raises ParseError for the function concerned (the function is then
marked unparsable and any path reaching it is an undischarged obligation, never skipped).
"""
import re, subprocess

class ParseError(Exception):
    pass

TOK = re.compile(r'''
   (?P<ws>[ \t]+)
 | (?P<cstr>c"(?:[^"\\]|\\[0-9a-fA-F]{2}|\\\\)*")
 | (?P<local>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>!(?:"[^"]*"|[-a-zA-Z$._0-9]+)?)
 | (?P<attr>\#[0-9]+)
 | (?P<hex>0x[KLMHR]?[0-9a-fA-F]+)
 | (?P<num>-?[0-9]+(?:\.[0-9]*(?:e[+-]?[0-9]+)?)?)
 | (?P<str>"[^"]*")
 | (?P<word>[a-zA-Z_$.][-a-zA-Z0-9_$.]*)
 | (?P<dots>\.\.\.)
 | (?P<punct>[=,(){}\[\]<>*:|])
''', re.X)

def tokenize(line):
    out = []
    pos = 0
    n = len(line)
    while pos < n:
        if line[pos] == ';':
            break
        m = TOK.match(line, pos)
        if not m:
            raise ParseError('cannot tokenize %r at %d' % (line[:120], pos))
        pos = m.end()
        k = m.lastgroup
        if k != 'ws':
            out.append((k, m.group()))
    return out

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'a', 'b', '_sz', '_al')
    def __init__(self, k, a=None, b=None):
        self.k = k; self.a = a; self.b = b; self._sz = None; self._al = None
    def __repr__(self):
        if self.k == 'int': return 'i%d' % self.a
        if self.k == 'arr': return '[%d x %r]' % (self.a, self.b)
        if self.k == 'struct': return '{%s}' % ','.join(map(repr, self.a))
        if self.k == 'named': return self.a
        return self.k
    def __eq__(self, o):
        return isinstance(o, Ty) and self.k == o.k and self.a == o.a and self.b == o.b
    def __hash__(self):
        return hash(repr(self))

VOID = Ty('void'); PTR = Ty('ptr'); DOUBLE = Ty('double'); FLOAT = Ty('float')
LABEL = Ty('label'); META = Ty('metadata'); TOKEN = Ty('token'); X86FP = Ty('x86_fp80')
def INT(n): return Ty('int', n)

class TokStream:
    """token stream"""
    def __init__(self, toks, mod):
        self.t = toks; self.i = 0; self.mod = mod
    def peek(self, d=0):
        j = self.i + d
        return self.t[j] if j < len(self.t) else ('eof', '')
    def pk(self, d=0):
        return self.peek(d)[1]
    def next(self):
        r = self.peek(); self.i += 1; return r
    def accept(self, s):
        if self.pk() == s:
            self.i += 1; return True
        return False
    def expect(self, s):
        if not self.accept(s):
            raise ParseError('expected %r, got %r in %s' % (s, self.peek(), ' '.join(x[1] for x in self.t)[:200]))
    def end(self):
        return self.i >= len(self.t)

    def type(self):
        k, v = self.next()
        if k == 'word':
            if v == 'void': t = VOID
            elif v == 'ptr':
                t = PTR
                if self.pk() == 'addrspace':
                    raise ParseError('addrspace')
            elif v == 'double': t = DOUBLE
            elif v == 'float': t = FLOAT
            elif v == 'label': t = LABEL
            elif v == 'metadata': t = META
            elif v == 'token': t = TOKEN
            elif v == 'opaque': t = Ty('opaque')
            elif v in ('x86_fp80', 'half', 'fp128'): t = Ty(v)
            elif re.match(r'i[0-9]+$', v): t = INT(int(v[1:]))
            else: raise ParseError('type %r' % v)
        elif k == 'local':
            t = Ty('named', v)
        elif v == '[':
            n = int(self.next()[1]); self.expect('x'); e = self.type(); self.expect(']')
            t = Ty('arr', n, e)
        elif v == '{':
            fs = []
            while not self.accept('}'):
                fs.append(self.type()); self.accept(',')
            t = Ty('struct', tuple(fs), False)
        elif v == '<':
            if self.pk() == '{':
                self.next(); fs = []
                while not self.accept('}'):
                    fs.append(self.type()); self.accept(',')
                self.expect('>')
                t = Ty('struct', tuple(fs), True)
            else:
                n = int(self.next()[1]); self.expect('x'); e = self.type(); self.expect('>')
                t = Ty('vec', n, e)
        else:
            raise ParseError('type token %r' % (v,))
        # function type
        if self.pk() == '(' and t.k != 'label':
            self.next(); ps = []
            while not self.accept(')'):
                if self.accept('...'): ps.append('...')
                else: ps.append(self.type())
                self.accept(',')
            t = Ty('func', t, tuple(ps))
        return t

    PARAM_ATTRS = {'noundef', 'nonnull', 'noalias', 'nocapture', 'readonly', 'writeonly', 'readnone', 'signext',
                   'zeroext', 'inreg', 'returned', 'immarg', 'nest', 'swiftself', 'nofree', 'noreturn', 'inrange',
                   'dead_on_unwind', 'writable', 'allocalign', 'allocptr', 'range'}
    def attrs(self):
        """skip parameter attributes; return dict for those that matter"""
        out = {}
        while True:
            k, v = self.peek()
            if k == 'word' and v in self.PARAM_ATTRS:
                self.next(); out[v] = True
            elif k == 'word' and v == 'align':
                self.next()
                if self.accept('('):
                    self.next(); self.expect(')')
                else: self.next()
            elif k == 'word' and v in ('dereferenceable', 'dereferenceable_or_null', 'allocsize', 'memory', 'nofpclass', 'captures'):
                self.next(); self.expect('('); d = 1
                while d:
                    x = self.next()[1]
                    if x == '(': d += 1
                    elif x == ')': d -= 1
            elif k == 'word' and v in ('sret', 'byval', 'elementtype', 'inalloca', 'preallocated'):
                self.next(); self.expect('('); out[v] = self.type(); self.expect(')')
            elif k == 'attr':
                self.next()
            else:
                return out

    # constants / values.  value representation:
    #  ('l', name) local, ('g', name) global, ('ci', int), ('cf', hex/str), ('null',), ('undef',), ('poison',)
    #  ('zero',) zeroinitializer, ('agg', ty, [ (ty,val) ]), ('cstr', bytes), ('ce', op, ...)
    def value(self, ty):
        k, v = self.next()
        if k == 'local': return ('l', v)
        if k == 'glob': return ('g', v)
        if k == 'num':
            if ty.k in ('double', 'float'): return ('cf', v)
            return ('ci', int(v))
        if k == 'hex': return ('cf', v)
        if k == 'cstr':
            s = v[2:-1]; b = bytearray(); i = 0
            while i < len(s):
                if s[i] == '\\':
                    if s[i+1] == '\\': b.append(92); i += 2
                    else: b.append(int(s[i+1:i+3], 16)); i += 3
                else: b.append(ord(s[i])); i += 1
            return ('cstr', bytes(b))
        if k == 'word':
            if v == 'null': return ('null',)
            if v in ('undef', 'poison'): return (v,)
            if v == 'true': return ('ci', 1)
            if v == 'false': return ('ci', 0)
            if v == 'zeroinitializer': return ('zero',)
            if v == 'none': return ('null',)
            if v == 'getelementptr':
                inb = False
                while self.pk() in ('inbounds', 'nuw', 'nusw'): self.next(); inb = True
                self.expect('(')
                et = self.type(); self.expect(',')
                pt = self.type(); base = self.value(pt); idx = []
                while self.accept(','):
                    self.accept('inrange')
                    it = self.type(); idx.append((it, self.value(it)))
                self.expect(')')
                return ('ce', 'gep', et, base, idx, inb)
            if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
                self.expect('('); ft = self.type(); x = self.value(ft); self.expect('to'); tt = self.type(); self.expect(')')
                return ('ce', v, ft, x, tt)
            if v in ('add', 'sub', 'mul', 'xor', 'and', 'or', 'shl'):
                while self.pk() in ('nuw', 'nsw'): self.next()
                self.expect('('); t1 = self.type(); a = self.value(t1); self.expect(','); t2 = self.type(); b = self.value(t2); self.expect(')')
                return ('ce', v, t1, a, b)
            if v in ('icmp',):
                pred = self.next()[1]
                self.expect('('); t1 = self.type(); a = self.value(t1); self.expect(','); t2 = self.type(); b = self.value(t2); self.expect(')')
                return ('ce', 'icmp', pred, t1, a, b)
            if v == 'blockaddress': raise ParseError('blockaddress')
            if v == 'asm': raise ParseError('inline asm')
        if v in ('[', '{', '<'):
            close = {'[': ']', '{': '}', '<': '>'}[v]
            if v == '<' and self.pk() == '{':
                self.next(); elems = []
                while not self.accept('}'):
                    t = self.type(); elems.append((t, self.value(t))); self.accept(',')
                self.expect('>')
                return ('agg', ty, elems)
            elems = []
            while not self.accept(close):
                t = self.type(); elems.append((t, self.value(t))); self.accept(',')
            return ('agg', ty, elems)
        if k == 'meta': return ('meta', v)
        raise ParseError('value token %r' % ((k, v),))

class Inst:
    __slots__ = ('op', 'res', 'ty', 'a', 'line')
    def __init__(self, op, res, ty, a, line=None):
        self.op = op; self.res = res; self.ty = ty; self.a = a; self.line = line
    def __repr__(self):
        return 'Inst(%s,%s,%r)' % (self.op, self.res, self.a)

class Func:
    def __init__(self, name, ret, params, attrs):
        self.name = name; self.ret = ret; self.params = params  # params: [(ty,name,attrs)]
        self.blocks = {}; self.order = []; self.lines = None; self.err = None
        self.vararg = False; self._loops = None; self.demangled = name
        self.personality = False; self.attrs = attrs
        self.nounwind = False

class Module:
    def __init__(self):
        # local: globals with internal linkage; written: those that some instruction uses other than as the operand of a load
        self.types = {}; self.local = set(); self.written = None; self.globals = {}; self.funcs = {}; self.decls = {}; self.dl = None

    def resolve(self, t):
        while t.k == 'named':
            t = self.types[t.a]
        return t
    def size(self, t):
        if t._sz is None:
            self._layout(t)
        return t._sz
    def align(self, t):
        if t._al is None:
            self._layout(t)
        return t._al
    def _layout(self, t):
        r = self.resolve(t)
        if r.k == 'int':
            n = max(1, (r.a + 7) // 8); s = 1
            while s < n: s *= 2
            sz, al = s, min(s, 16)
            if r.a > 64: al = 16
        elif r.k in ('ptr', 'double', 'func'): sz, al = 8, 8
        elif r.k == 'float': sz, al = 4, 4
        elif r.k == 'x86_fp80': sz, al = 16, 16
        elif r.k == 'arr': sz, al = r.a * self.size(r.b), self.align(r.b)
        elif r.k == 'struct':
            off = 0; al = 1
            for f in r.a:
                fa = 1 if r.b else self.align(f)
                off = (off + fa - 1) // fa * fa
                off += self.size(f); al = max(al, fa)
            sz = (off + al - 1) // al * al
        elif r.k == 'opaque': sz, al = 0, 1
        else: raise ParseError('layout of %r' % (r,))
        t._sz = sz; t._al = al; r._sz = sz; r._al = al
    def field_off(self, t, i):
        r = self.resolve(t)
        off = 0
        for j, f in enumerate(r.a):
            fa = 1 if r.b else self.align(f)
            off = (off + fa - 1) // fa * fa
            if j == i: return off
            off += self.size(f)
        raise ParseError('field index')

LINKAGE = {'private', 'internal', 'available_externally', 'linkonce', 'weak', 'common', 'appending', 'extern_weak',
           'linkonce_odr', 'weak_odr', 'external', 'dso_local', 'dso_preemptable', 'hidden', 'protected', 'default',
           'unnamed_addr', 'local_unnamed_addr', 'thread_local', 'externally_initialized', 'dllimport', 'fastcc', 'ccc', 'coldcc'}

def parse_module(text):
    mod = Module()
    lines = text.split('\n')
    i = 0; n = len(lines)
    while i < n:
        ln = lines[i]
        if ln.startswith('%') and ' = type ' in ln:
            p = TokStream(tokenize(ln), mod)
            name = p.next()[1]; p.expect('='); p.expect('type')
            mod.types[name] = p.type()
        elif ln.startswith('@'):
            try:
                p = TokStream(tokenize(ln), mod)
                name = p.next()[1]; p.expect('=')
                kindext = False; local = False
                while p.pk() in LINKAGE or p.pk() in ('global', 'constant'):
                    w = p.next()[1]
                    if w in ('internal', 'private'): local = True
                    if w in ('external', 'extern_weak'): kindext = True
                    if w == 'thread_local' and p.pk() == '(':
                        while p.next()[1] != ')': pass
                    if w in ('global', 'constant'):
                        const = w == 'constant'; break
                if p.pk() in ('alias',) :
                    p.next(); ft = p.type(); p.expect(','); at = p.type(); tgt = p.value(at)
                    mod.globals[name] = ('alias', tgt)
                else:
                    ty = p.type()
                    init = None
                    if not kindext and not p.end() and p.pk() != ',':
                        init = p.value(ty)
                    mod.globals[name] = ('var', ty, init, const)
                    if local: mod.local.add(name)
            except ParseError as e:
                mod.globals[ln.split(' ')[0]] = ('bad', str(e))
        elif ln.startswith('define '):
            f = parse_header(ln, mod)
            j = i + 1
            while lines[j] != '}': j += 1
            f.lines = lines[i+1:j]
            mod.funcs[f.name] = f
            i = j
        elif ln.startswith('declare '):
            f = parse_header(ln, mod)
            mod.decls[f.name] = f
        i += 1
    names = list(mod.funcs) + list(mod.decls)
    dem = demangle([x[1:].strip('"') for x in names])
    for nm, d in zip(names, dem):
        (mod.funcs.get(nm) or mod.decls.get(nm)).demangled = d
    mod.by_dem = {}
    for f in list(mod.decls.values()) + list(mod.funcs.values()):
        mod.by_dem.setdefault(f.demangled, f)
        if f.name in mod.funcs: mod.by_dem[f.demangled] = f
    return mod

def demangle(names):
    r = subprocess.run(['c++filt'], input='\n'.join(names) + '\n', capture_output=True, text=True)
    return r.stdout.split('\n')[:len(names)]

def parse_header(ln, mod):
    p = TokStream(tokenize(ln), mod)
    p.next()
    while p.pk() in LINKAGE: p.next()
    p.attrs()
    ret = p.type() if True else None
    if ret.k == 'func': raise ParseError('func ret')
    k, name = p.next()
    if k != 'glob': raise ParseError('header %r' % ln[:100])
    p.expect('(')
    params = []; va = False
    while not p.accept(')'):
        if p.accept('...'): va = True
        else:
            t = p.type(); at = p.attrs(); nm = None
            if p.peek()[0] == 'local': nm = p.next()[1]
            params.append((t, nm, at))
        p.accept(',')
    f = Func(name, ret, params, None)
    f.vararg = va
    f.personality = 'personality' in ln
    return f

def parse_body(f, mod):
    """fill f.blocks: label -> list of Inst"""
    if f.blocks or f.err: return
    try:
        _parse_body(f, mod)
    except ParseError as e:
        f.err = str(e)

def _parse_body(f, mod):
    cur = None
    lines = f.lines; i = 0
    nparam = len(f.params)
    # entry label: first block label line, or implicit
    while i < len(lines):
        ln = lines[i]
        i += 1
        if not ln.strip(): continue
        if not ln.startswith(' '):
            m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', ln)
            if not m: raise ParseError('label? %r' % ln[:80])
            cur = '%' + m.group(1)
            f.blocks[cur] = []; f.order.append(cur)
            continue
        if cur is None:
            cur = '%0entry'; f.blocks[cur] = []; f.order.append(cur)
        s = ln
        # continuation lines: invoke ... to label; switch [...]; landingpad clauses
        st = ln.strip()
        if re.match(r'(%\S+ = )?(invoke)\b', st) and ' unwind label ' not in st:
            s = s + ' ' + lines[i].strip(); i += 1
        elif st.startswith('switch '):
            while ']' not in s.split('[', 1)[1]:
                s += ' ' + lines[i].strip(); i += 1
        elif ' = landingpad ' in st:
            while i < len(lines) and re.match(r'\s+(cleanup|catch|filter)\b', lines[i]):
                s += ' ' + lines[i].strip(); i += 1
        f.blocks[cur].append(parse_inst(s, mod))

def parse_inst(s, mod):
    p = TokStream(tokenize(s), mod)
    res = None
    if p.peek()[0] == 'local' and p.peek(1)[1] == '=':
        res = p.next()[1]; p.next()
    op = p.next()[1]
    if op in ('tail', 'musttail', 'notail'): op = p.next()[1]
    I = lambda ty, *a: Inst(op, res, ty, a, s.strip()[:160])
    if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
              'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
        flags = set()
        while p.peek()[1] in ('nuw', 'nsw', 'exact', 'disjoint', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
            flags.add(p.next()[1])
        ty = p.type(); a = p.value(ty); p.expect(','); b = p.value(ty)
        return I(ty, a, b, flags)
    if op == 'fneg':
        while p.peek()[1] in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'): p.next()
        ty = p.type(); return I(ty, p.value(ty))
    if op in ('icmp', 'fcmp'):
        while p.peek()[1] in ('fast', 'nnan', 'ninf', 'nsz', 'samesign'): p.next()
        pred = p.next()[1]; ty = p.type(); a = p.value(ty); p.expect(','); b = p.value(ty)
        return I(ty, pred, a, b)
    if op == 'load':
        p.accept('volatile')
        p.accept('atomic')
        ty = p.type(); p.expect(','); pt = p.type(); v = p.value(pt)
        return I(ty, v)
    if op == 'store':
        p.accept('volatile')
        p.accept('atomic')
        ty = p.type(); v = p.value(ty); p.expect(','); pt = p.type(); q = p.value(pt)
        return I(ty, v, q)
    if op == 'alloca':
        p.accept('inalloca')
        ty = p.type(); cnt = ('ci', 1)
        if p.accept(','):
            if p.pk() != 'align':
                ct = p.type(); cnt = p.value(ct)
        return I(ty, cnt)
    if op == 'getelementptr':
        inb = False
        while p.pk() in ('inbounds', 'nuw', 'nusw'): p.next(); inb = True
        et = p.type(); p.expect(','); pt = p.type(); base = p.value(pt); idx = []
        while p.accept(','):
            if p.peek()[0] == 'meta': break
            it = p.type(); idx.append((it, p.value(it)))
        return I(et, base, idx, inb)
    if op == 'br':
        if p.pk() == 'label':
            p.next(); return I(None, p.next()[1])
        ty = p.type(); c = p.value(ty); p.expect(','); p.expect('label'); t = p.next()[1]; p.expect(','); p.expect('label'); e = p.next()[1]
        return I(None, c, t, e)
    if op == 'switch':
        ty = p.type(); v = p.value(ty); p.expect(','); p.expect('label'); d = p.next()[1]; p.expect('[')
        cases = []
        while not p.accept(']'):
            ct = p.type(); cv = p.value(ct); p.expect(','); p.expect('label'); cases.append((cv, p.next()[1]))
        return I(ty, v, d, cases)
    if op == 'ret':
        ty = p.type()
        if ty.k == 'void': return I(ty, None)
        return I(ty, p.value(ty))
    if op == 'unreachable': return I(None)
    if op == 'phi':
        while p.peek()[1] in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'): p.next()
        ty = p.type(); inc = []
        while True:
            p.expect('['); v = p.value(ty); p.expect(','); l = p.next()[1]; p.expect(']'); inc.append((v, l))
            if not p.accept(','): break
            if p.peek()[0] == 'meta': break
        return I(ty, inc)
    if op in ('zext', 'sext', 'trunc', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr', 'bitcast'):
        while p.pk() in ('nneg', 'nuw', 'nsw'): p.next()
        ft = p.type(); v = p.value(ft); p.expect('to'); tt = p.type()
        return I(tt, ft, v)
    if op == 'select':
        while p.peek()[1] in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'): p.next()
        ct = p.type(); c = p.value(ct); p.expect(','); t1 = p.type(); a = p.value(t1); p.expect(','); t2 = p.type(); b = p.value(t2)
        return I(t1, c, a, b)
    if op == 'extractvalue':
        t = p.type(); v = p.value(t); ix = []
        while p.accept(','):
            if p.peek()[0] == 'meta': break
            ix.append(int(p.next()[1]))
        return I(t, v, ix)
    if op == 'insertvalue':
        t = p.type(); v = p.value(t); p.expect(','); t2 = p.type(); w = p.value(t2); ix = []
        while p.accept(','):
            if p.peek()[0] == 'meta': break
            ix.append(int(p.next()[1]))
        return I(t, v, (t2, w), ix)
    if op == 'resume':
        t = p.type(); return I(t, p.value(t))
    if op == 'landingpad':
        t = p.type(); cl = []; cleanup = False
        while not p.end():
            w = p.next()[1]
            if w == 'cleanup': cleanup = True
            elif w in ('catch', 'filter'):
                ct = p.type(); cl.append((w, p.value(ct)))
            else: raise ParseError('landingpad %r' % w)
        return I(t, cleanup, cl)
    if op == 'freeze':
        ty = p.type(); return I(ty, p.value(ty))
    if op in ('call', 'invoke'):
        while p.peek()[1] in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fastcc', 'ccc', 'coldcc'): p.next()
        p.attrs()
        rt = p.type()
        if rt.k == 'func': rt = rt.a
        if p.pk() == 'asm': raise ParseError('inline asm')
        callee = p.value(PTR)
        p.expect('('); args = []
        while not p.accept(')'):
            t = p.type()
            if t.k == 'metadata':
                # skip metadata operand
                d = 0
                while not (d == 0 and p.pk() in (',', ')')):
                    x = p.next()[1]
                    if x == '(': d += 1
                    elif x == ')': d -= 1
                args.append((t, ('meta',)))
            else:
                at = p.attrs(); args.append((t, p.value(t)))
            p.accept(',')
        nounw = False
        while not p.end() and p.pk() not in ('to',):
            if p.peek()[0] == 'meta': break
            p.next()
        to = unw = None
        if op == 'invoke':
            p.expect('to'); p.expect('label'); to = p.next()[1]; p.expect('unwind'); p.expect('label'); unw = p.next()[1]
        return I(rt, callee, args, to, unw)
    raise ParseError('instruction %s' % op)

# ---------------------------------------------------------------- CFG / loops
def successors(b):
    t = b[-1]
    if t.op == 'br':
        return [t.a[0]] if len(t.a) == 1 else [t.a[1], t.a[2]]
    if t.op == 'switch':
        return [t.a[1]] + [l for _, l in t.a[2]]
    if t.op == 'invoke':
        return [t.a[2], t.a[3]]
    return []

class Loop:
    def __init__(self, header):
        self.header = header; self.blocks = {header}; self.backs = set()
        self.parent = None

def loops_of(f):
    if f._loops is not None: return f._loops
    order = f.order; entry = order[0]
    succ = {b: successors(f.blocks[b]) for b in order}
    pred = {b: [] for b in order}
    for b in order:
        for s in succ[b]: pred[s].append(b)
    # reachable rpo
    seen = set(); post = []
    stack = [(entry, iter(succ[entry]))]; seen.add(entry)
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s); stack.append((s, iter(succ[s]))); break
        else:
            post.append(b); stack.pop()
    rpo = post[::-1]
    idx = {b: i for i, b in enumerate(rpo)}
    dom = {entry: {entry}}
    allb = set(rpo)
    for b in rpo[1:]: dom[b] = allb
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            ps = [dom[p] for p in pred[b] if p in idx]
            nd = set.intersection(*ps) | {b} if ps else {b}
            if nd != dom[b]: dom[b] = nd; ch = True
    L = {}
    for b in rpo:
        for s in succ[b]:
            if s in dom[b]:
                lp = L.setdefault(s, Loop(s)); lp.backs.add(b)
                st = [b]
                while st:
                    x = st.pop()
                    if x in lp.blocks: continue
                    lp.blocks.add(x)
                    st.extend(pred[x])
    # can-return analysis: blocks from which a `ret` is reachable
    canret = set(b for b in rpo if f.blocks[b][-1].op == 'ret')
    ch = True
    while ch:
        ch = False
        for b in rpo:
            if b not in canret and any(s in canret for s in succ[b]):
                canret.add(b); ch = True
    f.canret = canret
    f._loops = L
    return L
