"""Symbolic executor / verification-condition generator for LLVM IR (see DESIGN.md, 'engine').

Functions are executed on symbolic inputs; calls are inlined unless a contract is registered for the
callee; loops are replaced by closed-form inductive summaries (found automatically and *checked*
inductive on every run) or, when every exit test folds to a constant, unrolled completely.  Every
memory access raises an in-bounds/liveness obligation.  Anything outside the supported fragment
raises Incomplete, which is reported as an undischarged obligation.
"""
import re, struct, time, itertools
from fractions import Fraction
from terms import *
import terms as T
from irparse import *
import irparse as IR
from prover import Prover, STATS, has_real

class Incomplete(Exception): pass
class Fork(Exception):
    def __init__(self, cond): self.cond = cond

class Ptr:
    __slots__ = ('r', 'o')
    def __init__(self, r, o): self.r = r; self.o = P(o)
    def __eq__(self, x): return isinstance(x, Ptr) and self.r == x.r and self.o == x.o
    def __hash__(self): return hash((self.r, self.o))
    def __repr__(self): return 'Ptr(%s,%r)' % (self.r, self.o)
class Fn:
    __slots__ = ('n',)
    def __init__(self, n): self.n = n
    def __eq__(self, x): return isinstance(x, Fn) and self.n == x.n
    def __hash__(self): return hash(self.n)
    def __repr__(self): return 'Fn(%s)' % self.n
class _Undef:
    def __repr__(self): return 'UNDEF'
UNDEF = _Undef()
NULL = Ptr(0, ZERO)

class Region:
    __slots__ = ('id', 'kind', 'size', 'base', 'name', 'addr', 'align', 'ro')
    def __init__(self, id, kind, size, base, name, align=16, ro=False):
        self.id = id; self.kind = kind; self.size = size; self.base = base; self.name = name
        self.addr = None; self.align = align; self.ro = ro
    def __repr__(self): return 'R%d:%s:%s' % (self.id, self.kind, self.name)

# log entries.  node = (entry, prev)
class Ent:
    __slots__ = ('kind', 'params', 'guard', 'off', 'size', 'val', 'ty', 'extra', 'seq')
    def __init__(self, kind, off, size, val, ty, guard=TRUE, params=(), extra=None):
        self.kind = kind; self.off = off; self.size = size; self.val = val; self.ty = ty
        self.guard = guard; self.params = tuple(params); self.extra = extra
    def __repr__(self):
        return '%s[%r]@%r:%s=%r if %r' % (self.kind, self.params, self.off, self.size, self.val, self.guard)
    def key(self):
        return (self.kind, self.params, self.guard, self.off, self.size, vkey(self.val), self.extra)

def vkey(v):
    if isinstance(v, list): return ('L',) + tuple(vkey(x) for x in v)
    if v is UNDEF: return 'UNDEF'
    return v

class State:
    __slots__ = ('pc', 'br', 'mem', 'dead', 'heap', 'ghost')
    def __init__(self):
        self.pc = []; self.br = []; self.mem = {}; self.dead = frozenset(); self.heap = (); self.ghost = {}
    def clone(self):
        s = State.__new__(State)
        s.pc = list(self.pc); s.br = list(self.br); s.mem = dict(self.mem); s.dead = self.dead; s.heap = self.heap
        s.ghost = dict(self.ghost)
        return s
    def assume(self, b):
        if isinstance(b, Forall) or b.k != 'true':
            if isinstance(b, B) and b.k == 'and':
                for x in b.a: self.assume(x)
            elif b not in self.pc: self.pc.append(b)
    def branch(self, b):
        if b.k == 'true': return
        self.br.append(b); self.assume(b)
    def log_write(self, reg, ent):
        self.mem[reg] = (ent, self.mem.get(reg))

# ------------------------------------------------------------------ generic value maps
def vmap(v, fp, fb):
    if isinstance(v, Poly): return fp(v)
    if isinstance(v, B): return fb(v)
    if isinstance(v, Ptr): return Ptr(v.r, fp(v.o))
    if isinstance(v, list): return [vmap(x, fp, fb) for x in v]
    return v
def vsubst(v, mp):
    if not mp: return v
    return vmap(v, lambda p: subst(p, mp), lambda b: substb(b, mp))
def vsyms(v):
    if isinstance(v, (Poly, B)): return v.syms()
    if isinstance(v, Ptr): return v.o.syms()
    if isinstance(v, list):
        s = frozenset()
        for x in v: s |= vsyms(x)
        return s
    return frozenset()
def bite(c, a, b):
    return bor(band(c, a), band(bnot(c), b))
def vite(c, a, b):
    """if-then-else on values; None when not expressible"""
    if vkey(a) == vkey(b): return a
    if c.k == 'true': return a
    if c.k == 'false': return b
    if a is UNDEF: return b
    if b is UNDEF: return a
    if isinstance(a, Poly) and isinstance(b, Poly): return ite(c, a, b)
    if isinstance(a, B) and isinstance(b, B): return bite(c, a, b)
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r == b.r: return Ptr(a.r, ite(c, a.o, b.o))
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        r = [vite(c, x, y) for x, y in zip(a, b)]
        return None if any(x is None for x in r) else r
    return None

UNKS = set()      # unknowns of provisional loop rounds (never part of a finished summary)
class NM:
    """deterministic naming counter: reset at the start of every loop-summary round, so that two rounds
    with the same inputs produce literally the same terms"""
    n = 0

def vites(brs, vals):
    """merge values along the branch tree spanned by the branch lists; None when not expressible"""
    def go(idx, d):
        v = vals[idx[0]]; kv = vkey(v)
        if all(vkey(vals[i]) == kv for i in idx[1:]): return v
        while True:
            c = brs[idx[0]][d] if d < len(brs[idx[0]]) else None
            if all((brs[i][d] if d < len(brs[i]) else None) == c for i in idx[1:]):
                if c is None: return None
                d += 1; continue
            break
        groups = {}
        for i in idx: groups.setdefault(brs[i][d] if d < len(brs[i]) else TRUE, []).append(i)
        gs = list(groups.items())
        if len(gs) == 2 and gs[0][0].k in ('not', 'ne', 'or', 'true'): gs.reverse()
        out = go(gs[-1][1], d + 1)
        if out is None: return None
        for c, ii in gs[-2::-1]:
            w = go(ii, d + 1)
            if w is None: return None
            out = vite(c, w, out)
            if out is None: return None
        return out
    return go(list(range(len(vals))), 0)

_fnid = {}          # function symbol -> naming index (for skolemisation)
def newfun(base):
    NM.n += 1
    nm = '%s#%d' % (base, NM.n)
    _fnid[nm] = NM.n; return nm
_symstamp = {}
def newsym(name, sort='I', lo=None, hi=None):
    NM.n += 1
    b = '' if lo is None and hi is None else '[%s,%s]' % (lo, hi)
    s = sym('%s%s~%d' % (name, b, NM.n), sort, lo, hi)
    _symstamp[atom_of(s).id] = NM.n
    return s

def skolemize(p, mark, k, keep):
    """rename symbols / functions created after `mark` into functions of k"""
    memo = {}
    def go(q):
        r = memo.get(q)
        if r is not None: return r
        r = ZERO
        for m, c in q.d.items():
            t = P(c)
            for a, e in m:
                x = goa(T._byid[a])
                for _ in range(e): t = t * x
            r = r + t
        memo[q] = r
        return r
    def goa(at):
        kd = at.kind
        if kd == 'sym':
            if at.id in keep or _symstamp.get(at.id, -1) < mark: return P(at)
            nm = 'sk_' + at.args[0]
            _fnid[nm] = _symstamp[at.id]
            r = app(nm, [k], at.sort)
            ra = atom_of(r)
            if at.lo is not None: ra.lo = at.lo
            if at.hi is not None: ra.hi = at.hi
            return r
        if kd == 'sel':
            fn, args = at.args
            args2 = [go(x) for x in args]
            if _fnid.get(fn, -1) >= mark and fn not in keep:
                _fnid[fn + "'"] = _fnid[fn]
                r = app(fn + "'", args2 + [k], at.sort); ra = atom_of(r)
                if at.lo is not None: ra.lo = at.lo
                if at.hi is not None: ra.hi = at.hi
                return r
            return app(fn, args2, at.sort)
        if kd == 'inv': return inv(go(at.args[0]))
        if kd == 'div': return idiv(go(at.args[0]), go(at.args[1]))
        if kd == 'ite': return ite(gob(at.args[0]), go(at.args[1]), go(at.args[2]))
        if kd == 'abs': return pabs(go(at.args[0]))
        if kd == 'floor': return floor_(go(at.args[0]))
        if kd == 'sum':
            v, lo, hi, body = at.args
            return psum(P(T._byid[v]), go(lo), go(hi), go(body))
        return P(at)
    def gob(b):
        kd = b.k
        if kd == 'le': return le(go(b.a[0]))
        if kd == 'lt': return lt(go(b.a[0]))
        if kd == 'eq': return eq0(go(b.a[0]))
        if kd == 'ne': return ne0(go(b.a[0]))
        if kd == 'and': return band(*[gob(x) for x in b.a])
        if kd == 'or': return bor(*[gob(x) for x in b.a])
        if kd == 'not': return bnot(gob(b.a[0]))
        if kd == 'atom':
            nm = b.a[0]
            args = [go(x) if isinstance(x, Poly) else x for x in b.a[1:]]
            if _fnid.get(nm, -1) >= mark: return B('atom', (nm + "'",) + tuple(args) + (k,))
            return B('atom', (nm,) + tuple(args))
        return b
    if isinstance(p, Poly): return go(p)
    if isinstance(p, B): return gob(p)
    if isinstance(p, Ptr): return Ptr(p.r, go(p.o))
    if isinstance(p, list): return [skolemize(x, mark, k, keep) for x in p]
    return p

def needs_skolem(v, mark, keep):
    ids = set()
    def scan(x):
        if isinstance(x, Poly): deep_atoms_p(x, ids)
        elif isinstance(x, B): deep_atoms_b(x, ids); scanb(x)
        elif isinstance(x, Ptr): deep_atoms_p(x.o, ids)
        elif isinstance(x, list):
            for y in x: scan(y)
    hit = [False]
    def scanb(b):
        if b.k == 'atom' and _fnid.get(b.a[0], -1) >= mark: hit[0] = True
        for x in b.a:
            if isinstance(x, B): scanb(x)
    scan(v)
    if hit[0]: return True
    for i in ids:
        at = T._byid[i]
        if at.kind == 'sym' and _symstamp.get(i, -1) >= mark and i not in keep: return True
        if at.kind == 'sel' and _fnid.get(at.args[0], -1) >= mark and at.args[0] not in keep: return True
    return False

# the quiet NaN constant: absorbs arithmetic, unordered in comparisons; a choice between it and a number is not supported
NANV = app('NAN', [])
_nanid = NANV.single_atom().id
def isnanv(x):
    if not isinstance(x, Poly): return False
    if x == NANV: return True
    if _nanid in x.atoms() or any(T._byid[a].kind in ('ite', 'sel') and _nan_in(T._byid[a]) for a in x.atoms()): raise Incomplete('NaN mixed into a number')
    return False
_nanin = {}
def _nan_in(at):
    r = _nanin.get(at.id)
    if r is None:
        r = False
        for y in at.args:
            for z in (y if isinstance(y, tuple) else (y,)):
                if isinstance(z, Poly) and any(a == _nanid or (T._byid[a].kind in ('ite', 'sel') and _nan_in(T._byid[a])) for a in z.atoms()): r = True
        _nanin[at.id] = r
    return r

_dblc = {}
def dconst(tok):
    """LLVM double literal -> rational (simplest rational / shortest decimal that rounds to it)"""
    r = _dblc.get(tok)
    if r is not None: return r
    if tok.startswith('0x'):
        d = struct.unpack('>d', bytes.fromhex(tok[2:].rjust(16, '0')))[0]
    else: d = float(tok)
    if d != d: r = app('NAN', [])
    elif d in (float('inf'), float('-inf')):
        r = app('INF', []) if d > 0 else -app('INF', [])
    else:
        f = None
        ex = Fraction(d)
        if ex.denominator == 1 and abs(ex) < 2**53: f = ex
        else:
            g = ex.limit_denominator(4096)
            if g != 0 and g.numerator / g.denominator == d: f = g
            else: f = Fraction(repr(d))
        r = P(f)
    _dblc[tok] = r
    return r

class Obl:
    __slots__ = ('name', 'ok', 'detail', 'where')
    def __init__(self, name, ok, detail='', where=''):
        self.name = name; self.ok = ok; self.detail = detail; self.where = where

MAXCALL = 60

class Exec:
    def __init__(self, mods, prover=None):
        self.mods = mods if isinstance(mods, list) else [mods]
        self.pr = prover or Prover()
        self.regions = {}
        self.nreg = 0
        self.globreg = {}
        self.models = []          # (regex, fn)
        self.model_cache = {}
        self.obls = []
        self.mute = 0
        self.functions = {}       # demangled -> times executed (functions under contract / inlined)
        self.trusted = {}         # models used
        self.loops = {}           # (func, header) -> how handled
        self.stack = []
        self.warm = {}
        self.tri_cache = {}
        self.deadline = None
        self.steps = 0
        self.unroll_limit = 3000
        self.check_bounds = True
        self.deep = False
        self.loop_hooks = []      # fn(ex, f, L, ctx) -> extra invariant candidates
        self.bounded = set()
        self.brlog = None
        self.optimistic = frozenset()
        import models
        models.install(self)

    # -------------------------------------------------------------- infrastructure
    def find(self, name):
        for m in self.mods:
            f = m.funcs.get(name)
            if f: return m, f
            g = m.globals.get('@' + name.lstrip('@')) or m.globals.get(name)
            if g and g[0] == 'alias' and g[1][0] == 'g' and g[1][1] != name:
                r = self.find(g[1][1])
                if r: return r
        return None
    def find_dem(self, dem):
        """function by demangled name; `dem` may be a regex if it starts with ^"""
        for m in self.mods:
            if dem.startswith('^'):
                c = [f for f in m.funcs.values() if re.match(dem, f.demangled)]
                if c: return m, c[0]
            else:
                f = m.by_dem.get(dem)
                if f and f.name in m.funcs: return m, f
        raise Incomplete('function not found in the current tree: %s' % dem)
    def model(self, pat, fn):
        self.models.insert(0, (re.compile(pat), fn)); self.model_cache.clear()

    def region(self, kind, size, base, name, align=16, ro=False):
        self.nreg += 1
        r = Region(self.nreg, kind, P(size), base, name, align, ro)
        self.regions[r.id] = r
        return r
    def alloc(self, st, kind, size, name, base=('undef',), align=16):
        r = self.region(kind, size, base, name, align)
        if base[0] == 'undef' : r.base = ('undef', newfun('undef_%s' % name))
        if kind == 'heap': st.heap = st.heap + (r.id,)
        return Ptr(r.id, ZERO)

    def obligation(self, st, goal, name, detail=None):
        if self.mute: return True
        if goal.k == 'true':
            self.obls.append(Obl(name, True, 'trivial', self.where())); return True
        ok = self.pr.valid(st.pc, goal)
        if not ok and self.pr.inconsistent(st.pc): ok = True
        self.obls.append(Obl(name, ok, '' if ok else (detail or repr(goal))[:1500], self.where()))
        return ok
    def where(self):
        return ' < '.join(reversed(self.stack[-3:]))

    def tri(self, st, c):
        if c.k == 'true': return True
        if c.k == 'false': return False
        if self.pr.valid(st.pc, c, nl=False, nofa=True): return True
        if self.pr.valid(st.pc, bnot(c), nl=False, nofa=True): return False
        return None
    def decide(self, st, c):
        r = self.tri(st, c)
        if r is None: raise Fork(c)
        return r

    def floor(self, st, v):
        r = floor_(v); f = r.single_floor()
        if f is not None and self.pr.valid(st.pc, band(f.args[0] >= ZERO, f.args[0] < ONE), nl=False, nofa=True): return r - P(f)
        return r
    def fdiv(self, st, x, y):
        """x/y; an atom d of y = k*d, d known not to be zero, is cancelled against the terms of x that contain it"""
        if y.is_const() or len(y.d) != 1: return x * inv(y)
        (m, k), = y.d.items()
        if len(m) != 1 or m[0][1] != 1: return x * inv(y)
        i = m[0][0]; A = P(T.atom(i))
        if T.atom(i).kind == 'inv' or not any(a == i for n in x.d for a, _ in n): return x * inv(y)
        if not (self.pr.valid(st.pc, A > ZERO, nl=False, nofa=True) or self.pr.valid(st.pc, ne0(A), nl=False, nofa=True)): return x * inv(y)
        q = {}; rest = {}
        for n, c in x.d.items():
            if any(a == i for a, _ in n): q[tuple((a, e - (a == i)) for a, e in n if (a, e) != (i, 1))] = c
            else: rest[n] = c
        return Poly(q) * P(Fraction(1) / Fraction(k)) + Poly(rest) * inv(y)

    # -------------------------------------------------------------- integers
    def rng(self, st, p, lo, hi):
        """is lo <= p < hi provable"""
        if p.is_const(): return lo <= p.const() < hi
        b = quick_range(p)
        if b[0] is not None and b[1] is not None and b[0] >= lo and b[1] < hi: return True
        return self.pr.valid(st.pc, P(lo) <= p, nl=True) and self.pr.valid(st.pc, p < P(hi), nl=True)
    def U(self, st, p, n):
        if p is UNDEF: return UNDEF
        if p.is_const(): return P(p.const() % (1 << n))
        if self.rng(st, p, 0, 1 << n): return p
        if self.optimistic and p.syms() & self.optimistic: return p
        # a definite shift by +-2^n is common (negative ints read as unsigned)
        if self.rng(st, p, -(1 << n), 0): return p + (1 << n)
        return imod(p, P(1 << n))
    def S(self, st, p, n):
        if p is UNDEF: return UNDEF
        h = 1 << (n - 1)
        if p.is_const(): return P((p.const() + h) % (1 << n) - h)
        if self.rng(st, p, -h, h): return p
        if self.optimistic and p.syms() & self.optimistic: return p
        if self.rng(st, p, h, 3 * h): return p - (1 << n)
        return imod(p + h, P(1 << n)) - h
    def moddiff_zero(self, st, d, n):
        """condition that d == 0 mod 2^n"""
        if d.is_const(): return bconst(d.const() % (1 << n) == 0)
        b = quick_range(d)
        M = 1 << n
        if b[0] is not None and b[1] is not None and b[0] > -M and b[1] < M: return eq0(d)
        if self.rng(st, d, -M + 1, M): return eq0(d)
        if self.optimistic and d.syms() & self.optimistic: return eq0(d)
        if self.rng(st, d, 1, 2 * M): return eq0(d - M)
        if self.rng(st, d, -2 * M + 1, 0): return eq0(d + M)
        return eq0(imod(d, P(M)))

    # -------------------------------------------------------------- values
    def const(self, st, v, ty, mod):
        k = v[0]
        if k == 'ci':
            if ty.k == 'int' and ty.a == 1: return bconst(v[1] & 1)
            return P(v[1])
        if k == 'cf':
            if ty.k == 'double': return dconst(v[1])
            if ty.k == 'float': return dconst(v[1])
            return dconst(v[1]) if v[1].startswith('0x') and len(v[1]) <= 18 else app('const_' + v[1], [])
        if k == 'null': return NULL
        if k in ('undef', 'poison'):
            return self.zeroval(ty, mod, UNDEF)
        if k == 'zero': return self.zeroval(ty, mod)
        if k == 'g': return self.globptr(st, v[1], mod)
        if k == 'agg': return [self.const(st, x, t, mod) for t, x in v[2]]
        if k == 'ce':
            op = v[1]
            if op == 'gep':
                base = self.const(st, v[3], PTR, mod)
                return self.gep(st, v[2], base, [(t, self.const(st, x, t, mod)) for t, x in v[4]], mod)
            if op in ('bitcast', 'addrspacecast', 'ptrtoint', 'inttoptr', 'trunc', 'zext', 'sext'):
                x = self.const(st, v[3], v[2], mod)
                return self.cast(st, op, v[2], x, v[4], mod)
            if op in ('add', 'sub', 'mul'):
                a = self.const(st, v[3], v[2], mod); b = self.const(st, v[4], v[2], mod)
                return a + b if op == 'add' else a - b if op == 'sub' else a * b
        raise Incomplete('constant %r' % (v,))
    def zeroval(self, ty, mod, leaf=None):
        r = mod.resolve(ty)
        if r.k == 'struct': return [self.zeroval(t, mod, leaf) for t in r.a]
        if r.k == 'arr': return [self.zeroval(r.b, mod, leaf) for _ in range(r.a)]
        if leaf is not None: return leaf
        if r.k == 'ptr': return NULL
        if r.k == 'int' and r.a == 1: return FALSE
        return ZERO
    def never_written(self, mod, name):
        """a variable of one file whose every use in that file is a load keeps its initial value"""
        if mod.written is None:
            mod.written = set()
            for f in mod.funcs.values():
                for ln in f.lines:
                    if '@' in ln and not re.match(r'\s*%\S+ = load ', ln): mod.written.update(re.findall(r'@(?:"[^"]*"|[-\w.$]+)', ln))
            for nm, g in mod.globals.items():
                if g[0] == 'var': mod.written.update(re.findall(r"\('g', '(@[^']*)'", repr(g[2])))
        return name not in mod.written
    def globptr(self, st, name, mod):
        for m in self.mods:
            if name in m.funcs: return Fn(name)
        if name in mod.decls: return Fn(name)
        gkey = name if name not in mod.local else '%s#%d' % (name, self.mods.index(mod))
        r = self.globreg.get(gkey)
        if r is None:
            g = None
            for m in [mod] + self.mods:
                h = m.globals.get(name)
                if h is None: continue
                g = h
                if g[0] == 'alias' or g[0] == 'var' and g[2] is not None: break
            if g is None: raise Incomplete('global %s' % name)
            if g[0] == 'alias': return self.const(st, g[1], PTR, mod)
            if g[0] != 'var': raise Incomplete('global %s: %s' % (name, g))
            size = mod.size(g[1]) if mod.resolve(g[1]).k != 'opaque' else 8
            base = ('init', g, mod) if (g[2] is not None and g[3]) else ('undef', newfun('glob'))
            # a variable no instruction writes or passes on keeps its initial value (one with external linkage: as far as the verified sources go)
            if base[0] == 'undef' and g[2] is not None and all(self.never_written(m, name) for m in ([mod] if name in mod.local else self.mods) if name in m.globals): base = ('init', g, mod)
            elif g[2] is not None and not g[3]: base = ('undef', newfun('glob_' + name.strip('@')))
            if name.lstrip('@"').startswith('_ZGV') and g[2] is not None: base = ('init', g, mod)     # guards start at zero; the guarded object may not change after its initialisation (checked at stores)
            rg = self.region('global', size, base, name, ro=bool(g[3]))
            r = rg.id; self.globreg[gkey] = r
        return Ptr(r, ZERO)
    def val(self, st, env, v, ty, mod):
        if v[0] == 'l':
            try: return env[v[1]]
            except KeyError: raise Incomplete('undefined local %s' % v[1])
        return self.const(st, v, ty, mod)

    def gep(self, st, et, base, idx, mod):
        if base is UNDEF: return UNDEF
        if not isinstance(base, Ptr): raise Incomplete('gep on %r' % (base,))
        off = base.o; t = et
        for n, (it, v) in enumerate(idx):
            if v is UNDEF: return UNDEF
            if n == 0:
                off = off + self.S(st, v, it.a) * mod.size(et)
                continue
            r = mod.resolve(t)
            if r.k == 'struct':
                i = int(v.const()); off = off + mod.field_off(t, i); t = r.a[i]
            elif r.k == 'arr':
                t = r.b; off = off + self.S(st, v, it.a) * mod.size(t)
            else: raise Incomplete('gep into %r' % r)
        return Ptr(base.r, off)

    def addr(self, rid):
        if rid == 0: return ZERO
        r = self.regions[rid]
        if r.addr is None:
            q = newsym('addr_%s' % r.name, 'I', 1, (1 << 47))
            r.addr = q * r.align if r.align else q
            self.addrs = getattr(self, 'addrs', {}); self.addrs[atom_of(q).id] = (rid, r.align or 1)
        return r.addr
    def cast(self, st, op, ft, v, tt, mod):
        if v is UNDEF: return UNDEF
        if op in ('bitcast', 'addrspacecast'): return v
        if op == 'ptrtoint':
            if isinstance(v, Ptr): return self.addr(v.r) + v.o
            raise Incomplete('ptrtoint %r' % (v,))
        if op == 'inttoptr':
            for a in v.atoms():
                h = getattr(self, 'addrs', {}).get(a)
                if h and v.d.get(((a, 1),), 0) == h[1]:
                    return Ptr(h[0], v - P(T._byid[a]) * h[1])
            if not v.d: return NULL
            ds = set(); deep_atoms_p(v, ds)
            own = {h[0]: h[1] for a, h in getattr(self, 'addrs', {}).items() if a in ds}
            if len(own) == 1:      # an address computed from one object only (rounded to an alignment, say): provenance is that object
                rid = next(iter(own))
                return Ptr(rid, v - self.addr(rid))
            raise Incomplete('inttoptr %r' % (v,))
        if op == 'trunc':
            if tt.a == 1:
                if isinstance(v, B): return v
                if v.is_const(): return bconst(v.const() & 1)
                a = v.single_atom()
                if a is not None and a.kind == 'ite' and a.args[1] == ONE and a.args[2] == ZERO: return a.args[0]
                return ne0(imod(v, P(2)))
            return v
        if op == 'zext':
            if ft.a == 1: return ite(v, ONE, ZERO)
            return self.U(st, v, ft.a)
        if op == 'sext':
            if ft.a == 1: return ite(v, P(-1), ZERO)
            return self.S(st, v, ft.a)
        if op in ('fpext', 'fptrunc'): return v
        if op == 'uitofp': return self.U(st, v, ft.a) if ft.a > 1 else ite(v, ONE, ZERO)
        if op == 'sitofp': return self.S(st, v, ft.a)
        if op in ('fptoui', 'fptosi'):      # towards zero; undefined when the result is not representable
            lo, hi = (-1, 1 << tt.a) if op == 'fptoui' else (-(1 << (tt.a - 1)) - 1, 1 << (tt.a - 1))
            if isnanv(v): self.obligation(st, FALSE, 'conversion to integer in range', 'NaN'); raise Dead()
            self.obligation(st, band(P(lo) < v, v < P(hi)), 'conversion to integer in range')
            st.assume(band(P(lo) < v, v < P(hi)))
            if v.is_int(): return v
            if self.pr.valid(st.pc, v >= ZERO, nl=False, nofa=True): return self.floor(st, v)
            return ite(v >= ZERO, floor_(v), ZERO if op == 'fptoui' else -floor_(-v))
        raise Incomplete(op)

    # -------------------------------------------------------------- memory
    def check_access(self, st, p, size, what, write=False):
        if not isinstance(p, Ptr): raise Incomplete('%s through %r' % (what, p))
        if p.r == 0:
            if not self.mute:
                ok = self.pr.inconsistent(st.pc)
                self.obls.append(Obl('no null dereference', ok, '%s at null+%r' % (what, p.o), self.where()))
            raise Dead()
        r = self.regions[p.r]
        if p.r in st.dead:
            if not self.mute:
                ok = self.pr.inconsistent(st.pc)
                self.obls.append(Obl('no use after free', ok, '%s of %r' % (what, r), self.where()))
            raise Dead()
        if write and p.r in st.ghost.get('frozen', ()): raise Incomplete('static local %s changes after its initialisation' % r.name)
        if not self.check_bounds: return
        if self.mute:
            # provisional round: assume what the final round has to prove
            if not (p.o.is_const() and r.size.is_const()) and not (p.o.syms() & UNKS):
                g = band(P(0) <= p.o, p.o + size <= r.size)
                if g.k == 'false': raise Dead()
                st.assume(g)
            return
        if p.o.is_const() and r.size.is_const() and 0 <= p.o.const() and p.o.const() + size <= r.size.const():
            self.obls.append(Obl('memory access in bounds', True, 'trivial', self.where())); return
        g = band(P(0) <= p.o, p.o + size <= r.size)
        ok = self.obligation(st, g, 'memory access in bounds', '%s of %d bytes at %r+%r (size %r)' % (what, size, r, p.o, r.size))
        if write and r.ro:
            self.obls.append(Obl('no write to constant memory', False, repr(r), self.where()))
        if ok:
            st.assume(g)

    def tyinfo(self, ty, mod):
        r = mod.resolve(ty)
        return r
    def load(self, st, ty, p, mod):
        r = mod.resolve(ty)
        if r.k in ('struct', 'arr'):
            out = []
            if r.k == 'struct':
                for i, t in enumerate(r.a): out.append(self.load(st, t, Ptr(p.r, p.o + mod.field_off(ty, i)), mod))
            else:
                es = mod.size(r.b)
                for i in range(r.a): out.append(self.load(st, r.b, Ptr(p.r, p.o + i * es), mod))
            return out
        size = mod.size(ty)
        self.check_access(st, p, size, 'load')
        if p.o.syms() & UNKS:
            # provisional round of a loop summary: the address itself is not solved yet
            try: v = self.read(st, p.r, st.mem.get(p.r), p.o, size, r)
            except Incomplete:
                if r.k == 'ptr': raise
                v = app('prov%d_%s' % (p.r, r.k), [p.o], 'I' if r.k == 'int' else 'R')
        else: v = self.read(st, p.r, st.mem.get(p.r), p.o, size, r)
        if r.k == 'int' and r.a == 1 and isinstance(v, Poly): v = ne0(v)
        if r.k == 'int' and r.a > 1 and isinstance(v, B): v = ite(v, ONE, ZERO)
        return v
    def store(self, st, ty, v, p, mod):
        r = mod.resolve(ty)
        if r.k in ('struct', 'arr'):
            if r.k == 'struct':
                for i, t in enumerate(r.a): self.store(st, t, v[i] if v is not UNDEF else UNDEF, Ptr(p.r, p.o + mod.field_off(ty, i)), mod)
            else:
                es = mod.size(r.b)
                for i in range(r.a): self.store(st, r.b, v[i] if v is not UNDEF else UNDEF, Ptr(p.r, p.o + i * es), mod)
            return
        size = mod.size(ty)
        self.check_access(st, p, size, 'store', True)
        self.write(st, p.r, p.o, size, v, r.k)
    def write(self, st, rid, off, size, v, tk):
        st.log_write(rid, Ent('pt', off, size, v, tk))

    def off_rel(self, st, d, size, esize):
        """relation of an access of `size` at distance d from an entry of `esize`: 'same','no',cond"""
        if d.is_const():
            c = d.const()
            if c == 0 and size == esize: return 'same'
            if c >= esize or c <= -size: return 'no'
            if c == 0 : return 'part'
            return 'part'
        g = min(size, esize)
        al = all(isinstance(c, int) and c % g == 0 for c in d.d.values())
        if al and size == esize:
            c = eq0(d)
            if c.k == 'false': return 'no'
            t = self.tri(st, c)
            if t is True: return 'same'
            if t is False: return 'no'
            return c
        # possibly partial: must prove disjoint
        if self.pr.valid(st.pc, bor(P(esize) <= d, d <= P(-size))): return 'no'
        # residue argument
        k = d.d.get((), 0)
        gg = 0
        from math import gcd
        for m, c in d.d.items():
            if m and isinstance(c, int): gg = gcd(gg, c)
        if gg > 0:
            res = k % gg
            if res >= esize and res <= gg - size: return 'no'
            if res == 0 and size == esize and gg >= size:
                c = eq0(d); t = self.tri(st, c)
                return 'same' if t is True else 'no' if t is False else c
        raise Incomplete('undecided overlap at distance %r (sizes %d/%d)' % (d, size, esize))

    def fam_apart(self, st, e, off, size):
        """no member of the family overlaps [off, off+size)"""
        rng = []
        for p, lo, hi in e.params: rng += [lo <= p, p < hi]
        rng.append(e.guard)
        return self.pr.valid(list(st.pc) + rng, bor(off + size <= e.off, off >= e.off + e.size))

    def famsolve(self, st, e, off, size):
        """solve e.off(params)==off.  returns (cond, mapping) / None (no match) """
        d = off
        b = subst(e.off, {atom_of(p).id: ZERO for p, lo, hi in e.params})
        strides = []
        for p, lo, hi in e.params:
            a = atom_of(p).id
            s = ZERO
            for m, c in e.off.d.items():
                md = dict(m)
                if a in md:
                    if md[a] != 1: raise Incomplete('non-affine family')
                    md.pop(a)
                    s = s + Poly({tuple(sorted(md.items())): c})
            strides.append((p, lo, hi, s))
        strides.sort(key=lambda x: (max((sum(e for _, e in m) for m in x[3].d), default=0), abs(x[3].const()) if x[3].is_const() else 0), reverse=True)
        rem = off - b
        mp = {}; cond = []
        ids = {atom_of(p).id for p, _, _ in e.params}
        for n, (p, lo, hi, s) in enumerate(strides):
            if s.syms() & ids: raise Incomplete('non-affine family')
            if not s.d: raise Incomplete('family parameter without stride')
            last = n == len(strides) - 1
            if s.is_const():
                c = s.const()
                q = Poly({m: v // c for m, v in rem.d.items() if isinstance(v, int) and v % c == 0})
                r = rem - q * c
                if r.is_const() or not r.d:
                    k = r.const()
                    if last:
                        kk = k % abs(c)
                        if kk == 0: pass
                        elif kk >= e.size and kk + size <= abs(c): return None
                        elif self.fam_apart(st, e, off, size): return None
                        else: raise Incomplete('partial overlap with family: residue %d' % kk)
                        rem = P(0)
                    else:
                        rem = r
                else:
                    if last:
                        # q' = idiv
                        q2 = idiv(rem, P(c)); cond.append(eq0(rem - q2 * c)); q = q2; rem = ZERO
                    else: rem = r
            else:
                q, r = polydivmod(rem, s)
                if q is None: raise Incomplete('family stride')
                rem = r
                if last and rem.d:
                    # same location iff remainder zero; try to prove impossible / else give up
                    if self.pr.valid(st.pc, ne0(rem)):
                        return None
                    raise Incomplete('family remainder %r for stride %r' % (rem, s))
            mp[atom_of(p).id] = q
        # borrow adjustment for mixed radix: prefer a quotient whose lower parameter is in range
        if len(strides) == 2:
            (p1, lo1, hi1, s1), (p2, lo2, hi2, s2) = strides
            if not s1.is_const() or s2.is_const():
                q1 = mp[atom_of(p1).id]; q2 = mp[atom_of(p2).id]
                cq, cr = polydivmod(s1, s2)
                if cq is not None and not cr.d:
                    h2 = subst(hi2, {atom_of(p1).id: q1}); 
                    if not self.pr.valid(st.pc, band(subst(lo2, {atom_of(p1).id: q1}) <= q2, q2 < h2)):
                        for adj in (1, -1):
                            a1 = q1 + adj; a2 = q2 - cq * adj
                            m1 = {atom_of(p1).id: a1}
                            if self.pr.valid(st.pc, band(subst(lo2, m1) <= a2, a2 < subst(hi2, m1))):
                                mp = {atom_of(p1).id: a1, atom_of(p2).id: a2}; break
        c = [subst(e.off, mp) == off and TRUE or eq0(subst(e.off, mp) - off)]
        for p, lo, hi in e.params:
            v = mp[atom_of(p).id]
            c.append(subst(lo, mp) <= v); c.append(v < subst(hi, mp))
        c.append(substb(e.guard, mp))
        return band(*(cond + c)), mp

    def match(self, st, e, off, size):
        """'no' or (cond, value)   (cond TRUE when certain)"""
        if e.kind == 'pt':
            if not e.params:
                rel = self.off_rel(st, off - e.off, size, e.size)
                if rel == 'no': return 'no'
                if rel == 'part':
                    g = self.tri(st, e.guard)
                    if g is False: return 'no'
                    return ('part', e)
                c = band(TRUE if rel == 'same' else rel, e.guard)
                t = self.tri(st, c)
                if t is False: return 'no'
                return (TRUE if t else c, e.val)
            r = self.famsolve(st, e, off, size)
            if r is None: return 'no'
            c, mp = r
            t = self.tri(st, c)
            if t is False: return 'no'
            if size != e.size: raise Incomplete('size mismatch reading family')
            return (TRUE if t else c, vsubst(e.val, mp))
        if e.kind in ('copy', 'fill', 'havoc'):
            if e.params:
                raise Incomplete('%s inside summarised loop' % e.kind)
            ln = e.size
            c = band(e.off <= off, off + size <= e.off + ln)
            d = off - e.off
            t = self.tri(st, c)
            if t is None:
                # disjoint?
                n = bor(off + size <= e.off, e.off + ln <= off)
                if self.tri(st, n) is True: return 'no'
            if t is False:
                n = bor(off + size <= e.off, e.off + ln <= off)
                if self.tri(st, n) is True: return 'no'
                raise Incomplete('partial overlap with %s' % e.kind)
            c = band(TRUE if t else c, e.guard)
            t = self.tri(st, c)
            if t is False: return 'no'
            return (TRUE if t else c, ('lazy', e, d))
        raise Incomplete(e.kind)

    def read(self, st, rid, node, off, size, r):
        while node is not None:
            top = node
            e, node = node
            m = self.match(st, e, off, size)
            if m == 'no': continue
            if m[0] == 'part':
                if r.k == 'int' and size in (2, 4, 8) and r.a == 8 * size and not self.covers(e, off, size) and e.kind == 'pt':
                    h = size // 2; t = INT(8 * h)     # the integer is put together from its two halves
                    lo, hi = self.read(st, rid, top, off, h, t), self.read(st, rid, top, off + h, h, t)
                    if lo is UNDEF or hi is UNDEF: return UNDEF
                    return self.U(st, lo, 8 * h) + self.U(st, hi, 8 * h) * (1 << 8 * h)
                v = self.part_read(st, e, off, size, r)
                return v
            c, v = m
            if isinstance(v, tuple) and v and v[0] == 'lazy':
                v = self.lazy(st, v[1], v[2], size, r)
            v = self.retype(v, r)
            if c.k == 'true': return v
            rest = self.read(st, rid, node, off, size, r)
            w = vite(c, v, rest)
            if w is None or r.k == 'ptr': raise Fork(c)
            if v is UNDEF or rest is UNDEF: raise Fork(c)
            return w
        return self.base_read(st, self.regions[rid], off, size, r)
    def covers(self, e, off, size):
        d = off - e.off
        return d.is_const() and isinstance(e.size, int) and 0 <= d.const() and d.const() + size <= e.size
    def part_read(self, st, e, off, size, r):
        d = off - e.off
        if d.is_const() and e.guard.k == 'true':
            c = d.const()
            # narrower int read of a wider constant int store (little endian)
            if 0 <= c and c + size <= e.size and isinstance(e.val, Poly) and r.k == 'int' and e.ty == 'int':
                if e.val.is_const(): return P((int(e.val.const()) >> (8 * c)) & ((1 << (8 * size)) - 1))
                if c == 0: return e.val
            if e.val is UNDEF and self.covers(e, off, size): return UNDEF
            if isinstance(e.val, Poly) and not e.val.d and self.covers(e, off, size): return ZERO if r.k != 'ptr' else NULL
        raise Incomplete('partial overlap read at %r of entry %r' % (off, e))
    def lazy(self, st, e, d, size, r):
        if e.kind == 'fill':
            if e.val == 0: return NULL if r.k == 'ptr' else (FALSE if r.k == 'int' and r.a == 1 else ZERO)
            if r.k == 'int': 
                x = 0
                for i in range(size): x |= e.val << (8 * i)
                return P(x)
            raise Incomplete('fill read')
        if e.kind == 'havoc':
            if r.k == 'ptr': raise Incomplete('pointer read from havoced memory')
            return app(e.val, [d], 'I' if r.k == 'int' else 'R')
        srid, snode, soff = e.extra
        return self.read(st, srid, snode, soff + d, size, r)
    def retype(self, v, r):
        if v is UNDEF: return v
        if r.k == 'int' and r.a == 1 and isinstance(v, Poly): return ne0(v)
        if r.k == 'int' and r.a > 1 and isinstance(v, B): return ite(v, ONE, ZERO)
        if r.k == 'ptr' and isinstance(v, Poly):
            if not v.d: return NULL
            return self.cast(None, 'inttoptr', None, v, None, None)
        if r.k == 'int' and isinstance(v, Ptr): return self.addr(v.r) + v.o
        return v
    def base_read(self, st, reg, off, size, r):
        b = reg.base
        k = b[0]
        if k == 'undef':
            if r.k == 'ptr': return UNDEF
            if r.k == 'int' and r.a == 1: return batom(b[1], off)
            return app(b[1] + ('i' if r.k == 'int' else ''), [off], 'I' if r.k == 'int' else 'R')
        if k == 'zero':
            return NULL if r.k == 'ptr' else ZERO
        if k == 'arr':          # ('arr', fname, esize, kind)
            es = b[2]
            if size != es: raise Incomplete('access size %d in array of %d' % (size, es))
            i = self.exact_div(st, off, es)
            s = 'I' if b[3] == 'int' else 'R'
            v = app(b[1], [i], s)
            if len(b) > 4 and b[4]: b[4](st, v, i)
            return v
        if k == 'sarr':         # ('sarr', stride, {fieldoff: (fname, size, sort)})
            stride = b[1]
            c = off.const() if off.is_const() else off.d.get((), 0)
            fo = c % stride
            if fo not in b[2]: raise Incomplete('field %d' % fo)
            i = self.exact_div(st, off - fo, stride)
            fn, fs, so = b[2][fo]
            if fs != size: raise Incomplete('field size')
            return app(fn, [i], so)
        if k == 'init':
            g, mod = b[1], b[2]
            if not off.is_const():
                # table lookup with symbolic index: enumerate
                rt = mod.resolve(g[1])
                n = mod.size(g[1]) // size
                if n <= 64 and r.k == 'double':
                    v = self.init_read(st, g[1], g[2], 0, r, mod)
                    for i in range(1, n):
                        v = ite(eq(off, P(i * size)), self.init_read(st, g[1], g[2], i * size, r, mod), v)
                    return v
                raise Incomplete('symbolic offset in constant')
            return self.init_read(st, g[1], g[2], off.const(), r, mod)
        if k == 'fun': return b[1](self, st, off, size, r)
        raise Incomplete('base %r' % (b,))
    def exact_div(self, st, off, es):
        if all(isinstance(c, int) and c % es == 0 for c in off.d.values()):
            return Poly({m: c // es for m, c in off.d.items()})
        i = idiv(off, P(es))
        # must be a multiple
        if self.pr.valid(st.pc, eq0(off - i * es)): return i
        raise Incomplete('unaligned index %r / %d' % (off, es))
    def init_read(self, st, ty, v, off, r, mod):
        t = mod.resolve(ty)
        if v[0] == 'zero': return NULL if r.k == 'ptr' else ZERO
        if t.k == 'struct':
            for i, ft in enumerate(t.a):
                o = mod.field_off(ty, i)
                if o <= off < o + mod.size(ft):
                    return self.init_read(st, ft, v[2][i][1], off - o, r, mod)
        if t.k == 'arr':
            es = mod.size(t.b); i = off // es
            if v[0] == 'cstr': return P(v[1][i])
            return self.init_read(st, t.b, v[2][i][1], off - i * es, r, mod)
        return self.const(st, v, ty, mod)

    # -------------------------------------------------------------- calls
    def call(self, st, fname, args, mod=None, inst=None):
        """returns list of (state, kind, value): kind 'ret' | 'exc'"""
        dem = None
        hit = self.find(fname)
        if hit: dem = hit[1].demangled
        else:
            for m in self.mods:
                if fname in m.decls: dem = m.decls[fname].demangled; break
        if dem is None: dem = fname
        mdl = self.model_cache.get(fname)
        if mdl is None:
            mdl = False
            for rx, fn in self.models:
                if rx.match(dem): mdl = fn; break
            self.model_cache[fname] = mdl
        if mdl:
            r = mdl(self, st, args, dict(name=fname, dem=dem, inst=inst, mod=mod, hit=hit))
            if r is not NotImplemented:
                if not self.mute: self.trusted[dem] = self.trusted.get(dem, 0) + 1
                if isinstance(r, list): return r
                return [(st, 'ret', r)]
        if not hit: raise Incomplete('call to undefined function %s' % dem)
        if len(self.stack) > MAXCALL: raise Incomplete('call depth')
        m, f = hit
        return self.run(m, f, args, st)

    def run(self, m, f, args, st):
        parse_body(f, m)
        if f.err: raise Incomplete('cannot parse %s: %s' % (f.demangled, f.err))
        if not self.mute: self.functions[f.demangled] = self.functions.get(f.demangled, 0) + 1
        env = {}
        if len(args) != len(f.params): raise Incomplete('arity of %s' % f.demangled)
        for (t, nm, at), a in zip(f.params, args):
            if 'byval' in at:
                # callee copy
                sz = m.size(at['byval'])
                q = self.alloc(st, 'stack', sz, 'byval')
                self.memcpy(st, q, a, P(sz)); a = q
            env[nm] = a
        loops_of(f)
        self.stack.append(short(f.demangled))
        try:
            base = st.clone() if True else None
            items = [(st, env, f.order[0], None, 0)]
            rets, _, _ = self.walk(m, f, items, None)
        finally:
            self.stack.pop()
        return self.merge_rets(base, rets)

    def merge_rets(self, base, rets):
        rr = [x for x in rets if x[1] == 'ret']
        if len(rr) <= 1: return rets
        mg = self.merge(base, [(s, [v]) for s, k, v in rr])
        if mg is None: return rets
        s, vals = mg
        return [x for x in rets if x[1] != 'ret'] + [(s, 'ret', vals[0])]

    def merge(self, base, alts):
        """alts: [(state, [values])] all extending base.  One merged state, or None"""
        if len(alts) == 1: return alts[0]
        n0 = len(base.br); p0 = set(base.pc)
        s0 = alts[0][0]
        for s, _ in alts[1:]:
            if s.ghost != s0.ghost: return None
            if set(s.heap) - s.dead != set(s0.heap) - s0.dead: return None
            if {r for r in s.dead if r in base.mem or r in base.heap} != {r for r in s0.dead if r in base.mem or r in base.heap}: return None
        brs = [s.br[n0:] for s, _ in alts]
        npre = 0
        while all(len(b) > npre for b in brs) and all(b[npre] == brs[0][npre] for b in brs): npre += 1
        common = brs[0][:npre]
        brs = [b[npre:] for b in brs]
        conds = [band(*b) for b in brs]
        nv = len(alts[0][1])
        vals = []
        for i in range(nv):
            v = vites(brs, [vs[i] for _, vs in alts])
            if v is None: return None
            vals.append(v)
        out = base.clone()
        for b in common: out.branch(b)
        allpc = set(alts[0][0].pc)
        for s, _ in alts[1:]: allpc &= set(s.pc)
        for f in alts[0][0].pc:
            if f in allpc and f not in p0: out.assume(f)
        p0 = p0 | allpc
        out.heap = s0.heap
        for s, _ in alts[1:]:
            out.heap = out.heap + tuple(h for h in s.heap if h not in out.heap)
        d = s0.dead
        for s, _ in alts: d = d | s.dead
        out.dead = d
        out.ghost = dict(s0.ghost)
        for (s, _), c in zip(alts, conds):
            brs2 = set()
            for b in s.br[n0:]:
                brs2.add(b)
                if b.k == 'and': brs2 |= set(b.a)
            for f in s.pc:
                if f in p0 or f in brs2: continue
                if isinstance(f, Forall): out.pc.append(Forall(f.vars, band(f.guard, c), f.body, f.trigs, f.name))
                else:
                    g = implies(c, f)
                    if g.k != 'true' and g not in out.pc: out.pc.append(g)
        # facts common to all alternatives that are branch facts stay known as a disjunction
        dj = bor(*conds)
        if dj.k != 'true' and len(conds) <= 6: out.assume(dj)
        # memory
        regs = set()
        for s, _ in alts: regs |= set(s.mem)
        for r in regs:
            b = base.mem.get(r)
            if all(s.mem.get(r) is b for s, _ in alts): continue
            if r in d and r not in base.mem and self.regions[r].kind in ('stack',): continue
            deltas = [delta(s.mem.get(r), b) for s, _ in alts]
            # pointwise merge when the last writes hit the same constant offsets
            node = b
            keys = None
            if all(all(e.kind == 'pt' and not e.params and e.guard.k == 'true' and e.off.is_const() for e in dl) for dl in deltas):
                fin = []
                for dl in deltas:
                    x = {}
                    for e in dl: x.pop((e.off, e.size), None); x[(e.off, e.size)] = e
                    fin.append(x)
                ks = []
                for x in fin:
                    for kk in x:
                        if kk not in ks: ks.append(kk)
                okm = True; ents = []
                for kk in ks:
                    if all(kk in x for x in fin):
                        v = vites(brs, [x[kk].val for x in fin])
                        if v is not None:
                            ents.append(Ent('pt', kk[0], kk[1], v, fin[0][kk].ty)); continue
                    for x, c in zip(fin, conds):
                        if kk in x:
                            e = x[kk]; ents.append(Ent('pt', e.off, e.size, e.val, e.ty, c))
                for e in ents: node = (e, node)
            elif len({len(dl) for dl in deltas}) == 1 and all(len({(e.kind, e.params, e.off, e.size, e.extra) for e in col}) == 1 for col in zip(*deltas)) and \
                    all(vites(brs, [e.val for e in col]) is not None for col in zip(*deltas) if col[0].kind == 'pt'):
                for col in zip(*deltas):
                    e = col[0]
                    g = vites(brs, [x.guard for x in col])
                    node = (Ent(e.kind, e.off, e.size, vites(brs, [x.val for x in col]) if e.kind == 'pt' else e.val, e.ty, g, e.params, e.extra), node)
            else:
                for dl, c in zip(deltas, conds):
                    for e in dl:
                        node = (Ent(e.kind, e.off, e.size, e.val, e.ty, band(c, e.guard), e.params, e.extra), node)
            out.mem[r] = node
        return out, vals

    def memcpy(self, st, d, s, ln):
        if ln.is_const() and ln.const() == 0: return
        if not isinstance(d, Ptr) or not isinstance(s, Ptr): raise Incomplete('memcpy of %r' % ((d, s),))
        if not ln.is_const() and self.tri(st, eq0(ln)) is True: return
        if d.r == 0 or s.r == 0:
            t = self.tri(st, eq0(ln))
            if t is None: raise Fork(eq0(ln))
            if t: return
        if not self.mute:
            for p, w in ((d, 'memcpy destination'), (s, 'memcpy source')):
                rg = self.regions[p.r]
                if p.r in st.dead: self.obls.append(Obl('no use after free', self.pr.inconsistent(st.pc), w, self.where()))
                self.obligation(st, implies(ln > ZERO, band(P(0) <= p.o, p.o + ln <= rg.size)), 'memory access in bounds', '%s %r+%r len %r (size %r)' % (w, rg, p.o, ln, rg.size))
        if ln.is_const() and ln.const() <= 1024:
            pts = self.expand_copy(st, s, int(ln.const()))
            if pts is not None:
                for o, sz, v, tk in pts: st.log_write(d.r, Ent('pt', d.o + o, sz, v, tk))
                return
        st.log_write(d.r, Ent('copy', d.o, ln, None, None, TRUE, (), (s.r, st.mem.get(s.r), s.o)))
    def expand_copy(self, st, s, ln):
        """the scalars stored in [s, s+ln), when their layout is known"""
        node = st.mem.get(s.r); got = {}
        cover = [False] * ln
        while node is not None:
            e, node = node
            if e.kind == 'pt' and not e.params and e.guard.k == 'true':
                dd = e.off - s.o
                if not dd.is_const():
                    rel = None
                    try: rel = self.off_rel(st, dd, ln if False else e.size, e.size)
                    except Incomplete: pass
                    if self.pr.valid(st.pc, bor(dd >= P(ln), dd <= P(-e.size))): continue
                    return None
                c = int(dd.const())
                if c >= ln or c + e.size <= 0: continue
                if c < 0 or c + e.size > ln: return None
                if any(cover[c:c + e.size]):
                    if all(cover[c:c + e.size]): continue
                    return None
                got[c] = (e.size, e.val, e.ty)
                for i in range(c, c + e.size): cover[i] = True
                if all(cover): break
            elif e.kind == 'fill' and e.val == 0 and e.guard.k == 'true' and not e.params:
                if self.pr.valid(st.pc, band(e.off <= s.o, s.o + ln <= e.off + e.size)):
                    c = 0
                    while c < ln:
                        if not cover[c] and c % 8 == 0 and not any(cover[c:c + 8]):
                            got[c] = (8, ZERO, 'int')
                            for i in range(c, min(ln, c + 8)): cover[i] = True
                        c += 8
                    break
                if self.pr.valid(st.pc, bor(s.o + ln <= e.off, e.off + e.size <= s.o)): continue
                return None
            else: return None
        if not all(cover):
            rg = self.regions[s.r]; b = rg.base
            if b[0] == 'arr' :
                es = b[2]
                if not any(cover) and ln % es == 0:
                    try: i0 = self.exact_div(st, s.o, es)
                    except Incomplete: return None
                    for j in range(ln // es):
                        got[j * es] = (es, app(b[1], [i0 + j], 'I' if b[3] == 'int' else 'R'), b[3])
                else: return None
            elif b[0] == 'sarr':
                stride = b[1]
                k0 = s.o.d.get((), 0) % stride
                try: i0 = self.exact_div(st, s.o - k0, stride)
                except Incomplete: return None
                for fo, (fn, fs, so) in b[2].items():
                    c = fo - k0
                    if 0 <= c < ln and not any(cover[c:c + fs]):
                        got[c] = (fs, app(fn, [i0], so), 'int' if so == 'I' else 'double')
            elif b[0] == 'undef': pass
            elif b[0] == 'zero':
                c = 0
                while c < ln:
                    if not any(cover[c:c + 8]): got[c] = (8, ZERO, 'int')
                    c += 8
            else: return None
        return [(c, sz, v, t) for c, (sz, v, t) in sorted(got.items())]
    def memset(self, st, d, v, ln):
        if ln.is_const() and ln.const() == 0: return
        if not ln.is_const() and self.tri(st, eq0(ln)) is True: return
        if not isinstance(d, Ptr): raise Incomplete('memset')
        if d.r == 0:
            t = self.tri(st, eq0(ln))
            if t is None: raise Fork(eq0(ln))
            if t: return
        if not v.is_const(): raise Incomplete('memset value')
        if not self.mute:
            rg = self.regions[d.r]
            self.obligation(st, implies(ln > ZERO, band(P(0) <= d.o, d.o + ln <= rg.size)), 'memory access in bounds', 'memset %r+%r len %r' % (rg, d.o, ln))
        st.log_write(d.r, Ent('fill', d.o, ln, int(v.const()) & 255, None))
    def havoc(self, st, d, ln, name='havoc'):
        st.log_write(d.r, Ent('havoc', d.o, P(ln), newfun(name), None))

    # -------------------------------------------------------------- walking blocks
    def walk(self, m, f, items, loop):
        """run from items until return / exception / loop back edge / loop exit.
           returns (rets, backs, exits)"""
        rets = []; backs = []; exits = []
        work = list(items)
        loops = f._loops
        n = 0
        while work:
            st, env, blk, prev, idx = work.pop()
            n += 1
            if n > 4000: raise Incomplete('too many paths in %s' % f.demangled)
            if self.deadline and time.time() > self.deadline: raise Incomplete('time limit')
            if idx == 0 and blk in loops and not (loop is not None and blk == loop.header and prev == '#start'):
                L = loops[blk]
                if loop is not None and blk == loop.header:
                    backs.append((st, env, prev)); continue
                if prev is None or prev not in L.blocks or prev == '#enter':
                    st0 = st.clone()
                    try: rr, ex = self.exec_loop(m, f, L, st, env, prev)
                    except Incomplete:
                        if not self.mute and self.pr.valid(st0.pc, FALSE): continue       # the loop is never reached on this path
                        raise
                    rets += rr
                    for it in ex:
                        if loop is not None and it[2] not in loop.blocks: exits.append(it)
                        else: work.append(it)
                    continue
                raise Incomplete('irreducible loop in %s' % f.demangled)
            if loop is not None and blk not in loop.blocks:
                exits.append((st, env, blk, prev, idx)); continue
            try:
                r = self.block(m, f, st, env, blk, prev, idx)
            except Dead:
                continue
            for x in r:
                if x[0] == 'go': work.append(x[1:])
                else: rets.append(x[1:])
        return rets, backs, exits

    def block(self, m, f, st, env, blk, prev, idx):
        """execute one block; returns list of ('go', st, env, blk, prev, idx) / ('out', st, kind, val)"""
        insts = f.blocks[blk]
        if idx == 0:
            # phis
            newv = {}
            i = 0
            while i < len(insts) and insts[i].op == 'phi':
                inst = insts[i]
                for v, l in inst.a[0]:
                    if l == prev: newv[inst.res] = self.val(st, env, v, inst.ty, m); break
                else: raise Incomplete('phi without edge from %s' % prev)
                i += 1
            env.update(newv); idx = i
        while True:
            inst = insts[idx]
            self.steps += 1
            try:
                r = self.inst(m, f, st, env, inst, blk)
            except Fork as fk:
                out = []
                for c in (fk.cond, bnot(fk.cond)):
                    if self.pr.refuted(st.pc, c): continue
                    s2 = st.clone(); s2.branch(c)
                    out.append(('go', s2, dict(env), blk, prev, idx))
                # idx>0 or first instruction: avoid re-entering as loop header
                return [('go', x[1], x[2], x[3], x[4], x[5]) if x[5] else ('go', x[1], x[2], x[3], '#start' if False else x[4], x[5]) for x in out]
            if r is None:
                idx += 1; continue
            return r

    def goto(self, st, env, blk, prev):
        return ('go', st, env, blk, prev, 0)

    def inst(self, m, f, st, env, ins, blk):
        op = ins.op; a = ins.a
        V = lambda v, t: self.val(st, env, v, t, m)
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            x = V(a[0], ins.ty); y = V(a[1], ins.ty)
            env[ins.res] = self.intop(st, op, ins.ty, x, y, a[2]); return None
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            x = V(a[0], ins.ty); y = V(a[1], ins.ty)
            if x is UNDEF or y is UNDEF: env[ins.res] = UNDEF; return None
            if isnanv(x) or isnanv(y): env[ins.res] = NANV; return None
            if op == 'fadd': r = x + y
            elif op == 'fsub': r = x - y
            elif op == 'fmul': r = x * y
            elif op == 'fdiv': r = self.fdiv(st, x, y)
            else: r = app('fmod', [x, y])
            env[ins.res] = r; return None
        if op == 'fneg':
            x = V(a[0], ins.ty); env[ins.res] = x if x is UNDEF or isnanv(x) else -x; return None
        if op == 'load':
            env[ins.res] = self.load(st, ins.ty, V(a[0], PTR), m); return None
        if op == 'store':
            self.store(st, ins.ty, V(a[0], ins.ty), V(a[1], PTR), m); return None
        if op == 'getelementptr':
            base = V(a[0], PTR)
            env[ins.res] = self.gep(st, ins.ty, base, [(t, V(v, t)) for t, v in a[1]], m); return None
        if op == 'br':
            if len(a) == 1: return [self.goto(st, env, a[0], blk)]
            c = V(a[0], INT(1))
            return self.cbr(st, env, c, a[1], a[2], blk)
        if op == 'icmp':
            env[ins.res] = self.icmp(st, a[0], ins.ty, V(a[1], ins.ty), V(a[2], ins.ty)); return None
        if op == 'fcmp':
            env[ins.res] = self.fcmp(a[0], V(a[1], ins.ty), V(a[2], ins.ty)); return None
        if op == 'select':
            c = V(a[0], INT(1)); x = V(a[1], ins.ty); y = V(a[2], ins.ty)
            if c is UNDEF: raise Incomplete('select on undef')
            r = vite(c, x, y)
            if r is None:
                t = self.tri(st, c)
                if t is None: raise Fork(c)
                r = x if t else y
            elif c.k not in ('true', 'false') and (x is UNDEF or y is UNDEF or isinstance(x, Ptr)):
                t = self.tri(st, c)
                if t is not None: r = x if t else y
            env[ins.res] = r; return None
        if op in ('zext', 'sext', 'trunc', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr', 'bitcast'):
            env[ins.res] = self.cast(st, op, a[0], V(a[1], a[0]), ins.ty, m); return None
        if op == 'alloca':
            n = V(a[0], INT(64))
            sz = n * m.size(ins.ty)
            env[ins.res] = self.alloc(st, 'stack', sz, 'alloca_%s' % ins.res.strip('%"')); return None
        if op in ('call', 'invoke'):
            return self.docall(m, f, st, env, ins, blk)
        if op == 'ret':
            v = None if a[0] is None else V(a[0], ins.ty)
            return [('out', st, 'ret', v)]
        if op == 'unreachable':
            if not self.mute: self.obligation(st, FALSE, 'unreachable code is not reached')
            return []
        if op == 'switch':
            v = V(a[0], ins.ty)
            out = []
            rest = []
            for cv, l in a[2]:
                c = self.moddiff_zero(st, v - P(cv[1]), ins.ty.a)
                rest.append(bnot(c))
                if self.pr.refuted(st.pc, c): continue
                s2 = st.clone(); s2.branch(c) if c.k != 'true' else None
                out.append(self.goto(s2, dict(env), l, blk))
                if c.k == 'true': return out
            r = band(*rest)
            if not self.pr.refuted(st.pc, r):
                s2 = st.clone(); s2.branch(r)
                out.append(self.goto(s2, dict(env), a[1], blk))
            return out
        if op == 'extractvalue':
            v = V(a[0], ins.ty)
            for i in a[1]: v = v[i] if v is not UNDEF else UNDEF
            env[ins.res] = v; return None
        if op == 'insertvalue':
            v = V(a[0], ins.ty); w = V(a[1][1], a[1][0])
            import copy
            v = copy.deepcopy(v) if False else clonelist(v)
            t = v
            for i in a[2][:-1]: t = t[i]
            t[a[2][-1]] = w
            env[ins.res] = v; return None
        if op == 'freeze':
            env[ins.res] = V(a[0], ins.ty); return None
        if op == 'landingpad':
            ex = env.get('#exc')
            sel = self.lp_select(m, st, ins, ex)
            env[ins.res] = [ex[1], P(sel)]; return None
        if op == 'resume':
            v = V(a[0], ins.ty)
            ex = st.ghost.get(('excinfo', v[0].r))
            return [('out', st, 'exc', (ex, v[0]))]
        raise Incomplete('instruction %s' % op)

    def lp_select(self, m, st, ins, ex):
        for w, v in ins.a[1]:
            if w == 'filter': continue
            if v[0] == 'null': return self.typeid(None)
            nm = v[1]
            if self.exc_isa(ex[0], nm): return self.typeid(nm)
        return 0
    def typeid(self, nm):
        self._tids = getattr(self, '_tids', {})
        return self._tids.setdefault(nm, len(self._tids) + 1)
    def exc_isa(self, thrown, target):
        if thrown == target: return True
        for m in self.mods:
            g = m.globals.get(thrown)
            if g and g[0] == 'var' and g[2] is not None and g[2][0] == 'agg' and len(g[2][2]) >= 3:
                b = g[2][2][2][1]
                if b[0] == 'g': return self.exc_isa(b[1], target)
        std = {'@_ZTISt13runtime_error': '@_ZTISt9exception', '@_ZTISt11logic_error': '@_ZTISt9exception',
               '@_ZTISt12length_error': '@_ZTISt11logic_error', '@_ZTISt12out_of_range': '@_ZTISt11logic_error',
               '@_ZTISt16invalid_argument': '@_ZTISt11logic_error', '@_ZTISt12domain_error': '@_ZTISt11logic_error',
               '@_ZTISt9bad_alloc': '@_ZTISt9exception', '@_ZTISt11range_error': '@_ZTISt13runtime_error',
               '@_ZTISt20bad_array_new_length': '@_ZTISt9bad_alloc', '@_ZTISt14overflow_error': '@_ZTISt13runtime_error'}
        if thrown in std: return self.exc_isa(std[thrown], target)
        return False
    def catches(self, m, f, unw, ex):
        for ins in f.blocks[unw]:
            if ins.op == 'phi': continue
            if ins.op == 'landingpad':
                if ins.a[0]: return True
                for w, v in ins.a[1]:
                    if w == 'catch' and (v[0] == 'null' or self.exc_isa(ex[0], v[1])): return True
                    if w == 'filter': return True
                return False
            break
        return True

    def cbr(self, st, env, c, t, e, blk):
        if c is UNDEF: raise Incomplete('branch on undef')
        if self.brlog is not None: self.brlog.append((len(self.stack), self.stack[-1] if self.stack else '', blk, c))
        if c.k == 'true': return [self.goto(st, env, t, blk)]
        if c.k == 'false': return [self.goto(st, env, e, blk)]
        out = []
        ft = not self.pr.refuted(st.pc, c)
        fe = (not self.pr.refuted(st.pc, bnot(c))) if ft else True
        if ft and fe and self.deep and has_real(c):      # opt-in: decide real-valued branches with the full prover
            if self.pr.valid(st.pc, c, timeout=1500): fe = False
            elif self.pr.valid(st.pc, bnot(c), timeout=1500): ft = False
        if ft and not fe:
            st.assume(c); return [self.goto(st, env, t, blk)]
        if fe and not ft:
            st.assume(bnot(c)); return [self.goto(st, env, e, blk)]
        s2 = st.clone(); s2.branch(bnot(c))
        e2 = dict(env)
        st.branch(c)
        return [self.goto(s2, e2, e, blk), self.goto(st, env, t, blk)]

    def intop(self, st, op, ty, x, y, flags):
        n = ty.a
        if n == 1:
            if op == 'xor':
                if y.k == 'true': return bnot(x)
                if x.k == 'true': return bnot(y)
                return bor(band(x, bnot(y)), band(bnot(x), y))
            if op == 'and': return band(x, y)
            if op == 'or': return bor(x, y)
            if op == 'add' or op == 'sub': return bor(band(x, bnot(y)), band(bnot(x), y))
            if op == 'mul': return band(x, y)
            raise Incomplete('i1 %s' % op)
        if x is UNDEF or y is UNDEF: return UNDEF
        if isinstance(x, Ptr): x = self.addr(x.r) + x.o
        if isinstance(y, Ptr): y = self.addr(y.r) + y.o
        if op in ('add', 'sub', 'mul'):
            if 'nsw' in flags and not self.mute:
                sx = self.S(st, x, n); sy = self.S(st, y, n)
                r = sx + sy if op == 'add' else sx - sy if op == 'sub' else sx * sy
                h = 1 << (n - 1)
                if r.is_const():
                    if not -h <= r.const() < h: self.obls.append(Obl('no signed overflow', False, repr(r), self.where()))
                else:
                    b = quick_range(r)
                    if not (b[0] is not None and b[0] >= -h and b[1] is not None and b[1] < h):
                        self.obligation(st, band(P(-h) <= r, r < P(h)), 'no signed overflow', '%s %r' % (op, r))
                return r
            if op == 'add': r = x + y
            elif op == 'sub': r = x - y
            else: r = x * y
            if r.is_const(): return P(int(r.const()) % (1 << n)) if not -(1 << (n - 1)) <= r.const() < (1 << n) else r
            # drop multiples of 2^n in the constant term
            k = r.d.get((), 0)
            if isinstance(k, int) and not -(1 << (n - 1)) <= k < (1 << (n - 1)):
                k2 = (k + (1 << (n - 1))) % (1 << n) - (1 << (n - 1))
                r = r + (k2 - k)
            return r
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            if op[0] == 'u': x = self.U(st, x, n); y = self.U(st, y, n)
            else: x = self.S(st, x, n); y = self.S(st, y, n)
            if not self.mute and not y.is_const():
                self.obligation(st, ne0(y), 'no division by zero', repr(y))
            if y.is_const() and y.const() == 0:
                if not self.mute: self.obls.append(Obl('no division by zero', self.pr.inconsistent(st.pc), '', self.where()))
                raise Dead()
            if 'exact' in flags and y.is_const():
                c = y.const()
                if all(isinstance(v, int) and v % c == 0 for v in x.d.values()):
                    return Poly({mm: v // c for mm, v in x.d.items()})
            if op[0] == 's':
                xn = self.rng(st, x, 0, 1 << n); yn = self.rng(st, y, 1, 1 << n)
                if not (xn and yn):
                    if yn and self.tri(st, x < ZERO) is True:
                        q = -idiv(-x, y)
                    elif yn:
                        q = ite(x >= ZERO, idiv(x, y), -idiv(-x, y))
                    else: raise Incomplete('sdiv by possibly negative')
                    return q if op == 'sdiv' else x - y * q
            q = idiv(x, y)
            return q if op.endswith('div') else x - y * q
        if op == 'shl':
            if y.is_const(): return x * (1 << int(y.const()))
            if x.is_const() and x.const() == 1:
                return app('pow2', [y], 'I')
            return x * app('pow2', [y], 'I')
        if op == 'lshr':
            x = self.U(st, x, n)
            if y.is_const(): return idiv(x, P(1 << int(y.const())))
            return idiv(x, app('pow2', [y], 'I'))
        if op == 'ashr':
            x = self.S(st, x, n)
            if y.is_const(): return idiv(x, P(1 << int(y.const())))
            raise Incomplete('ashr')
        if op == 'and':
            if x.is_const() and not y.is_const(): x, y = y, x
            if y.is_const():
                k = int(y.const()) % (1 << n)
                if x.is_const(): return P((int(x.const()) % (1 << n)) & k)
                if k & (k + 1) == 0:
                    x = self.U(st, x, n)
                    b = quick_range(x)
                    if b[0] is not None and b[0] >= 0 and b[1] is not None and b[1] <= k: return x
                    return imod(x, P(k + 1))
                nk = (1 << n) - k
                if nk & (nk - 1) == 0:      # ~(2^j-1)
                    x = self.U(st, x, n); return x - imod(x, P(nk))
            return app('and%d' % n, [self.U(st, x, n), self.U(st, y, n)], 'I')
        if op in ('or', 'xor'):
            if x.is_const() and y.is_const():
                a_ = int(x.const()) % (1 << n); b_ = int(y.const()) % (1 << n)
                return P(a_ | b_ if op == 'or' else a_ ^ b_)
            if not y.d: return x
            if not x.d: return y
            if op == 'xor' and y.is_const() and int(y.const()) % (1 << n) == (1 << n) - 1: return -x - 1
            return app('%s%d' % (op, n), [self.U(st, x, n), self.U(st, y, n)], 'I')
        raise Incomplete(op)

    def icmp(self, st, pred, ty, x, y):
        if ty.k == 'ptr':
            if x is UNDEF or y is UNDEF: raise Incomplete('compare of undefined pointer')
            if isinstance(x, Fn) or isinstance(y, Fn):
                e = bconst(x == y)
                return e if pred == 'eq' else bnot(e)
            if x.r == y.r:
                d = x.o - y.o
                return {'eq': eq0(d), 'ne': ne0(d), 'ult': lt(d), 'ule': le(d), 'ugt': lt(-d), 'uge': le(-d),
                        'slt': lt(d), 'sle': le(d), 'sgt': lt(-d), 'sge': le(-d)}[pred]
            if pred == 'eq': return FALSE
            if pred == 'ne': return TRUE
            d = self.addr(x.r) + x.o - self.addr(y.r) - y.o
            return {'ult': lt(d), 'ule': le(d), 'ugt': lt(-d), 'uge': le(-d)}[pred]
        n = ty.a
        if n == 1:
            if pred == 'eq': return bor(band(x, y), band(bnot(x), bnot(y)))
            if pred == 'ne': return bor(band(x, bnot(y)), band(bnot(x), y))
            raise Incomplete('icmp i1')
        if x is UNDEF or y is UNDEF: raise Incomplete('compare of undefined value')
        if isinstance(x, Ptr): x = self.addr(x.r) + x.o
        if isinstance(y, Ptr): y = self.addr(y.r) + y.o
        if pred in ('eq', 'ne'):
            c = self.moddiff_zero(st, x - y, n)
            return c if pred == 'eq' else bnot(c)
        if pred[0] == 'u': x = self.U(st, x, n); y = self.U(st, y, n)
        else: x = self.S(st, x, n); y = self.S(st, y, n)
        o = pred[1:]
        return {'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[o]
    def fcmp(self, pred, x, y):
        if x is UNDEF or y is UNDEF: raise Incomplete('compare of undefined double')
        if isnanv(x) or isnanv(y): return bconst(pred[0] == 'u' or pred == 'true')
        if pred == 'ord': return TRUE
        if pred == 'uno': return FALSE
        if pred in ('true', 'false'): return bconst(pred == 'true')
        o = pred[1:]
        return {'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y, 'eq': eq(x, y), 'ne': ne(x, y)}[o]

    def docall(self, m, f, st, env, ins, blk):
        callee, args, to, unw = ins.a
        av = []
        for t, v in args:
            if v == ('meta',): av.append(None)
            else: av.append(self.val(st, env, v, t, m))
        if callee[0] == 'l':
            c = env[callee[1]]
            if isinstance(c, Fn): name = c.n
            else: raise Incomplete('indirect call')
        elif callee[0] == 'g': name = callee[1]
        else: raise Incomplete('callee %r' % (callee,))
        s2 = st.clone()
        res = self.call(s2, name, av, m, ins)
        out = []
        for s, k, v in res:
            e2 = dict(env) if len(res) > 1 else env
            if k == 'ret':
                if ins.res is not None: e2[ins.res] = v
                if ins.op == 'invoke': out.append(self.goto(s, e2, to, blk))
                else: out.append(('cont', s, e2))
            else:
                s.ghost[('excinfo', v[1].r)] = v[0]
                if unw is not None and self.catches(m, f, unw, v):
                    e2['#exc'] = v
                    out.append(self.goto(s, e2, unw, blk))
                else: out.append(('out', s, 'exc', v))
        # plain call: continue in this block
        if any(o[0] == 'cont' for o in out):
            blocks = f.blocks[blk]
            pos = next(i for i, x in enumerate(blocks) if x is ins)
            out = [('go', o[1], o[2], blk, '#mid', pos + 1) if o[0] == 'cont' else o for o in out]
        return out

    # -------------------------------------------------------------- loops
    def exec_loop(self, m, f, L, st, env, prev):
        from loops import exec_loop
        return exec_loop(self, m, f, L, st, env, prev)

class Dead(Exception): pass

def clonelist(v): return [clonelist(x) for x in v] if isinstance(v, list) else v
def delta(node, base):
    out = []
    while node is not None and node is not base:
        out.append(node[0]); node = node[1]
    if node is not base: raise Incomplete('memory log is not an extension')
    return out[::-1]

def quick_range(p):
    lo = hi = 0
    for m, c in p.d.items():
        if not m:
            lo = None if lo is None else lo + c; hi = None if hi is None else hi + c; continue
        a, b = 1, 1
        for at, e in m:
            x = T._byid[at]
            l, h = atom_range(x)
            for _ in range(e):
                if l is None or l < 0: a = b = None; break
                a = a * l
                b = None if (b is None or h is None) else b * h
            if a is None: break
        if a is None:
            if len(m) == 1 and m[0][1] == 1:
                l, h = atom_range(T._byid[m[0][0]])
                a, b = l, h
            else: return (None, None)
        if c > 0: ca = None if a is None else a * c; cb = None if b is None else b * c
        else: ca = None if b is None else b * c; cb = None if a is None else a * c
        lo = None if (lo is None or ca is None) else lo + ca
        hi = None if (hi is None or cb is None) else hi + cb
    return lo, hi
import prover as _prover
_prover.quick_range = quick_range
def atom_range(x):
    l, h = x.lo, x.hi
    if x.kind == 'ite':
        r1 = quick_range(x.args[1]); r2 = quick_range(x.args[2])
        l = None if r1[0] is None or r2[0] is None else min(r1[0], r2[0])
        h = None if r1[1] is None or r2[1] is None else max(r1[1], r2[1])
    elif x.kind == 'div' and x.args[1].is_const() and x.args[1].const() > 0:
        r = quick_range(x.args[0]); c = x.args[1].const()
        l = None if r[0] is None else r[0] // c; h = None if r[1] is None else r[1] // c
    return l, h

def short(d):
    d = re.sub(r'<[^<>]*>', '', d)
    for _ in range(6): d = re.sub(r'<[^<>]*>', '', d)
    return d.split('(')[0][-60:]
