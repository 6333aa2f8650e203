"""Hash-consed terms: multivariate polynomials over atoms (ints and reals), booleans, quantified facts.

A Poly is an exact polynomial with rational coefficients.  Everything that is not polynomial is an
atom: symbols, uninterpreted applications ('sel'), multiplicative inverses, integer div/mod,
if-then-else, absolute value, bounded sums.  Machine doubles are represented as mathematical reals
(assumption A-REAL, reported in every evidence file).
"""
from fractions import Fraction
import itertools

class Atom:
    __slots__ = ('id', 'kind', 'args', 'sort', 'lo', 'hi', 'syms')
    def __repr__(self): return fmt_atom(self)

_atoms = {}
_byid = []

def _mk(kind, args, sort, lo=None, hi=None):
    key = (kind, args, sort)
    a = _atoms.get(key)
    if a is None:
        a = Atom(); a.id = len(_byid); a.kind = kind; a.args = args; a.sort = sort; a.lo = lo; a.hi = hi
        s = set()
        if kind == 'sym': s.add(a.id)
        for x in args:
            if isinstance(x, (Poly, B)): s |= x.syms()
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, (Poly, B)): s |= y.syms()
        a.syms = frozenset(s)
        if kind == 'sum':
            a.syms = frozenset(s - {args[0]})
        _byid.append(a); _atoms[key] = a
    return a

class Poly:
    __slots__ = ('d', '_h', '_syms')
    def __init__(self, d):
        self.d = d; self._h = None; self._syms = None
    def __hash__(self):
        if self._h is None: self._h = hash(frozenset(self.d.items()))
        return self._h
    def __eq__(self, o):
        return isinstance(o, Poly) and self.d == o.d
    def __ne__(self, o): return not self == o
    def syms(self):
        if self._syms is None:
            s = set()
            for m in self.d:
                for a, _ in m: s |= _byid[a].syms
            self._syms = frozenset(s)
        return self._syms
    def atoms(self):
        s = set()
        for m in self.d:
            for a, _ in m: s.add(a)
        return s
    def is_const(self):
        return not self.d or (len(self.d) == 1 and () in self.d)
    def const(self):
        return self.d.get((), 0)
    def __add__(self, o):
        o = P(o)
        if not o.d: return self
        if not self.d: return o
        d = dict(self.d)
        for m, c in o.d.items():
            v = d.get(m, 0) + c
            if v == 0: del d[m]
            else: d[m] = v
        return Poly(d)
    __radd__ = __add__
    def __neg__(self): return Poly({m: -c for m, c in self.d.items()})
    def __sub__(self, o): return self + (-P(o))
    def __rsub__(self, o): return P(o) + (-self)
    def __mul__(self, o):
        o = P(o)
        if not self.d or not o.d: return ZERO
        if o.is_const():
            c = o.const()
            return self if c == 1 else Poly({m: norm(v * c) for m, v in self.d.items()})
        if self.is_const(): return o * self
        d = {}
        for m1, c1 in self.d.items():
            for m2, c2 in o.d.items():
                m = mmul(m1, m2)
                v = d.get(m, 0) + c1 * c2
                if v == 0: d.pop(m, None)
                else: d[m] = norm(v)
        return sqreduce(Poly(d)) if SQC else Poly(d)
    __rmul__ = __mul__
    def __truediv__(self, o):
        o = P(o)
        if o.is_const() and o.const() != 0:
            return self * Fraction(1, 1) * Poly({(): norm(Fraction(1) / Fraction(o.const()))})
        return self * inv(o)
    def __pow__(self, n):
        r = ONE
        for _ in range(n): r = r * self
        return r
    def __repr__(self): return fmt(self)
    # comparisons build booleans
    def __le__(self, o): return le(self - P(o))
    def __lt__(self, o): return lt(self - P(o))
    def __ge__(self, o): return le(P(o) - self)
    def __gt__(self, o): return lt(P(o) - self)
    def single_atom(self):
        """the atom if this poly is exactly one atom with coefficient 1"""
        if len(self.d) == 1:
            (m, c), = self.d.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1: return _byid[m[0][0]]
        return None
    def single_floor(self):
        """the only floor atom among the terms, if it stands alone with coefficient 1"""
        r = [_byid[m[0][0]] for m, c in self.d.items() if len(m) == 1 and m[0][1] == 1 and c == 1 and _byid[m[0][0]].kind == 'floor']
        return r[0] if len(r) == 1 else None
    def is_int(self):
        for m, c in self.d.items():
            if isinstance(c, Fraction) and c.denominator != 1: return False
            for a, _ in m:
                if _byid[a].sort != 'I': return False
        return True

SQC = {}       # atoms standing for the square root of a positive rational: r*r is that rational
def sqreduce(p):
    if not any(e > 1 and a in SQC for m in p.d for a, e in m): return p
    d = {}
    for m, c in p.d.items():
        mm = []
        for a, e in m:
            if e > 1 and a in SQC:
                c = c * SQC[a] ** (e // 2)
                if e & 1: mm.append((a, 1))
            else: mm.append((a, e))
        mm = tuple(mm); v = d.get(mm, 0) + c
        if v == 0: d.pop(mm, None)
        else: d[mm] = norm(v)
    return Poly(d)
def sqrt_const(c):
    c = Fraction(c)
    from math import isqrt
    n, k = isqrt(c.numerator), isqrt(c.denominator)
    if n * n == c.numerator and k * k == c.denominator: return P(Fraction(n, k))
    r = app('sqrt', [P(c)]); SQC[r.single_atom().id] = c
    return r

def norm(c):
    if isinstance(c, Fraction) and c.denominator == 1: return c.numerator
    return c

_mm = {}
def mmul(m1, m2):
    if not m1: return m2
    if not m2: return m1
    k = (m1, m2)
    r = _mm.get(k)
    if r is None:
        d = dict(m1)
        for a, e in m2: d[a] = d.get(a, 0) + e
        r = tuple(sorted((a, e) for a, e in d.items() if e))
        _mm[k] = r
    return r

ZERO = Poly({}); ONE = Poly({(): 1})
def P(x):
    if isinstance(x, Poly): return x
    if isinstance(x, Atom): return Poly({((x.id, 1),): 1})
    if isinstance(x, bool): return ONE if x else ZERO
    if isinstance(x, int): return Poly({(): x}) if x else ZERO
    if isinstance(x, Fraction): return Poly({(): norm(x)}) if x else ZERO
    raise TypeError('P(%r)' % (x,))

_ctr = itertools.count()
def sym(name, sort='I', lo=None, hi=None):
    return P(_mk('sym', (name,), sort, lo, hi))
def fresh(name, sort='I', lo=None, hi=None):
    return sym('%s~%d' % (name, next(_ctr)), sort, lo, hi)

def app(fname, args, sort='R'):
    return P(_mk('sel', (fname, tuple(P(a) for a in args)), sort))

def atom_of(p):
    a = p.single_atom()
    if a is None: raise ValueError('not an atom: %r' % p)
    return a

def content(p):
    """rational c, primitive q with p = c*q, q canonical sign (first monomial positive)"""
    from math import gcd
    if not p.d: return 1, p
    num = 0; den = 1
    for c in p.d.values():
        f = Fraction(c)
        num = gcd(num, abs(f.numerator)); den = den * f.denominator // gcd(den, f.denominator)
    c = Fraction(num, den)
    lead = max(p.d)
    if p.d[lead] < 0: c = -c
    return norm(c), Poly({m: norm(Fraction(v) / c) for m, v in p.d.items()})

def inv(p):
    """1/p as product of inverse atoms of monomial factors / canonical polys"""
    if p.is_const():
        if p.const() == 0: return P(_mk('inv', (ZERO,), 'R'))
        return P(Fraction(1) / Fraction(p.const()))
    c, q = content(p)
    # single monomial: invert factors separately
    if len(q.d) == 1:
        (m, k), = q.d.items()
        r = P(Fraction(1) / (Fraction(c) * k))
        for a, e in m:
            at = _byid[a]
            if a in SQC:
                r = r * Fraction(1) * P(Fraction(1) / SQC[a]) * P(at); continue
            if at.kind == 'inv' : base = at.args[0]      # 1/(1/x): only equal to x if x!=0; keep as atom
            x = P(_mk('inv', (P(at),), 'R'))
            for _ in range(e): r = r * x
        return r
    h = sqrt_poly(q)
    if h is not None: return P(_mk('inv', (h,), 'R')) ** 2 * P(Fraction(1) / Fraction(c))
    return P(_mk('inv', (q,), 'R')) * P(Fraction(1) / Fraction(c))

def sqrt_poly(q):
    """h with h*h == q for a binomial square, or None"""
    if len(q.d) != 3: return None
    from math import isqrt
    sq = []
    for m, c in q.d.items():
        c = Fraction(c)
        if all(e % 2 == 0 for _, e in m) and c > 0:
            n, d = isqrt(c.numerator), isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator: sq.append(Poly({tuple((a, e // 2) for a, e in m): norm(Fraction(n, d))}))
    for i in range(len(sq)):
        for j in range(i):
            for s in (1, -1):
                h = sq[i] + sq[j] * s
                if h * h == q: return content(h)[1]
    return None

def ite(c, a, b):
    a = P(a); b = P(b)
    if c is TRUE or c == TRUE: return a
    if c is FALSE or c == FALSE: return b
    if a == b: return a
    if c.k == 'not': return ite(c.a[0], b, a)
    if c.k == 'ne': return ite(eq0(c.a[0]), b, a)
    s = 'I' if a.is_int() and b.is_int() else 'R'
    if s == 'I' and a.is_const() and b.is_const(): return P(_mk('ite', (c, a, b), s, min(a.const(), b.const()), max(a.const(), b.const())))
    return P(_mk('ite', (c, a, b), s))

def pabs(a):
    a = P(a)
    if a.is_const(): return P(abs(a.const()))
    c, q = content(a)
    at = q.single_atom()
    if at is not None and at.kind == 'abs': return q * P(abs(c))
    return P(_mk('abs', (q,), 'I' if q.is_int() else 'R')) * P(abs(c))

def pmin(a, b): return ite(P(a) <= P(b), a, b)
def pmax(a, b): return ite(P(a) >= P(b), a, b)

def idiv(p, q):
    """floor division for integers; q>0 expected (facts added by the prover under q>0)"""
    p = P(p); q = P(q)
    if q.is_const() and q.const() != 0:
        k = q.const()
        if p.is_const(): return P(p.const() // k)
        if k == 1: return p
        # split exactly divisible part
        ex = Poly({m: c for m, c in p.d.items() if c % k == 0}); rest = p - ex
        exd = Poly({m: c // k for m, c in ex.d.items()})
        if not rest.d: return exd
        if rest.is_const(): return exd + P(rest.const() // k)
        lo = hi = 0
        for m, c in rest.d.items():                        # a numerator confined to one multiple of k
            if m == (): lo += c; hi += c; continue
            at = _byid[m[0][0]] if len(m) == 1 and m[0][1] == 1 else None
            if at is None or at.lo is None or at.hi is None: lo = None; break
            lo += c * (at.lo if c > 0 else at.hi); hi += c * (at.hi if c > 0 else at.lo)
        if lo is not None and k > 0 and lo // k == hi // k: return exd + P(int(lo // k))
        return exd + P(_mk('div', (rest, q), 'I'))
    if not p.d: return ZERO
    qq, r = polydivmod(p, q)
    if qq is not None and not r.d and q.d: return qq      # exact (meaningful when q != 0)
    return P(_mk('div', (p, q), 'I'))
def imod(p, q):
    p = P(p); q = P(q)
    return p - q * idiv(p, q)

def polydivmod(p, q):
    """multivariate division by the leading (max) monomial of q; returns quotient, remainder or (None,p)"""
    if not q.d: return None, p
    lead = max(q.d, key=lambda m: (sum(e for _, e in m), m))
    lc = q.d[lead]
    quo = ZERO; rem = p
    ld = dict(lead)
    for _ in range(60):
        hit = None
        for m in sorted(rem.d, key=lambda m: (sum(e for _, e in m), m), reverse=True):
            md = dict(m)
            if all(md.get(a, 0) >= e for a, e in ld.items()):
                c = rem.d[m]
                if isinstance(c, int) and isinstance(lc, int):
                    if c % lc: 
                        if not lead: continue
                        continue
                    cc = c // lc
                else: cc = norm(Fraction(c) / Fraction(lc))
                for a, e in ld.items(): md[a] = md[a] - e
                mm = tuple(sorted((a, e) for a, e in md.items() if e))
                hit = Poly({mm: cc}); break
        if hit is None: break
        quo = quo + hit; rem = rem - hit * q
    return quo, rem

def psum(var, lo, hi, body):
    """sum_{var=lo}^{hi-1} body; var is a sym atom (Poly) local to the term"""
    lo = P(lo); hi = P(hi); body = P(body)
    v = atom_of(var)
    if not body.d: return ZERO
    if v.id not in body.syms(): return body * (hi - lo)     # caller guarantees lo<=hi
    # canonical bound variable
    b = _mk('sym', ('Σ%d' % 0,), 'I')
    depth = 0
    while (b.id in body.syms() and b.id != v.id) or b.id in lo.syms() or b.id in hi.syms():
        depth += 1; b = _mk('sym', ('Σ%d' % depth,), 'I')
    body = subst(body, {v.id: P(b)})
    return P(_mk('sum', (b.id, lo, hi, body), 'I' if body.is_int() else 'R'))

# ------------------------------------------------------------------ booleans
class B:
    __slots__ = ('k', 'a', '_h', '_syms')
    def __init__(self, k, a):
        self.k = k; self.a = a; self._h = None; self._syms = None
    def __hash__(self):
        if self._h is None: self._h = hash((self.k, self.a))
        return self._h
    def __eq__(self, o): return isinstance(o, B) and self.k == o.k and self.a == o.a
    def __repr__(self): return fmtb(self)
    def syms(self):
        if self._syms is None:
            s = set()
            for x in self.a:
                if isinstance(x, (Poly, B)): s |= x.syms()
                elif isinstance(x, tuple):
                    for y in x:
                        if isinstance(y, (Poly, B)): s |= y.syms()
            self._syms = frozenset(s)
        return self._syms

TRUE = B('true', ()); FALSE = B('false', ())
def bconst(b): return TRUE if b else FALSE

def _intscale(p):
    from math import gcd
    num = 0; den = 1
    for m, c in p.d.items():
        f = Fraction(c); den = den * f.denominator // gcd(den, f.denominator)
    q = p if den == 1 else p * P(den)
    return q

def all_int(p):
    return all(_byid[a].sort == 'I' for m in p.d for a, _ in m)

def le(p):
    if p.is_const(): return bconst(p.const() <= 0)
    from math import gcd
    if all_int(p):
        q = _intscale(p); g = 0
        for m, c in q.d.items():
            if m: g = gcd(g, c)
        if g > 1:
            k = q.d.get((), 0)
            # g*x + k <= 0  <=>  x <= floor(-k/g)
            d = {m: c // g for m, c in q.d.items() if m}
            kk = -((-k) // g)
            if kk: d[()] = kk
            q = Poly(d)
        return B('le', (q,))
    c, q = content(p)
    return B('le', (q if c > 0 else -q,))
def lt(p):
    if p.is_const(): return bconst(p.const() < 0)
    if all_int(p): return le(_intscale(p) + 1)
    c, q = content(p)
    return B('lt', (q if c > 0 else -q,))
def eq0(p):
    if p.is_const(): return bconst(p.const() == 0)
    c, q = content(p)
    if all_int(q):
        from math import gcd
        g = 0
        for m, cc in q.d.items():
            if m: g = gcd(g, cc)
        if g > 1 and q.d.get((), 0) % g: return FALSE
    return B('eq', (q,))
def ne0(p): return bnot(eq0(p))
def eq(a, b): return eq0(P(a) - P(b))
def ne(a, b): return bnot(eq(a, b))
def bnot(b):
    if b.k == 'true': return FALSE
    if b.k == 'false': return TRUE
    if b.k == 'not': return b.a[0]
    if b.k == 'le': return lt(-b.a[0])
    if b.k == 'lt': return le(-b.a[0])
    if b.k == 'eq': return B('ne', b.a)
    if b.k == 'ne': return B('eq', b.a)
    if b.k == 'and': return bor(*[bnot(x) for x in b.a])
    if b.k == 'or': return band(*[bnot(x) for x in b.a])
    return B('not', (b,))
def band(*xs):
    out = []
    for x in xs:
        if x.k == 'false': return FALSE
        if x.k == 'true': continue
        if x.k == 'and':
            for y in x.a:
                if y not in out: out.append(y)
        elif x not in out: out.append(x)
    for x in out:
        if bnot1(x) in out: return FALSE
    if not out: return TRUE
    if len(out) == 1: return out[0]
    return B('and', tuple(out))
def bnot1(x):
    return bnot(x) if x.k not in ('and', 'or') else None
def bor(*xs):
    out = []
    for x in xs:
        if x.k == 'true': return TRUE
        if x.k == 'false': continue
        if x.k == 'or':
            for y in x.a:
                if y not in out: out.append(y)
        elif x not in out: out.append(x)
    for x in out:
        if bnot1(x) in out: return TRUE
    if not out: return FALSE
    if len(out) == 1: return out[0]
    return B('or', tuple(out))
def implies(a, b): return bor(bnot(a), b)
def batom(name, *args):
    return B('atom', (name,) + tuple(args))

class Forall:
    """for all integer vars: guard -> body.  Instantiated by the prover on 'sel' atoms matching trigs:
    each trig is (fname, [index polys over vars]); identity-like (var + const)*unit patterns."""
    __slots__ = ('vars', 'guard', 'body', 'trigs', 'name')
    def __init__(self, vars, guard, body, trigs, name=''):
        self.vars = tuple(vars); self.guard = guard; self.body = body; self.trigs = trigs; self.name = name
    def __repr__(self): return 'forall %r. %r -> %r' % (self.vars, self.guard, self.body)
    def syms(self):
        return (self.guard.syms() | self.body.syms()) - {atom_of(v).id for v in self.vars}
    def inst(self, vals):
        mp = {atom_of(v).id: P(x) for v, x in zip(self.vars, vals)}
        return implies(substb(self.guard, mp), substb(self.body, mp))

# ------------------------------------------------------------------ substitution
def subst(p, mp, memo=None):
    if not mp: return p
    if not (p.syms() & mp.keys()): 
        return p
    if memo is None: memo = {}
    r = memo.get(p)
    if r is not None: return r
    r = ZERO
    for m, c in p.d.items():
        t = P(c)
        plain = []
        for a, e in m:
            at = _byid[a]
            if at.syms & mp.keys():
                x = subst_atom(at, mp, memo)
                for _ in range(e): t = t * x
            else: plain.append((a, e))
        if plain: t = t * Poly({tuple(plain): 1})
        r = r + t
    memo[p] = r
    return r

def subst_atom(at, mp, memo):
    if at.id in mp: return mp[at.id]
    k = at.kind
    if k == 'sel':
        return P(_mk('sel', (at.args[0], tuple(subst(x, mp, memo) for x in at.args[1])), at.sort))
    if k == 'inv': return inv(subst(at.args[0], mp, memo))
    if k == 'div': return idiv(subst(at.args[0], mp, memo), subst(at.args[1], mp, memo))
    if k == 'ite': return ite(substb(at.args[0], mp, memo), subst(at.args[1], mp, memo), subst(at.args[2], mp, memo))
    if k == 'abs': return pabs(subst(at.args[0], mp, memo))
    if k == 'sum':
        v, lo, hi, body = at.args
        return psum(P(_byid[v]), subst(lo, mp, memo), subst(hi, mp, memo), subst(body, {a: x for a, x in mp.items() if a != v}, None))
    if k == 'floor': return floor_(subst(at.args[0], mp, memo))
    return P(at)

def floor_(p):
    if p.is_const():
        import math
        return P(math.floor(p.const()))
    if p.is_int(): return p
    whole = Poly({m: c for m, c in p.d.items() if Poly({m: c}).is_int()})
    if whole.d: return whole + P(_mk('floor', (p - whole,), 'I'))
    return P(_mk('floor', (p,), 'I'))

def substb(b, mp, memo=None):
    if not (b.syms() & mp.keys()): return b
    k = b.k
    if k == 'le': return le(subst(b.a[0], mp))
    if k == 'lt': return lt(subst(b.a[0], mp))
    if k == 'eq': return eq0(subst(b.a[0], mp))
    if k == 'ne': return ne0(subst(b.a[0], mp))
    if k == 'and': return band(*[substb(x, mp) for x in b.a])
    if k == 'or': return bor(*[substb(x, mp) for x in b.a])
    if k == 'not': return bnot(substb(b.a[0], mp))
    if k == 'atom': return B('atom', (b.a[0],) + tuple(subst(x, mp) if isinstance(x, Poly) else x for x in b.a[1:]))
    return b

# collect atoms (deep)
_deepc = {}
def deep_of(i):
    r = _deepc.get(i)
    if r is None:
        out = {i}; at = _byid[i]
        for x in at.args:
            if isinstance(x, Poly): deep_atoms_p(x, out)
            elif isinstance(x, B): deep_atoms_b(x, out)
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, Poly): deep_atoms_p(y, out)
                    elif isinstance(y, B): deep_atoms_b(y, out)
        r = frozenset(out); _deepc[i] = r
    return r
def deep_atoms_p(p, out):
    for m in p.d:
        for a, _ in m:
            if a not in out: out |= deep_of(a)
            
_deepb = {}
def deep_atoms_b(b, out):
    r = _deepb.get(b)
    if r is None:
        o = set()
        for x in b.a:
            if isinstance(x, Poly): deep_atoms_p(x, o)
            elif isinstance(x, B): deep_atoms_b(x, o)
        r = frozenset(o); _deepb[b] = r
    out |= r
def atom(i): return _byid[i]

# ------------------------------------------------------------------ rewriting of ites
def map_ite(p, decide, memo=None):
    """rebuild p, resolving ite/abs atoms through decide(cond)->True/False/None"""
    if memo is None: memo = {}
    r = memo.get(p)
    if r is not None: return r
    r = ZERO
    for m, c in p.d.items():
        t = P(c)
        for a, e in m:
            x = _map_atom(_byid[a], decide, memo)
            for _ in range(e): t = t * x
        r = r + t
    memo[p] = r
    return r
def _map_atom(at, decide, memo):
    k = at.kind
    if k == 'ite':
        c = map_ite_b(at.args[0], decide, memo)
        if c.k == 'true': d = True
        elif c.k == 'false': d = False
        else: d = decide(c)
        if d is True: return map_ite(at.args[1], decide, memo)
        if d is False: return map_ite(at.args[2], decide, memo)
        return ite(c, map_ite(at.args[1], decide, memo), map_ite(at.args[2], decide, memo))
    if k == 'abs':
        q = map_ite(at.args[0], decide, memo)
        d = decide(le(-q))
        if d is True: return q
        if d is False: return -q
        return pabs(q)
    if k == 'sel':
        if not at.args[1]: return P(at)
        return P(_mk('sel', (at.args[0], tuple(map_ite(x, decide, memo) for x in at.args[1])), at.sort))
    if k == 'inv': return inv(map_ite(at.args[0], decide, memo))
    if k == 'div': return idiv(map_ite(at.args[0], decide, memo), map_ite(at.args[1], decide, memo))
    if k == 'floor': return floor_(map_ite(at.args[0], decide, memo))
    return P(at)
def map_ite_b(b, decide, memo):
    k = b.k
    if k == 'le': return le(map_ite(b.a[0], decide, memo))
    if k == 'lt': return lt(map_ite(b.a[0], decide, memo))
    if k == 'eq': return eq0(map_ite(b.a[0], decide, memo))
    if k == 'ne': return ne0(map_ite(b.a[0], decide, memo))
    if k == 'and': return band(*[map_ite_b(x, decide, memo) for x in b.a])
    if k == 'or': return bor(*[map_ite_b(x, decide, memo) for x in b.a])
    if k == 'not': return bnot(map_ite_b(b.a[0], decide, memo))
    return b

def map_args(p, f):
    """rebuild p with f applied to the polynomial arguments of its atoms"""
    memo = {}
    def fb(b):
        k = b.k
        if k == 'le': return le(f(b.a[0]))
        if k == 'lt': return lt(f(b.a[0]))
        if k == 'eq': return eq0(f(b.a[0]))
        if k == 'ne': return ne0(f(b.a[0]))
        if k == 'and': return band(*[fb(x) for x in b.a])
        if k == 'or': return bor(*[fb(x) for x in b.a])
        if k == 'not': return bnot(fb(b.a[0]))
        return b
    def one(at):
        k = at.kind
        if k == 'ite': return ite(fb(at.args[0]), f(at.args[1]), f(at.args[2]))
        if k == 'abs': return pabs(f(at.args[0]))
        if k == 'inv': return inv(f(at.args[0]))
        return P(at)
    r = ZERO
    for m, c in p.d.items():
        t = P(c)
        for a, e in m:
            x = memo.get(a)
            if x is None:
                at = _byid[a]
                x = memo[a] = one(at) if at.kind in ('ite', 'abs', 'inv') else P(at)
            t = t * x ** e
        r = r + t
    return r

# ------------------------------------------------------------------ printing
def fmt_atom(a, lim=400):
    if a.kind == 'sym': return a.args[0]
    if a.kind == 'sel': return '%s(%s)' % (a.args[0], ','.join(map(repr, a.args[1])))
    if a.kind == 'sum': return 'Sum(%r,%r,%r,%r)' % (_byid[a.args[0]], a.args[1], a.args[2], a.args[3])
    return '%s(%s)' % (a.kind, ','.join(map(repr, a.args)))
def fmt(p):
    if not p.d: return '0'
    out = []
    for m, c in sorted(p.d.items(), key=lambda x: x[0], reverse=True):
        ms = '*'.join((fmt_atom(_byid[a]) + ('^%d' % e if e > 1 else '')) for a, e in m)
        if not ms: out.append(str(c))
        elif c == 1: out.append(ms)
        elif c == -1: out.append('-' + ms)
        else: out.append('%s*%s' % (c, ms))
    s = ' + '.join(out)
    return s if len(out) == 1 else '(' + s + ')'
def fmtb(b):
    if b.k == 'le': return '%r <= 0' % b.a[0]
    if b.k == 'lt': return '%r < 0' % b.a[0]
    if b.k == 'eq': return '%r == 0' % b.a[0]
    if b.k == 'ne': return '%r != 0' % b.a[0]
    if b.k in ('and', 'or'): return '(' + (' %s ' % b.k).join(map(repr, b.a)) + ')'
    if b.k == 'atom': return '%s%r' % (b.a[0], b.a[1:])
    return b.k + repr(b.a)
