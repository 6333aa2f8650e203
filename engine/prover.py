"""Obligation prover: polynomial normal form, then z3 (linear abstraction, then nonlinear); cvc5 optional."""
import z3, time, os
DBG = int(os.environ.get('VF_PZ', '0'))
TM = float(os.environ.get('VF_TMULT', '1'))
from fractions import Fraction
from terms import *
import terms as T

class Stats:
    def __init__(self):
        self.calls = 0; self.nf = 0; self.z3lin = 0; self.z3nl = 0; self.unknown = 0; self.t_z3 = 0.0; self.cache = 0
STATS = Stats()

class Ctx:
    """z3 translation of one query"""
    def __init__(self, linear, opaque=False):
        self.opaque = opaque      # uninterpreted applications and absolute values are plain unknowns (weaker, much faster)
        self.linear = linear; self.cache = {}; self.mono = {}; self.bools = {}
        self.funcs = {}
        self.bcache = {}          # B -> z3
        self.side_of = {}         # atom id / monomial -> [z3 side constraints]
        self.deps = {}            # B -> frozenset of atom ids / monomials
        self._cur = None
    @property
    def side(self): return self._cur
    def deps_of(self, b):
        """atoms and monomials (deep) mentioned by b, including those of side constraints"""
        r = self.deps.get(b)
        if r is None:
            s = set(); deep_atoms_b(b, s)
            for i in list(s):
                at = T._byid[i]
                if at.kind == 'div':
                    pr = at.args[1] * P(at)
                    deep_atoms_p(pr, s)
            out = set(s)
            if self.linear: monos_b(b, out)
            for i in s:
                at = T._byid[i]
                if self.linear:
                    for x in at.args:
                        if isinstance(x, Poly): monos_p(x, out)
                        elif isinstance(x, B): monos_b(x, out)
                    if at.kind == 'div': monos_p(at.args[1] * P(at), out)
            r = frozenset(out); self.deps[b] = r
        return r
    def sides(self, bs):
        seen = set(); out = []
        for b in bs:
            for d in self.deps_of(b):
                if d not in seen:
                    seen.add(d)
                    if isinstance(d, int): self.atom(T._byid[d])
                    else: self.monovar(d)
                    out.extend(self.side_of.get(d, ()))
        return out
    def tr(self, b):
        r = self.bcache.get(b)
        if r is None:
            r = self.b(b); self.bcache[b] = r
        return r
    def func(self, name, n, sort, argsorts):
        key = (name, sort, tuple(argsorts))
        f = self.funcs.get(key)
        if f is None:
            so = z3.IntSort() if sort == 'I' else z3.RealSort()
            f = z3.Function(name + '_' + ''.join(argsorts), *([z3.IntSort() if a == 'I' else z3.RealSort() for a in argsorts] + [so]))
            self.funcs[key] = f
        return f
    def atom(self, at):
        r = self.cache.get(at.id)
        if r is not None: return r
        k = at.kind
        saved = self._cur; self._cur = []
        try:
            r = self._atom(at, k)
            self.side_of[at.id] = self._cur
        finally: self._cur = saved
        return r
    def _atom(self, at, k):
        nm = '%s_%d' % (k, at.id)
        mkc = (lambda: z3.Int(nm)) if at.sort == 'I' else (lambda: z3.Real(nm))
        if k == 'sym':
            r = mkc()
        elif k == 'sel':
            args = at.args[1]
            if not args or self.opaque: r = mkc()
            else:
                so = ['I' if x.is_int() else 'R' for x in args]
                f = self.func(at.args[0], len(args), at.sort, so)
                r = f(*[self.poly(x, s) for x, s in zip(args, so)])
        elif k == 'inv':
            r = mkc(); self.cache[at.id] = r
            if not self.linear:
                q = self.poly(at.args[0], 'R')
                self.side.append(z3.Implies(q != 0, r * q == 1))
            else:
                q = self.poly(at.args[0], 'R')
                self.side.append(z3.Implies(q > 0, r > 0)); self.side.append(z3.Implies(q < 0, r < 0))
            return r
        elif k == 'div':
            r = mkc(); self.cache[at.id] = r
            p, q = at.args
            pz = self.poly(p, 'I'); qz = self.poly(q, 'I')
            prod = self.poly(q * P(at), 'I')
            self.side.append(z3.Implies(qz > 0, z3.And(prod <= pz, pz < prod + qz)))
            self.side.append(z3.Implies(z3.And(qz > 0, pz >= 0), z3.And(r >= 0, r <= pz)))
            return r
        elif k == 'ite':
            s = at.sort
            r = z3.If(self.b(at.args[0]), self.poly(at.args[1], s), self.poly(at.args[2], s))
        elif k == 'abs' and self.opaque:
            r = mkc(); self.cache[at.id] = r; self.side.append(r >= 0)
            return r
        elif k == 'abs':
            x = self.poly(at.args[0], at.sort)
            r = z3.If(x >= 0, x, -x)
        elif k == 'floor':
            x = self.poly(at.args[0], 'R')
            r = z3.ToInt(x)
        else:
            r = mkc()
        self.cache[at.id] = r
        if at.lo is not None: self.side.append(r >= at.lo)
        if at.hi is not None: self.side.append(r <= at.hi)
        return r
    def poly(self, p, sort=None):
        if sort is None: sort = 'I' if p.is_int() else 'R'
        terms = []
        for m, c in p.d.items():
            terms.append(self.term(m, c, sort))
        if not terms: return z3.IntVal(0) if sort == 'I' else z3.RealVal(0)
        return terms[0] if len(terms) == 1 else z3.Sum(terms)
    def monovar(self, m):
        v = self.mono.get(m)
        if v is None:
            isint = all(T._byid[a].sort == 'I' for a, _ in m)
            nm = 'mono_' + '_'.join('%d^%d' % x for x in m)
            v = z3.Int(nm) if isint else z3.Real(nm)
            self.mono[m] = v
            if all(e % 2 == 0 for a, e in m): self.side_of[m] = [v >= 0]
            else: self.side_of[m] = []
        return v
    def term(self, m, c, sort):
        if sort == 'I': cv = z3.IntVal(int(c))
        else: cv = z3.RealVal(str(c))
        if not m: return cv
        deg = sum(e for _, e in m)
        if deg > 1 and self.linear:
            v = self.monovar(m)
            isint = all(T._byid[a].sort == 'I' for a, _ in m)
            if sort == 'R' and isint: v = z3.ToReal(v)
            return cv * v if c != 1 else v
        r = None
        for a, e in m:
            at = T._byid[a]; x = self.atom(at)
            if sort == 'R' and at.sort == 'I': x = z3.ToReal(x)
            for _ in range(e): r = x if r is None else r * x
        return r if c == 1 else cv * r
    def b(self, b):
        k = b.k
        if k == 'true': return z3.BoolVal(True)
        if k == 'false': return z3.BoolVal(False)
        if k == 'le': return self.cmp(b.a[0], lambda x, y: x <= y)
        if k == 'lt': return self.cmp(b.a[0], lambda x, y: x < y)
        if k == 'eq': return self.cmp(b.a[0], lambda x, y: x == y)
        if k == 'ne': return self.cmp(b.a[0], lambda x, y: x != y)
        if k == 'and': return z3.And(*[self.b(x) for x in b.a])
        if k == 'or': return z3.Or(*[self.b(x) for x in b.a])
        if k == 'not': return z3.Not(self.b(b.a[0]))
        if k == 'atom':
            nm = 'b_%s' % (b.a,)
            r = self.bools.get(nm)
            if r is None:
                r = z3.Bool('bool%d' % len(self.bools)); self.bools[nm] = r
            return r
        raise Exception(k)
    def cmp(self, p, f):
        s = 'I' if all_int(p) else 'R'
        if s == 'I': p = T._intscale(p)
        # move the constant to the right, keeps z3 arithmetic simple
        return f(self.poly(p, s), z3.IntVal(0) if s == 'I' else z3.RealVal(0))

def monos_p(p, out):
    for m in p.d:
        if sum(e for _, e in m) > 1: out.add(m)
def monos_b(b, out):
    for x in b.a:
        if isinstance(x, Poly): monos_p(x, out)
        elif isinstance(x, B): monos_b(x, out)
_LIN = None; _NL = None; _NLO = None
quick_range = None    # set by execu: interval arithmetic over the symbols' declared ranges
def lin():
    global _LIN
    if _LIN is None or len(_LIN.cache) > 60000: _LIN = Ctx(True)
    return _LIN
def nlc():
    global _NL
    if _NL is None or len(_NL.cache) > 60000: _NL = Ctx(False)
    return _NL

def nlo():
    global _NLO
    if _NLO is None or len(_NLO.cache) > 60000: _NLO = Ctx(False, True)
    return _NLO

_realc = {}
def has_real(b):
    r = _realc.get(b)
    if r is None:
        s = set(); deep_atoms_b(b, s)
        r = any(T._byid[i].sort == 'R' for i in s)
        _realc[b] = r
    return r
_topc = {}
def top_atoms(b):
    """atoms of b, not looking inside sel arguments (their index terms do not connect facts)"""
    r = _topc.get(b)
    if r is None:
        out = set()
        def pp(p):
            for m in p.d:
                for a, _ in m: aa(T._byid[a])
        def aa(at):
            if at.id in out: return
            out.add(at.id)
            if at.kind == 'sel': return
            for x in at.args:
                if isinstance(x, Poly): pp(x)
                elif isinstance(x, B): bb(x)
        def bb(b):
            if b.k == 'atom': out.add(('b',) + b.a); return
            for x in b.a:
                if isinstance(x, Poly): pp(x)
                elif isinstance(x, B): bb(x)
        bb(b); r = frozenset(out); _topc[b] = r
    return r

def flatten(facts):
    out = []
    for f in facts:
        if isinstance(f, Forall): out.append(f)
        elif f.k == 'and': out.extend(flatten(f.a))
        elif f.k == 'true': pass
        else: out.append(f)
    return out

def solve_eqs(facts):
    """substitution from equality facts of the shape sym = poly"""
    mp = {}
    for f in facts:
        if isinstance(f, Forall) or f.k != 'eq': continue
        p = subst(f.a[0], mp) if mp else f.a[0]
        best = None
        for m, c in p.d.items():
            if len(m) == 1 and m[0][1] == 1:
                at = T._byid[m[0][0]]
                if at.kind != 'sym': continue
                rest = p - Poly({m: c})
                if at.id in rest.syms(): continue
                if at.sort == 'I':
                    if abs(c) != 1 or not all_int(rest): continue
                    if any(isinstance(v, Fraction) for v in rest.d.values()): continue
                best = (at, c, rest)
                if at.args[0].startswith('k~') or '~' in at.args[0]: break
        if best:
            at, c, rest = best
            val = rest * P(Fraction(-1) / Fraction(c))
            new = {at.id: val}
            mp = {a: subst(v, new) for a, v in mp.items()}
            mp[at.id] = val
    return mp

FLAGS = set()                      # symbols of boolean cells changed by a cut loop: what they record may depend on reals
class Prover:
    def __init__(self, timeout_ms=4000):
        self.timeout = timeout_ms
        self.cache = {}
        self.last_model = None
        self.log = None

    def valid(self, facts, goal, timeout=None, nl=True, quick=False, nofa=False):
        """True iff facts |= goal was proved"""
        STATS.calls += 1
        if goal.k == 'true': return True
        if goal.k == 'and':
            return all(self.valid(facts, g, timeout, nl, quick, nofa) for g in goal.a)
        facts = flatten(facts)
        if nofa: facts = [f for f in facts if isinstance(f, B)]
        if quick: facts = [f for f in facts if isinstance(f, B) and (len(deep_b(f)) < 60)]
        if goal in facts: return True
        if bnot(goal) in facts and quick: return False
        key = (goal, tuple(f if isinstance(f, B) else id(f) for f in facts), nl)
        r = self.cache.get(key)
        if r is not None:
            STATS.cache += 1
            return r
        r = self._valid(facts, goal, timeout, nl)
        self.cache[key] = r
        if not r and self.log is not None: self.log(facts, goal)
        return r

    def refuted(self, facts, c):
        """cheap: is c certainly impossible under the facts (path pruning only)"""
        return self.valid(facts, bnot(c), nl=False, quick=True)
    def inconsistent(self, facts, timeout=None):
        return self.valid(facts, FALSE, timeout, nl=False)

    def _valid(self, facts, goal, timeout, nl):
        for f in facts:
            if isinstance(f, B) and f.k == 'false': return True
        if goal.k in ('le', 'lt', 'ne') and quick_range is not None:
            lo, hi = quick_range(goal.a[0])
            if goal.k == 'le' and hi is not None and hi <= 0: return True
            if goal.k == 'lt' and hi is not None and hi < 0: return True
            if goal.k == 'ne' and (lo is not None and lo > 0 or hi is not None and hi < 0): return True
        if goal.k == 'eq':
            if self.prove_zero(facts, goal.a[0]): STATS.nf += 1; return True
        return self.z3valid(facts, goal, timeout, nl)

    # ---- instantiation of quantified facts
    def instantiate(self, foralls, ground, goal, rounds=2):
        out = []
        done = set()
        cur = set()
        for b in ground: deep_atoms_b(b, cur)
        ga = set()
        if goal is not None: deep_atoms_b(goal, ga)
        cur |= ga
        for _ in range(rounds):
            new = []
            sels = {}
            for i in sorted(cur, key=lambda z: (z not in ga, z)):
                at = T._byid[i]
                if at.kind == 'sel' and at.args[1]: sels.setdefault(at.args[0], []).append(at)
            for fa in foralls:
                vids = [atom_of(v).id for v in fa.vars]
                binds = [dict()]
                # each trigger binds some vars; variables bound by different triggers combine
                for fname, pats in fa.trigs:
                    nb = []
                    for at in sels.get(fname, ()):
                        bd = match_trig(pats, at.args[1], vids)
                        if bd is None: continue
                        for b0 in binds:
                            ok = True; b1 = dict(b0)
                            for k2, v2 in bd.items():
                                if k2 in b1 and b1[k2] != v2: ok = False; break
                                b1[k2] = v2
                            if ok and b1 not in nb: nb.append(b1)
                    # keep combos
                    if len(nb) > 250: nb = nb[:250]
                    binds = nb
                    if not binds: break
                for b0 in binds:
                    if set(b0) != set(vids): continue
                    key = (id(fa), tuple(b0[v] for v in vids))
                    if key in done: continue
                    done.add(key)
                    g = fa.inst([b0[v] for v in vids])
                    if g.k != 'true': new.append(g)
            if not new: break
            out += new
            for b in new: deep_atoms_b(b, cur)
            if len(out) > 400: break
        return out

    def z3valid(self, facts, goal, timeout, nl):
        t0 = time.time()
        try:
            return self._z3valid(facts, goal, timeout, nl)
        finally:
            STATS.t_z3 += time.time() - t0

    def relevant(self, facts, goal):
        """cone of influence; integer goals only see facts free of real-valued terms"""
        ground = facts
        if goal.k == 'false': return list(dict.fromkeys(ground))
        if not has_real(goal) and not goal.syms() & FLAGS: ground = [f for f in ground if not has_real(f)]
        s = set(top_atoms(goal))
        at = [top_atoms(f) for f in ground]
        inc = [False] * len(ground)
        ch = True
        while ch:
            ch = False
            for i, x in enumerate(at):
                if not inc[i] and (not x or x & s):
                    inc[i] = True
                    if not x <= s: s |= x; ch = True
        return list(dict.fromkeys(f for f, k in zip(ground, inc) if k))

    def _z3valid(self, facts, goal, timeout, nl):
        foralls = [f for f in facts if isinstance(f, Forall)]
        ground0 = [f for f in facts if isinstance(f, B)]
        inst = []
        if foralls and goal.k != 'false' and (has_real(goal) or any_sel(goal)):
            # cheap first attempt: only instances over terms of the goal itself
            inst = self.instantiate(foralls, [], goal, rounds=1)
            if inst:
                s = z3.SimpleSolver(); s.set('timeout', int(500 * TM)); c = lin()
                g0 = self.relevant(ground0 + inst, goal)
                for f in g0: s.add(c.tr(f))
                s.add(z3.Not(c.tr(goal)))
                for x in c.sides(g0 + [goal]): s.add(x)
                if s.check() == z3.unsat:
                    STATS.z3lin += 1
                    return True
            inst = []
        if foralls and (goal.k == 'false' or has_real(goal) or any_sel(goal)):
            inst = self.instantiate(foralls, ground0, goal)
        ground = self.relevant(ground0 + inst, goal)
        prods = int_products(ground, goal)
        # stage 1: linear abstraction
        c = lin()
        s = z3.SimpleSolver()
        s.set('timeout', int(1500 * TM))
        bs = ground + prods + [goal]
        for f in ground + prods: s.add(c.tr(f))
        s.add(z3.Not(c.tr(goal)))
        for x in c.sides(bs): s.add(x)
        r = s.check()
        if r == z3.unsat:
            STATS.z3lin += 1
            return True
        deps = set()
        for b in bs: deps |= c.deps_of(b)
        has_nl = any(not isinstance(d, int) for d in deps) or any(isinstance(d, int) and T._byid[d].kind == 'inv' for d in deps)
        if not nl or not has_nl:
            if r == z3.sat: self.last_model = (s.model(), c, facts, goal)
            STATS.unknown += 1
            return False
        # stage 2: nonlinear, first with uninterpreted terms as unknowns
        if any(isinstance(d, int) and T._byid[d].kind in ('sel', 'abs') and T._byid[d].args[-1] for d in deps):
            c = nlo(); s = z3.Solver(); s.set('timeout', int((timeout or self.timeout) * TM / 2))
            for f in ground + prods: s.add(c.tr(f))
            s.add(z3.Not(c.tr(goal)))
            for x in c.sides(bs): s.add(x)
            if s.check() == z3.unsat:
                STATS.z3nl += 1
                return True
        c = nlc()
        s = z3.Solver()
        s.set('timeout', int((timeout or self.timeout) * TM))
        for f in ground + prods: s.add(c.tr(f))
        s.add(z3.Not(c.tr(goal)))
        for x in c.sides(bs): s.add(x)
        r = s.check()
        if r == z3.unsat:
            STATS.z3nl += 1
            return True
        if r == z3.sat: self.last_model = (s.model(), c, facts, goal)
        STATS.unknown += 1
        return False

    # ---- equality of rational functions with ites
    def prove_zero(self, facts, p, depth=0, budget=None):
        if budget is None: budget = [200]
        if not p.d: return True
        budget[0] -= 1
        if budget[0] < 0: return False
        mp = solve_eqs(facts)
        if mp:
            p = subst(p, mp)
            if not p.d: return True
        if depth == 0 and any(T._byid[i].kind == 'inv' for i in deep_p(p)):
            nz = {}
            def nonz(d):
                if d not in nz: nz[d] = self.nonzero(facts, d)
                return nz[d]
            p = cancel_inv(p, nonz, {})
            if not p.d: return True
        q = p
        conds = []
        collect_conds(q, conds)
        if conds:
            memo = {}
            def dec(c):
                if c not in memo:
                    memo[c] = True if self.valid(facts, c, nl=False) else False if self.valid(facts, bnot(c), nl=False) else None
                return memo[c]
            q2 = map_ite(q, dec)
            if DBG and q2 != q: print('   PZ resolve', depth, budget, len(q.d), len(q2.d), {str(c)[:90]: v for c, v in memo.items()})
            if q2 != q: return self.prove_zero(facts, q2, depth, budget)
        r = self.clear_denominators(facts, q)
        if r is not None and not r.d: return True
        # split on ite / abs
        if not conds:
            if DBG: print('   PZ residual depth', depth, 'None' if r is None else len(r.d), str(q)[:DBG])
            return False
        if not any(isinstance(c, B) for c in conds): return False
        if DBG and depth == 0: print('   PZ undecided', len(conds), [str(c)[:200] for c in conds][:6], None if r is None else len(r.d))
        if depth > 14: return False
        ic = [c for c in conds if c in ite_conds(q)]
        c = (ic or conds)[0]
        f1 = facts + [c]; f2 = facts + [bnot(c)]
        f1 = flatten(f1); f2 = flatten(f2)
        if not self.inconsistent(f1):
            if not self.prove_zero(f1, map_ite(q, lambda x: True if x == c else None), depth + 1, budget): return False
        if not self.inconsistent(f2):
            if not self.prove_zero(f2, map_ite(q, lambda x: False if x == c else None), depth + 1, budget): return False
        return True

    def clear_denominators(self, facts, p, limit=4000):
        """multiply p by (nonzero) denominators, highest power first, until it vanishes or none is left; None if too big"""
        bad = set()
        for _ in range(40):
            ex = {}
            for m in p.d:
                for a, e in m:
                    if a not in bad and T._byid[a].kind == 'inv' and e > ex.get(a, 0): ex[a] = e
            if not ex: return p
            i = max(ex, key=lambda a: (ex[a], -len(T._byid[a].args[0].d), a))
            q = T._byid[i].args[0]; e = ex[i]
            if not self.nonzero(facts, q): bad.add(i); continue
            pw = [ONE]
            for _ in range(e): pw.append(pw[-1] * q)
            groups = {}
            for m, c in p.d.items():
                md = dict(m); k = md.pop(i, 0)
                groups.setdefault(k, {})[tuple(sorted(md.items()))] = c
            if sum(len(d) * len(pw[e - k].d) for k, d in groups.items()) > limit: return None
            r = ZERO
            for k, d in groups.items(): r = r + Poly(d) * pw[e - k]
            p = r
            if not p.d: return p
        return p

    def nonzero(self, facts, q):
        if q.is_const(): return q.const() != 0
        return self.valid(facts, ne0(q))

def poly_div(p, q, cap=400):
    """exact quotient p/q or None"""
    if len(p.d) > cap or not q.d: return None
    ats = sorted(p.atoms() | q.atoms(), reverse=True)
    if not (q.atoms() <= p.atoms()): return None
    def key(m):
        d = dict(m); return tuple(d.get(a, 0) for a in ats)
    lq = max(q.d, key=key); kq = key(lq); cq = q.d[lq]
    quo = ZERO; r = p
    for _ in range(cap):
        if not r.d: return quo
        lm = max(r.d, key=key); km = key(lm)
        if any(x < y for x, y in zip(km, kq)): return None
        t = Poly({tuple(sorted((a, x - y) for a, x, y in zip(ats, km, kq) if x != y)): T.norm(Fraction(r.d[lm]) / Fraction(cq))})
        quo = quo + t; r = r - t * q
    return None
def cancel_inv(p, nonzero, memo):
    """q*inv(q) -> 1 for provably nonzero q, everywhere inside p"""
    r = memo.get(p)
    if r is not None: return r
    q = T.map_args(p, lambda x: cancel_inv(x, nonzero, memo))
    for i in sorted(q.atoms(), reverse=True):
        at = T._byid[i]
        if at.kind != 'inv': continue
        den = at.args[0]
        if len(den.d) < 2: continue
        groups = {}
        for m, c in q.d.items():
            md = dict(m); k = md.pop(i, 0)
            groups.setdefault(k, {})[tuple(sorted(md.items()))] = c
        ch = False
        for k in sorted(groups, reverse=True):
            if k == 0: continue
            quo = poly_div(Poly(groups[k]), den)
            if quo is not None and nonzero(den):
                ch = True; del groups[k]
                low = Poly(groups.get(k - 1, {})) + quo
                groups[k - 1] = low.d
        if ch:
            v = P(at); q = ZERO
            for k, d in groups.items():
                if d: q = q + Poly(d) * v ** k
    memo[p] = q
    return q

def collect_conds(p, out, seen=None):
    if seen is None: seen = set()
    for m in p.d:
        for a, _ in m:
            if a in seen: continue
            seen.add(a)
            at = T._byid[a]
            for x in at.args:
                if isinstance(x, Poly): collect_conds(x, out, seen)
                elif isinstance(x, tuple):
                    for y in x:
                        if isinstance(y, Poly): collect_conds(y, out, seen)
                elif isinstance(x, B): collect_conds_b(x, out, seen)
            if at.kind == 'ite':
                c = at.args[0]
                if c not in out: out.append(c)
            elif at.kind == 'abs':
                c = le(-at.args[0])
                if c not in out: out.append(c)
def ite_conds(p):
    return {T._byid[i].args[0] for i in deep_p(p) if T._byid[i].kind == 'ite'}
def collect_conds_b(b, out, seen):
    for x in b.a:
        if isinstance(x, Poly): collect_conds(x, out, seen)
        elif isinstance(x, B): collect_conds_b(x, out, seen)

def deep_p(p):
    s = set(); deep_atoms_p(p, s); return s
def deep_b(b):
    s = set(); deep_atoms_b(b, s); return s
def any_sel(b):
    s = set(); deep_atoms_b(b, s)
    return any(T._byid[i].kind == 'sel' and T._byid[i].args[1] for i in s)

def match_trig(pats, args, vids):
    bd = {}
    for p, a in zip(pats, args):
        vs = [v for v in vids if v in p.syms()]
        if not vs:
            if p != a: return None
            continue
        if len(vs) > 1: return None
        v = vs[0]
        c = None
        rest = p
        for m, k in p.d.items():
            if m == ((v, 1),): c = k; rest = p - Poly({m: k})
        if c is None or v in rest.syms(): return None
        val = (a - rest)
        if c != 1:
            if any((Fraction(x) / c).denominator != 1 for x in val.d.values()): return None
            val = Poly({m: norm(Fraction(x) / c) for m, x in val.d.items()})
        if v in bd and bd[v] != val: return None
        bd[v] = val
    return bd

def int_products(ground, goal):
    """valid nonlinear lemmas: products of two nonnegative integer facts, kept when they mention a monomial in play"""
    mons = set()
    def scan(b):
        for x in b.a:
            if isinstance(x, Poly):
                for m in x.d:
                    if sum(e for _, e in m) >= 2 and all(T._byid[a].sort == 'I' for a, _ in m): mons.add(m)
            elif isinstance(x, B): scan(x)
    for g in ground: scan(g)
    scan(goal)
    if not mons: return []
    atoms = set()
    for m in mons:
        for a, _ in m: atoms.add(a)
    nonneg = []
    for g in ground + [bnot(goal)]:
        if g.k == 'le' and all_int(g.a[0]) and len(g.a[0].d) <= 5: nonneg.append(-g.a[0])
        elif g.k == 'eq' and all_int(g.a[0]) and len(g.a[0].d) <= 4: nonneg.append(g.a[0]); nonneg.append(-g.a[0])
    for a in atoms:
        at = T._byid[a]
        if at.lo is not None: nonneg.append(P(at) - at.lo)
    # only facts that mention relevant atoms
    nonneg = [p for p in dict.fromkeys(nonneg) if p.atoms() & atoms]
    nonneg.sort(key=lambda p: (max((sum(e for _, e in m) for m in p.d), default=0), len(p.d)))
    nonneg = nonneg[:40]
    out = []
    for i, p in enumerate(nonneg):
        for q in nonneg[i:]:
            r = p * q
            nlm = [m for m in r.d if sum(e for _, e in m) >= 2]
            if not nlm: continue
            hit = sum(1 for m in nlm if m in mons)
            if hit and hit >= len(nlm) - 1:
                f = le(-r)
                if f.k == 'le': out.append(f)
    # rank: prefer all-hit
    return out[:150]
