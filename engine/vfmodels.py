"""Meaning of the contract vocabulary of drivers/vf.h for the verifier."""
from execu import *
import execu as E

def cname(ex, p):
    try:
        rg = ex.regions[p.r]
        b = rg.base
        if b[0] == 'init':
            v = b[1][2]
            if v[0] == 'cstr': return bytes(x for x in v[1] if x).decode('latin1')
    except Exception: pass
    return 'x'

def install(ex):
    M = ex.model
    ex.asserts = {}
    def asint(v): return v
    def vf_assume(ex, st, a, c):
        b = tob(a[0])
        if ex.pr.refuted(st.pc, b): raise Dead()
        if b.k == 'false': raise Dead()
        st.assume(b)
    def tob(v):
        return v if isinstance(v, B) else ne0(v)
    def record(ex, st, goal, msg):
        if ex.mute: return
        ex.asserts[msg] = ex.asserts.get(msg, 0) + 1
        ex.obligation(st, goal, 'post: ' + msg)
        st.assume(goal)
    M(r'vfi::vf_assume\(', vf_assume)
    M(r'vfi::vf_assert\(', lambda ex, st, a, c: record(ex, st, tob(a[0]), cname(ex, a[1])))
    def undefchk(ex, st, vs, msg):
        if any(v is UNDEF for v in vs):
            if not ex.mute:
                ex.asserts[msg] = ex.asserts.get(msg, 0) + 1
                ex.obls.append(Obl('post: ' + msg, ex.pr.inconsistent(st.pc), 'uninitialised value', ex.where()))
            return True
    def vf_close(ex, st, a, c):
        m = cname(ex, a[3])
        if undefchk(ex, st, a[:2], m): return
        record(ex, st, eq(a[0], a[1]), m)
    M(r'vfi::vf_close\(', vf_close)
    def vf_le(ex, st, a, c):
        m = cname(ex, a[3])
        if undefchk(ex, st, a[:2], m): return
        record(ex, st, le(a[0] - a[1]), m)
    M(r'vfi::vf_le\(', vf_le)
    def vf_size(ex, st, a, c):
        lo, hi = a[1], a[2]
        if lo.is_const() and hi.is_const(): return newsym(cname(ex, a[0]), 'I', int(lo.const()), int(ex.U(st, hi, 64).const()))
        s = newsym(cname(ex, a[0]), 'I', 0, 2 ** 64 - 1)
        st.assume(lo <= s); st.assume(s <= hi)
        return s
    M(r'vfi::vf_size\(', vf_size)
    def vf_int(ex, st, a, c):
        lo, hi = ex.S(st, a[1], 64), ex.S(st, a[2], 64)
        return newsym(cname(ex, a[0]), 'I', int(lo.const()), int(hi.const()))
    M(r'vfi::vf_int\(', vf_int)
    def vf_index(ex, st, a, c):
        n = ex.U(st, a[1], 64)
        if n.is_const():
            if n.const() == 0: raise Dead()
            i = newsym(cname(ex, a[0]), 'I', 0, int(n.const()) - 1)
        else:
            i = newsym(cname(ex, a[0]), 'I', 0, 2 ** 63 - 1)
            st.assume(lt(i - n))
        ex.index_syms = getattr(ex, 'index_syms', []) + [i]
        return i
    M(r'vfi::vf_index\(', vf_index)
    M(r'vfi::vf_real\(', lambda ex, st, a, c: newsym(cname(ex, a[0]), 'R'))
    def vf_real_in(ex, st, a, c):
        s = newsym(cname(ex, a[0]), 'R')
        st.assume(a[1] <= s); st.assume(s <= a[2])
        return s
    M(r'vfi::vf_real_in\(', vf_real_in)
    M(r'vfi::vf_bool\(', lambda ex, st, a, c: ne0(newsym(cname(ex, a[0]), 'I', 0, 1)))
    def arr(ex, st, a):
        n = ex.U(st, a[1], 64)
        nm = cname(ex, a[0])
        E.NM.n += 1
        fn = '%s@%d' % (nm, E.NM.n)
        r = ex.region('input', n * 8, ('arr', fn, 8, 'double'), nm)
        return r, fn, n
    def vf_reals(ex, st, a, c):
        r, fn, n = arr(ex, st, a)
        return Ptr(r.id, ZERO)
    M(r'vfi::vf_reals\(', vf_reals)
    def vf_positive(ex, st, a, c):
        r, fn, n = arr(ex, st, a)
        t = sym('t+', 'I')
        st.pc.append(Forall([t], band(P(0) <= t, t < n), app(fn, [t], 'R') > ZERO, [(fn, [t])], 'positive'))
        return Ptr(r.id, ZERO)
    M(r'vfi::vf_positive\(', vf_positive)
    def vf_increasing(ex, st, a, c):
        r, fn, n = arr(ex, st, a)
        t = sym('t+', 'I'); u = sym('u+', 'I')
        st.pc.append(Forall([t, u], band(P(0) <= t, t < u, u < n), app(fn, [t], 'R') < app(fn, [u], 'R'), [(fn, [t]), (fn, [u])], 'increasing'))
        return Ptr(r.id, ZERO)
    M(r'vfi::vf_increasing\(', vf_increasing)
    def vf_bytes(ex, st, a, c):
        n = ex.U(st, a[1], 64); E.NM.n += 1
        return Ptr(ex.region('input', n, ('arr', '%s@%d' % (cname(ex, a[0]), E.NM.n), 1, 'int'), cname(ex, a[0])).id, ZERO)
    M(r'vfi::vf_bytes\(', vf_bytes)
    def vf_fill(ex, st, a, c):
        n = ex.U(st, a[1], 64)
        if n.is_const() and n.const() == 0: return None
        if a[0].r == 0: return None
        ex.havoc(st, a[0], n * 8, 'fill')
    M(r'vfi::vf_fill\(', vf_fill)
    def vf_fun(ex, st, a, c):
        if not a[0].is_const(): raise Incomplete('vf_fun with a symbolic function number')
        if a[1] is UNDEF: raise Incomplete('vf_fun of an undefined value')
        return app('fun%d' % a[0].const(), [a[1]])
    M(r'vfi::vf_fun\(', vf_fun)
    M(r'vfi::vf_app\(', lambda ex, st, a, c: app('app%d' % a[0].const(), a[1:]))
    def vf_slice(ex, st, a, c):
        n = ex.U(st, a[1], 64); u = sym('slice!u', 'I', 0, 2 ** 62)
        s2 = st.clone(); s2.assume(u < n)
        v = ex.load(s2, DOUBLE, Ptr(a[0].r, a[0].o + u * 8), c['mod'] or ex.mods[0])
        if v is UNDEF: raise Incomplete('slice of undefined values')
        import prover, terms as T
        for rnd in range(6):       # choices that are settled for every position of the sequence
            deep = set(); T.deep_atoms_p(v, deep); mp = {}
            for i in deep:
                at = T._byid[i]
                if at.kind != 'ite' or atom_of(u).id not in T._byid[i].args[0].syms(): continue
                if ex.pr.valid(s2.pc, at.args[0]): mp[i] = at.args[1]
                elif ex.pr.valid(s2.pc, bnot(at.args[0])): mp[i] = at.args[2]
            if not mp: break
            r = ZERO
            for mono, cf in v.d.items():
                t = P(cf)
                for a_, e_ in mono:
                    for _ in range(e_): t = t * mp.get(a_, P(T._byid[a_]))
                r = r + t
            if r == v: break
            v = r
        lv = 0; deep = set(); T.deep_atoms_p(v, deep)
        for i in deep:
            at = T._byid[i]
            if at.kind == 'sym' and at.args[0].startswith('slice!') and at.args[0] != 'slice!u': lv = max(lv, 1 + int(at.args[0][6:]))
        w = sym('slice!%d' % lv, 'I', 0, 2 ** 62)
        return app('slice', [n, T.subst(v, {atom_of(u).id: w})])
    M(r'vfi::vf_slice\(', vf_slice)
    def vf_unreachable(ex, st, a, c):
        m = cname(ex, a[0])
        if not ex.mute:
            ex.asserts[m] = ex.asserts.get(m, 0) + 1
            ex.obligation(st, FALSE, 'post: ' + m)
        raise Dead()
    M(r'vfi::vf_unreachable\(', vf_unreachable)
    def vf_hint(ex, st, a, c):
        st.ghost['hints'] = (a[0],) + tuple(st.ghost.get('hints', ()))[:5]
    M(r'vfi::vf_hint\(', vf_hint)
    def vf_fits(ex, st, a, c):
        import itertools
        lim = a[0]
        fs = [x for x in a[1:] if not (x.is_const() and x.const() == 1)]
        for k in range(1, len(fs) + 1):
            for sub in itertools.combinations(fs, k):
                p = P(1)
                for x in sub: p = p * x
                st.assume(p <= lim)
    M(r'vfi::vf_fits\(', vf_fits)

def run_contract(mods, fname, extra_models=()):
    """symbolically execute one contract; returns the Exec with its obligations"""
    ex = Exec(mods)
    install(ex)
    for f in extra_models: f(ex)
    m, f = ex.find_dem('vfc::%s()' % fname)
    st = State()
    res = ex.run(m, f, [], st)
    nret = 0
    for s, k, v in res:
        if k == 'exc':
            ti = v[0]
            ok = ex.pr.inconsistent(s.pc) or ex.pr.valid(s.pc, FALSE)
            ex.obls.append(Obl('no exception escapes', ok, 'exception %s escapes the contract function; path: %r' % (ti, s.br[-6:]), fname))
            continue
        if ex.pr.valid(s.pc, FALSE, nl=False): continue
        nret += 1
        leaked = [ex.regions[h] for h in s.heap if h not in s.dead]
        ex.obls.append(Obl('no heap memory is leaked', not leaked, repr(leaked), fname))
    ex.obls.append(Obl('contract is not vacuous', nret > 0 and sum(ex.asserts.values()) > 0, 'no feasible normal return reaches a postcondition', fname))
    return ex
