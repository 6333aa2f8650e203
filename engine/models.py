"""Trusted models of functions outside /repo (C++ runtime, libm, iostreams, strings)."""
from execu import *
import execu as E

OPAQUE = [
    r'std::(__cxx11::)?basic_string<', r'std::allocator<char>::', r'std::__cxx11::basic_string',
    r'std::__new_allocator<char>', r'bool std::operator(==|!=|<)<char', r'std::__cxx11::basic_string<.*> std::operator\+',
    r'std::__cxx11::to_string', r'std::runtime_error::', r'std::logic_error::', r'std::length_error::', r'std::out_of_range::',
    r'std::invalid_argument::', r'std::domain_error::', r'std::exception::', r'std::bad_alloc::', r'std::ios_base',
    r'std::basic_ostream', r'std::ostream', r'std::operator<<', r'std::basic_ostream<char, .*>& std::operator<<', r'std::endl',
    r'std::basic_ostream<char, .*>& std::endl', r'std::char_traits',
]

def fresh_ret(ex, st, ty, mod, name):
    r = mod.resolve(ty)
    if r.k == 'void': return None
    if r.k == 'int': return newsym('ret_' + name, 'I') if r.a > 1 else batom(newfun('retb_' + name))
    if r.k in ('double', 'float'): return newsym('ret_' + name, 'R')
    if r.k == 'ptr': return ex.alloc(st, 'opaque', P(1 << 40), 'ret_' + name)
    return None

def install(ex):
    M = ex.model
    def opaque(ex, st, args, c):
        ins = c['inst']
        hit = c['hit']
        fdecl = hit[1] if hit else None
        if fdecl is None:
            for m in ex.mods:
                if c['name'] in m.decls: fdecl = m.decls[c['name']]; break
        mod = c['mod'] or ex.mods[0]
        r = mod.resolve(fdecl.ret)
        # objects passed by address are clobbered up to a conservative size
        for (t, nm, at), a in zip(fdecl.params, args):
            if isinstance(a, Ptr) and a.r in ex.regions and not ex.regions[a.r].ro and ex.regions[a.r].kind in ('stack', 'exc'):
                rg = ex.regions[a.r]
                if rg.size.is_const() and rg.size.const() in (8, 16, 32) and a.o.is_const() and a.o.const() == 0 and rg.size.const() == 32:
                    ex.havoc(st, Ptr(a.r, ZERO), rg.size, 'str')
        if r.k == 'ptr':
            if args and isinstance(args[0], Ptr): return args[0]
        return fresh_ret(ex, st, fdecl.ret, mod, 'op')
    for p in OPAQUE: M(p, opaque)

    # ---- allocation
    def op_new(ex, st, args, c):
        n = ex.U(st, args[0], 64)
        p = ex.alloc(st, 'heap', n, 'new')
        return [(st, 'ret', p)]
    M(r'operator new(\[\])?\(unsigned long\)$', op_new)
    M(r'malloc$', op_new)
    def op_delete(ex, st, args, c):
        p = args[0]
        if p is UNDEF:
            if not ex.mute: ex.obls.append(Obl('delete of defined pointer', ex.pr.inconsistent(st.pc), 'delete of undefined pointer', ex.where()))
            raise Dead()
        if p.r == 0: return None
        rg = ex.regions[p.r]
        if not ex.mute:
            if p.r in st.dead: ex.obls.append(Obl('no double free', ex.pr.inconsistent(st.pc), repr(rg), ex.where()))
            ex.obligation(st, eq0(p.o), 'delete of the start of an allocation', repr(p))
            if len(args) > 1: ex.obligation(st, eq(ex.U(st, args[1], 64), rg.size), 'buffer is deallocated with the size it was allocated with', '%r vs %r' % (args[1], rg.size))
            ex.obls.append(Obl('delete of heap memory', rg.kind in ('heap', 'opaque'), repr(rg), ex.where()))
        st.dead = st.dead | {p.r}
        return None
    M(r'operator delete(\[\])?\(void\*(, unsigned long)?\)$', op_delete)
    M(r'free$', op_delete)

    # ---- growth of a vector of numbers: new storage with the old elements and the new last one.  How much spare
    # capacity it gets is left to the library; here it is more than can be used up.
    def el(c): return re.search(r'std::vector<([\w ]+),', c['dem']).group(1)
    def grow(ex, st, args, c):
        m = c['mod'] or ex.mods[0]
        ty = {'double': Ty('double'), 'float': Ty('float')}.get(el(c)) or INT({'char': 8, 'short': 16, 'int': 32, 'long': 64}[el(c).split()[-1]])
        v, pos, x = args
        if isinstance(pos, list): pos = pos[0]
        b, f, e = (ex.load(st, PTR, Ptr(v.r, v.o + 8 * i), m) for i in range(3))
        if not (isinstance(pos, Ptr) and isinstance(f, Ptr) and pos.r == f.r and ex.tri(st, eq(pos.o, f.o)) is True): raise Incomplete('growth of a vector in the middle')
        val = ex.load(st, ty, x, m)
        q = ex.alloc(st, 'heap', P(1 << 60), 'vector'); n = ZERO
        if b.r:
            n = f.o - b.o
            ex.memcpy(st, q, b, n)
            st.dead = st.dead | {b.r}
        ex.store(st, ty, val, Ptr(q.r, n), m)
        for i, o in enumerate((ZERO, n + m.size(ty), P(1 << 60))): ex.store(st, PTR, Ptr(q.r, o), Ptr(v.r, v.o + 8 * i), m)
    M(r'void std::vector<(double|float|(?:unsigned )?(?:int|long|short|char)), std::allocator<[^<>]*> >::_M_realloc_insert<', grow)

    # ---- intrinsics
    def memcpy(ex, st, args, c):
        ex.memcpy(st, args[0], args[1], ex.U(st, args[2], 64)); return args[0]
    def memcmp(ex, st, args, c):
        n = ex.U(st, args[2], 64)
        if not n.is_const() or n.const() % 8: raise Incomplete('memcmp of symbolic length')
        eqs = []
        m = c['mod'] or ex.mods[0]
        for k in range(int(n.const()) // 8):
            x = ex.load(st, INT(64), Ptr(args[0].r, args[0].o + 8 * k), m); y = ex.load(st, INT(64), Ptr(args[1].r, args[1].o + 8 * k), m)
            eqs.append(eq(ex.U(st, x, 64), ex.U(st, y, 64)))
        return ite(band(*eqs), P(0), newsym('memcmp', 'I', 1, 2 ** 31 - 1))
    M(r'(memcmp|bcmp)$', memcmp)
    M(r'llvm\.mem(cpy|move)\.', memcpy); M(r'mem(cpy|move)$', memcpy)
    def memset(ex, st, args, c):
        ex.memset(st, args[0], args[1], ex.U(st, args[2], 64)); return args[0]
    M(r'llvm\.memset\.', memset); M(r'memset$', memset)
    def lifetime(ex, st, a, c):
        # an automatic object has no content before its lifetime and after it
        p = a[1]
        if isinstance(p, Ptr) and p.o == ZERO and p.r in st.mem and ex.regions[p.r].kind == 'stack': del st.mem[p.r]
    M(r'llvm\.lifetime', lifetime)
    M(r'llvm\.(dbg|donothing|invariant|experimental\.noalias|var\.annotation|stacksave|stackrestore)', lambda ex, st, a, c: None)
    def assume(ex, st, a, c):
        return None
    M(r'llvm\.assume', assume)
    M(r'llvm\.expect', lambda ex, st, a, c: a[0])
    M(r'llvm\.is\.constant', lambda ex, st, a, c: FALSE)
    M(r'llvm\.objectsize', lambda ex, st, a, c: P(-1))
    def ovf(kind, signed):
        def f(ex, st, a, c):
            n = 64 if '.i64' in c['name'] else 32
            x = ex.S(st, a[0], n) if signed else ex.U(st, a[0], n)
            y = ex.S(st, a[1], n) if signed else ex.U(st, a[1], n)
            r = x + y if kind == 'add' else x - y if kind == 'sub' else x * y
            lo, hi = (-(1 << n - 1), 1 << n - 1) if signed else (0, 1 << n)
            if ex.rng(st, r, lo, hi): o = FALSE
            else: o = bor(r < P(lo), r >= P(hi))
            return [(st, 'ret', [r, o])]
        return f
    for kd in ('add', 'sub', 'mul'):
        M(r'llvm\.u%s\.with\.overflow' % kd, ovf(kd, False)); M(r'llvm\.s%s\.with\.overflow' % kd, ovf(kd, True))
    M(r'llvm\.fabs\.', lambda ex, st, a, c: pabs(a[0]))
    M(r'(std::)?fabs', lambda ex, st, a, c: pabs(a[0]))
    M(r'llvm\.fmuladd\.|llvm\.fma\.', lambda ex, st, a, c: a[0] * a[1] + a[2])
    M(r'llvm\.(maxnum|maximum)\.|fmax$', lambda ex, st, a, c: pmax(a[0], a[1]))
    M(r'llvm\.(minnum|minimum)\.|fmin$', lambda ex, st, a, c: pmin(a[0], a[1]))
    def imm(k):
        def f(ex, st, a, c):
            n = 64 if '.i64' in c['name'] else 32
            I = ex.S if k[0] == 's' else ex.U
            x = I(st, a[0], n); y = I(st, a[1], n)
            return pmin(x, y) if k.endswith('min') else pmax(x, y)
        return f
    for kd in ('smin', 'smax', 'umin', 'umax'): M(r'llvm\.%s\.' % kd, imm(kd))
    M(r'llvm\.abs\.', lambda ex, st, a, c: pabs(ex.S(st, a[0], 64 if '.i64' in c['name'] else 32)))
    M(r'llvm\.eh\.typeid\.for', lambda ex, st, a, c: P(ex.typeid(None if (isinstance(a[0], Ptr) and a[0].r == 0) else [n for n, r in ex.globreg.items() if isinstance(a[0], Ptr) and r == a[0].r][0])))
    M(r'llvm\.trap', lambda ex, st, a, c: trap(ex, st))
    def trap(ex, st):
        if not ex.mute: ex.obligation(st, FALSE, 'trap is not reached')
        raise Dead()

    # ---- libstdc++ binary searches: the standard's contract.  Precondition (an obligation): the range is
    # partitioned with respect to the value.  Postcondition: the returned position is the partition point.
    def bsearch(upper):
        def f(ex, st, args, c):
            m, fn = c['hit'] or (None, None)
            if fn is None: return NotImplemented
            first, last, val = args[0], args[1], args[2]
            if not (isinstance(first, Ptr) and isinstance(last, Ptr)): return NotImplemented
            if first.r != last.r: raise Incomplete('binary search over different objects')
            parse_body(fn, m)
            adv = cmp = None
            for b in fn.blocks.values():
                for ins in b:
                    if ins.op in ('call', 'invoke'):
                        cal = ins.a[0]
                        nm = cal[1] if isinstance(cal, tuple) else None
                        h = ex.find(nm) if isinstance(nm, str) else None
                        if not h: continue
                        if 'std::advance<' in h[1].demangled: adv = nm
                        if '_Val_less_iter::operator()' in h[1].demangled or '_Iter_less_val::operator()' in h[1].demangled: cmp = nm
            if not adv or not cmp: raise Incomplete('binary search with an unknown comparator')
            def one(s, name, a):
                r = ex.call(s, name, a, m)
                if len(r) != 1 or r[0][1] != 'ret': raise Incomplete('branching comparator in binary search')
                return r[0][0], r[0][2]
            s = st.clone(); ptr_t = PTR
            tmp = ex.alloc(s, 'stack', P(8), 'it'); ex.store(s, ptr_t, first, tmp, m)
            if first.r == 0: return first
            s, _ = one(s, adv, [tmp, ONE])
            stride = (ex.load(s, ptr_t, tmp, m).o - first.o)
            if not stride.is_const(): raise Incomplete('stride of binary search')
            stride = int(stride.const())
            d = ex.exact_div(st, last.o - first.o, stride)
            cobj = ex.alloc(st, 'opaque', P(8), 'cmp')
            def C(s, k):
                s = s.clone()
                it = Ptr(first.r, first.o + k * stride)
                _, v = one(s, cmp, [cobj, val, it] if upper else [cobj, it, val])
                return v if isinstance(v, B) else ne0(v)
            def spec(k, assume_in=None):
                out = [ZERO <= k, k <= d]
                if not (k.is_const() and k.const() == 0):
                    s2 = st.clone(); s2.assume(band(ONE <= k, k <= d))
                    if not ex.pr.inconsistent(s2.pc):
                        b = C(s2, k - 1); out.append(implies(ONE <= k, bnot(b) if upper else b))
                s2 = st.clone(); s2.assume(band(ZERO <= k, lt(k - d)))
                if not ex.pr.inconsistent(s2.pc):
                    b = C(s2, k); out.append(implies(lt(k - d), b if upper else bnot(b)))
                return out
            # precondition
            t = newsym('t', 'I', 0, 2 ** 62)
            s2 = st.clone(); s2.assume(lt(t + 1 - d))
            if not ex.pr.inconsistent(s2.pc):
                a, b = C(s2, t), C(s2, t + 1)
                ex.obligation(s2, implies(a, b) if upper else implies(b, a), 'range searched by %s is sorted' % ('upper_bound' if upper else 'lower_bound'))
            for k in list(st.ghost.get('hints', ())) + [ZERO, d] + [x + j for x in getattr(ex, 'index_syms', []) for j in (1, 0)] + [d - 1]:
                ex.mute += 1
                try: ok = all(ex.pr.valid(st.pc, g) for g in (band(ZERO <= k, k <= d),)) and all(ex.pr.valid(st.pc, g) for g in spec(k))
                finally: ex.mute -= 1
                if ok: return Ptr(first.r, first.o + k * stride)
            k = newsym('pos', 'I', 0, 2 ** 62)
            st.assume(k <= d)
            for g in spec(k): st.assume(g)
            return Ptr(first.r, first.o + k * stride)
        return f
    M(r'.*\bstd::__upper_bound<', bsearch(True))
    M(r'.*\bstd::__lower_bound<', bsearch(False))

    # ---- libm as uninterpreted functions with trusted axioms
    def uf(name):
        def f(ex, st, a, c):
            return mathfn(st, name, a)
        return f
    for nm in ('log', 'exp', 'sin', 'cos', 'tan', 'acos', 'asin', 'atan', 'sqrt', 'log10', 'log2', 'exp2', 'floor', 'ceil', 'cbrt', 'sinh', 'cosh', 'tanh', 'erf', 'lgamma', 'trunc', 'round'):
        M(r'(std::)?%s$' % nm, uf(nm)); M(r'llvm\.%s\.f64' % nm, uf(nm))
        M(r'(std::)?%s\(double\)$' % nm, uf(nm))
    M(r'(std::)?pow$|llvm\.pow\.f64', lambda ex, st, a, c: mathpow(st, a[0], a[1]))
    M(r'llvm\.powi\.f64', lambda ex, st, a, c: mathpow(st, a[0], a[1]))
    M(r'(std::)?(fmod|atan2|hypot|copysign)$', lambda ex, st, a, c: app(c['name'].strip('@'), a))
    M(r'llvm\.copysign', lambda ex, st, a, c: app('copysign', a))
    M(r'std::isnan\(double\)$|isnan$', lambda ex, st, a, c: bconst(E.isnanv(a[0])))
    M(r'std::isinf', lambda ex, st, a, c: FALSE)
    M(r'std::isfinite', lambda ex, st, a, c: bconst(not E.isnanv(a[0])))

    # ---- exceptions
    def alloc_exc(ex, st, a, c):
        return ex.alloc(st, 'exc', a[0], 'exc')
    M(r'__cxa_allocate_exception', alloc_exc)
    M(r'__cxa_free_exception', lambda ex, st, a, c: None)
    def throw(ex, st, a, c):
        ti = [n for n, r in ex.globreg.items() if isinstance(a[1], Ptr) and r == a[1].r]
        return [(st, 'exc', (ti[0] if ti else '?', a[0]))]
    M(r'__cxa_throw', throw)
    def begin_catch(ex, st, a, c):
        st.ghost['caught'] = st.ghost.get('caught', ()) + ((st.ghost.get(('excinfo', a[0].r)), a[0]),)
        return a[0]
    M(r'__cxa_begin_catch', begin_catch)
    def end_catch(ex, st, a, c):
        st.ghost['caught'] = st.ghost.get('caught', ())[:-1]
        if not st.ghost['caught']: del st.ghost['caught']
    M(r'__cxa_end_catch', end_catch)
    def rethrow(ex, st, a, c):
        t, p = st.ghost['caught'][-1]
        return [(st, 'exc', (t, p))]
    M(r'__cxa_rethrow', rethrow)
    def std_throw(ti):
        def f(ex, st, a, c):
            p = ex.alloc(st, 'exc', P(16), 'exc')
            return [(st, 'exc', (ti, p))]
        return f
    M(r'std::__throw_length_error', std_throw('@_ZTISt12length_error'))
    M(r'std::__throw_out_of_range', std_throw('@_ZTISt12out_of_range'))
    M(r'std::__throw_logic_error', std_throw('@_ZTISt11logic_error'))
    M(r'std::__throw_bad_alloc', std_throw('@_ZTISt9bad_alloc'))
    M(r'std::__throw_bad_array_new_length', std_throw('@_ZTISt20bad_array_new_length'))
    M(r'std::__throw_bad_function_call', std_throw('@_ZTISt17bad_function_call'))
    def term(ex, st, a, c):
        if not ex.mute: ex.obligation(st, FALSE, 'std::terminate is not reached')
        raise Dead()
    M(r'std::terminate|__clang_call_terminate|abort$|exit$', term)
    M(r'__cxa_atexit', lambda ex, st, a, c: P(0))
    M(r'__cxa_guard_acquire', lambda ex, st, a, c: P(1))
    def guard_release(ex, st, a, c):
        ex.store(st, INT(8), P(1), a[0], c['mod'] or ex.mods[0])
        g = [n for n, r in ex.globreg.items() if r == a[0].r][0]
        r = ex.globreg.get('@_Z' + g[5:])
        if r is not None: st.ghost['frozen'] = tuple(st.ghost.get('frozen', ())) + (r,)
    M(r'__cxa_guard_release', guard_release)
    M(r'__cxa_guard_abort', lambda ex, st, a, c: None)
    def fpclass(ex, st, a, c):
        if not (a[1].is_const() and a[1].const() in (1, 2, 3)): raise Incomplete('is.fpclass')
        return bconst(E.isnanv(a[0]))
    M(r'llvm\.is\.fpclass', fpclass)
    M(r'__assert_fail', term)

AX = {}
def mathfn(st, name, a):
    x = a[0]
    if x is UNDEF: return UNDEF
    if E.isnanv(x): return x
    if name in ('floor', 'ceil', 'trunc', 'round') and isinstance(x, Poly):
        if x.is_int(): return x
        if name == 'floor': return floor_(x)
        if name == 'ceil': return -floor_(-x)
    if name == 'sqrt':
        if x.is_const() and x.const() in (0, 1): return x
        if x.is_const() and x.const() > 0:
            r = sqrt_const(x.const()); lo = Fraction(x.const())
            if not r.is_const():       # tight rational bounds
                from math import isqrt
                k = 10 ** 20; q = isqrt(lo.numerator * k * k // lo.denominator)
                st.assume(P(Fraction(q, k)) <= r); st.assume(r <= P(Fraction(q + 1, k)))
            return r
        cf, q = content(x)
        if cf < 0: cf, q = -cf, -q
        k = sqrt_const(cf)             # a square factor is taken out
        if cf != 1 and k.is_const():
            r = app('sqrt', [q]); st.assume(implies(q >= ZERO, band(r >= ZERO, eq(r * r, q))))
            return r * k
        r = app('sqrt', [x])
        st.assume(implies(x >= ZERO, band(r >= ZERO, eq(r * r, x))))
        return r
    if name == 'exp':
        if x.is_const() and x.const() == 0: return ONE
        # exp(log(y)) = y for y > 0
        at = x.single_atom()
        if at is not None and at.kind == 'sel' and at.args[0] == 'log':
            y = at.args[1][0]
            r = app('exp', [x]); st.assume(r > ZERO); st.assume(implies(y > ZERO, eq(r, y)))
            return r
        r = app('exp', [x]); st.assume(r > ZERO); return r
    if name == 'log':
        if x.is_const() and x.const() == 1: return ZERO
        at = x.single_atom()
        if at is not None and at.kind == 'sel' and at.args[0] == 'exp': return at.args[1][0]
        return app('log', [x])
    if name in ('sin', 'cos'):
        if x.is_const() and x.const() == 0: return ZERO if name == 'sin' else ONE
        at = x.single_atom()
        if at is not None and at.kind == 'sel' and at.args[0] == 'a' + name:
            y = at.args[1][0]
            r = app(name, [x]); st.assume(implies(band(P(-1) <= y, y <= ONE), eq(r, y)))
        r = app(name, [x])
        s_, c_ = app('sin', [x]), app('cos', [x])
        st.assume(eq(s_ * s_ + c_ * c_, ONE))
        st.assume(band(P(-1) <= r, r <= ONE))
        return r
    return app(name, [x])
def mathpow(st, x, y):
    if x is UNDEF or y is UNDEF: return UNDEF
    if y.is_const():
        k = y.const()
        if isinstance(k, int) and 0 <= k <= 12: return x ** k
        if isinstance(k, int) and -12 <= k < 0: return inv(x) ** (-k)
        if k == Fraction(1, 2): return mathfn(st, 'sqrt', [x])
    return app('pow', [x, y])
