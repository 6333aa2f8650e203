"""std::string as the library implements it (its template code is executed, -D_GLIBCXX_EXTERN_TEMPLATE=0), C strings with
known content, and shared_ptr reference counts (executed sequentially)."""
import re
from execu import *
import models
STR = ('basic_string', 'allocator<char>', r'operator\+', 'operator(==', 'char_traits')
def cbytes(ex, st, p, m, lim=4096):
    """length of a C string whose bytes up to the terminator are known"""
    for k in range(lim):
        b = ex.load(st, INT(8), Ptr(p.r, p.o + k), m)
        if b is UNDEF or not isinstance(b, Poly): raise Incomplete('C string of unknown content')
        z = ex.tri(st, eq(b, ZERO)) if not b.is_const() else (b.const() % 256 == 0)
        if z is True: return k
        if z is None: raise Incomplete('C string of unknown content')
    raise Incomplete('long C string')
def install(ex):
    ex.models = [(rx, f) for rx, f in ex.models if not any(s in rx.pattern for s in STR)]
    ex.model_cache.clear()
    M = ex.model
    M(r'strlen$', lambda ex, st, a, c: P(cbytes(ex, st, a[0], c['mod'] or ex.mods[0])))
    def cmp_(ex, st, a, c):
        m = c['mod'] or ex.mods[0]
        x, y = ([ex.load(st, INT(8), Ptr(p.r, p.o + i), m) for i in range(cbytes(ex, st, p, m))] for p in a[:2])
        d = [u != v for u, v in zip(x, y)] 
        return P(0 if len(x) == len(y) and not any(d) else 1)
    M(r'strcmp$', cmp_)
    def memcmp(ex, st, a, c):
        n = ex.U(st, a[2], 64)
        if not n.is_const() or n.const() > 4096: raise Incomplete('memcmp of symbolic length')
        m = c['mod'] or ex.mods[0]; eqs = []
        for k in range(int(n.const())):
            x, y = (ex.load(st, INT(8), Ptr(p.r, p.o + k), m) for p in a[:2])
            if x is UNDEF or y is UNDEF: raise Incomplete('comparison of undefined bytes')
            eqs.append(eq(ex.U(st, x, 8), ex.U(st, y, 8)))
        return ite(band(*eqs), P(0), newsym('memcmp', 'I', 1, 2 ** 31 - 1))
    M(r'(memcmp|bcmp)$', memcmp)
    def to_string(ex, st, a, c):     # only used in error messages: some text
        m = c['mod'] or ex.mods[0]; p = a[0]
        ex.store(st, PTR, Ptr(p.r, p.o + 16), p, m); ex.store(st, INT(64), ONE, Ptr(p.r, p.o + 8), m)
        ex.store(st, INT(8), newsym('digit', 'I', 48, 57), Ptr(p.r, p.o + 16), m); ex.store(st, INT(8), ZERO, Ptr(p.r, p.o + 17), m)
    # takes its text by reference to const; what() gives some text
    def error(ex, st, a, c):
        if 'vf_err' not in st.ghost:
            v = ex.alloc(st, 'opaque', P(24), 'vtable'); t = ex.alloc(st, 'opaque', P(4), 'what'); m = c['mod'] or ex.mods[0]
            ex.store(st, PTR, Fn('vf_what'), Ptr(v.r, P(16)), m)
            for k, b in enumerate(b'err\0'): ex.store(st, INT(8), P(b), Ptr(t.r, P(k)), m)
            st.ghost = dict(st.ghost); st.ghost['vf_err'] = (v, t)
        if isinstance(a[0], Ptr) and ex.regions[a[0].r].kind == 'exc': ex.store(st, PTR, st.ghost['vf_err'][0], a[0], c['mod'] or ex.mods[0])
    M(r'std::\w+_error::\w+_error\(', error)
    M(r'std::exception::', lambda ex, st, a, c: None)
    M(r'vf_what$|std::(runtime_error|exception)::what\(', lambda ex, st, a, c: st.ghost['vf_err'][1])
    M(r'std::(__cxx11::)?to_string\(', to_string)
    # reference counts: other threads are not modelled
    def fetch_add(ex, st, a, c):
        m = c['mod'] or ex.mods[0]; v = ex.load(st, INT(32), a[0], m); ex.store(st, INT(32), ex.S(st, v, 32) + ex.S(st, a[1], 32), a[0], m); return v
    M(r'__gnu_cxx::__(atomic_add|exchange_and_add)(_dispatch)?\(', fetch_add)
