"""Loop handling: complete unrolling when the trip count folds, inductive closed-form summaries otherwise."""
from execu import *
import execu as E
import prover, irparse
from prover import deep_b

import os, re
DEBUG = os.environ.get('VF_DEBUG')
def succs(f, b): return successors(f.blocks[b])

def is_cut(m, f, L):
    """loops whose body talks to the contract of a worklist (drivers/vf_worklist), which carries the invariant of its elements, or of a
    monitor (stubs/thr/mutex), directly or in a function that it calls"""
    return any(talks(m, f, b, 1) for b in L.blocks)

def talks(m, f, b, depth):
    for ins in f.blocks[b]:
        if ins.op in ('call', 'invoke') and isinstance(ins.a[0], tuple):
            n = str(ins.a[0][1])
            if 'vf_worklist' in n or 'vf_monitor' in n: return True
            g = m.funcs.get(n) if depth else None
            if g is not None: irparse.parse_body(g, m)
            if g is not None and any(talks(m, g, c, depth - 1) for c in g.blocks): return True
    return False

def cut_loop(ex, m, f, L, st0, env0, prev):
    """Hoare rule: everything the body may change is arbitrary at the loop head, except what the body is proved to preserve from any such
    state: variables that keep their first value, sums/differences of two variables that keep theirs, and variables that never decrease or do not change before some flag does"""
    key = (short(f.demangled), L.header)
    init, first = phi_enter(ex, m, f, L.header, st0, env0, prev)
    phis = []
    for ins in f.blocks[L.header][:first]:
        v = Var(ins.res.strip('%"'), init[ins.res], ins.ty); v.name = ins.res; v.form = v.v0; phis.append(v)
    cells = {}; hav = {}; wipe = set(); rels = None; maxn = E.NM.n; final = False; nreg = ex.nreg
    def same(pc, a, b):
        if a is b or a == b: return True
        if a is UNDEF or b is UNDEF: return False
        if isinstance(a, Ptr) or isinstance(b, Ptr): return isinstance(a, Ptr) and isinstance(b, Ptr) and a.r == b.r and ex.pr.valid(pc, eq(a.o, b.o))
        if isinstance(a, B): return ex.pr.valid(pc + [a], b) and ex.pr.valid(pc + [bnot(a)], bnot(b))
        return ex.pr.valid(pc, eq(a, b))
    def rel(kind, u, v, a, b):
        if kind == 'up': return u.v0 <= a
        if kind == 'bool': return bor(eq(a, ZERO), eq(a, ONE))
        if kind == 'flag': return implies(eq(a, u.v0), eq(b, v.v0))          # v is unchanged as long as the flag u is
        return eq(a + b * kind, u.v0 + v.v0 * kind)
    def real(v): return v.form is None and isinstance(v.v0, Poly) and v.ty.k not in ('int', 'ptr')
    for rnd in range(60):
        s = st0.clone(); e = dict(env0)
        for v in phis:
            e[v.name] = v.unk if v.form is None else v.v0
            if e[v.name] is None: raise Incomplete('cut loop changes a pointer')
        for r in wipe: s.mem.pop(r, None)
        for (r, off, size), fn in hav.items(): s.log_write(r, Ent('havoc', off, P(size), fn, None))
        for (r, off, size), v in cells.items():
            if ('bool', v, None) in (rels or ()) and not v.bool:             # a symbol that ranges over 0..1 says as much, and folds better
                v.bool = True; v.unk = newsym('b_' + v.name, 'I', 0, 1); prover.FLAGS.update(v.unk.syms())
            elif v.bool and ('bool', v, None) not in rels: v.bool = False; v.unk = newsym('u_' + v.name, 'I', 0, (1 << 8 * size) - 1)
            x = v.unk if v.form is None else v.v0
            if x is None: raise Incomplete('cut loop changes a pointer')
            s.log_write(r, Ent('pt', off, size, x, v.ty.k))
        for kind, u, v in rels or ():
            s.assume(rel(kind, u, v, u.unk, v.unk if v else ZERO))
        sb = s.clone()
        if not final: ex.mute += 1
        deep, ex.deep = ex.deep, False
        try: rets, backs, exits = ex.walk(m, f, [(s, e, L.header, '#start', first)], L)
        finally:
            ex.deep = deep
            if not final: ex.mute -= 1
        changed = False
        for (s1, e1, p1) in backs:
            nv, _ = phi_enter(ex, m, f, L.header, s1, e1, p1)
            for h in s1.heap:
                if h > nreg and h not in s1.dead: raise Incomplete('allocation survives a loop iteration in %s' % (key,))
            if {d for d in s1.dead if d <= nreg} != set(st0.dead): raise Incomplete('loop frees outer memory')
            if {a: b for a, b in s1.ghost.items() if not isinstance(a, tuple)} != {a: b for a, b in st0.ghost.items() if not isinstance(a, tuple)}: raise Incomplete('ghost state changes in cut loop')
            for r in set(s1.mem) | set(sb.mem):
                if r > nreg or s1.mem.get(r) is sb.mem.get(r) or r in wipe: continue
                n = s1.mem.get(r)
                while n is not None and n is not sb.mem.get(r): n = n[1]
                if n is not sb.mem.get(r):
                    if DEBUG: print('wipe', r, ex.regions[r].name if hasattr(ex.regions[r],'name') else ex.regions[r])
                    wipe.add(r); changed = True; continue
                for en in delta(s1.mem.get(r), sb.mem.get(r)):
                    if en.params or not en.off.is_const() or not (isinstance(en.size, int) or en.size.is_const()): raise Incomplete('cut loop writes at a varying place')
                    size = en.size if isinstance(en.size, int) else int(en.size.const()); ck = (r, en.off, size)
                    if en.kind == 'pt' and ck not in cells:
                        ty = Ty(en.ty) if en.ty != 'int' else INT(8 * size)
                        v0 = ex.read(st0.clone(), r, st0.mem.get(r), en.off, size, ty)
                        v = Var('cut%d_%s' % (r, fmt(en.off)), v0, ty, ck); v.form = v0
                        if isinstance(v.unk, Poly) and ty.k == 'int': v.unk = newsym('u_' + v.name, 'I', 0, (1 << 8 * size) - 1)
                        cells[ck] = v; changed = True
                    elif en.kind != 'pt' and ck not in hav: hav[ck] = newfun('cut'); changed = True
            if changed: continue
            nx = {}
            for v in phis: nx[id(v)] = nv[v.name]
            for (r, off, size), v in cells.items(): nx[id(v)] = UNDEF if r in wipe else ex.read(s1, r, s1.mem.get(r), off, size, v.ty)
            for v in phis + list(cells.values()):
                if v.cell and v.cell[0] in wipe: continue
                if v.form is not None and not same(s1.pc, nx[id(v)], v.v0): v.form = None; changed = True
            if rels is not None:
                for rl in list(rels):
                    kind, u, v = rl
                    a = nx[id(u)]; b = nx[id(v)] if v else ZERO
                    if u.form is not None or not isinstance(a, Poly) or not isinstance(b, Poly) or not ex.pr.valid(s1.pc, rel(kind, u, v, a, b)):
                        rels.remove(rl); changed = True
        for r in wipe:
            for ck in [c for c in cells if c[0] == r]: del cells[ck]; changed = True
            for ck in [c for c in hav if c[0] == r]: del hav[ck]; changed = True
        if changed:
            if final: raise Incomplete('cut loop did not stabilise')
            continue
        if rels is None:
            vs = [v for v in phis + list(cells.values()) if real(v)]
            fl = [v for v in phis + list(cells.values()) if v.form is None and isinstance(v.v0, Poly) and v.ty.k == 'int' and v.ty.a == 8]
            rels = [('up', v, None) for v in vs] + [('bool', u, None) for u in fl if ex.pr.valid(st0.pc, bor(eq(u.v0, ZERO), eq(u.v0, ONE)))] + [('flag', u, v) for u in fl for v in vs] + [(k, u, v) for i, u in enumerate(vs) for v in vs[i + 1:] for k in (1, -1)]
            continue
        if DEBUG: print('cut', key, 'kept', [(k, u.name, v and v.name) for k, u, v in rels], 'free', [(v.name, v.v0) for v in phis + list(cells.values()) if v.form is None])
        if final: return rets, exits
        final = True
    raise Incomplete('cut loop did not stabilise')

def phi_enter(ex, m, f, hdr, st, env, prev):
    insts = f.blocks[hdr]
    newv = {}; i = 0
    while i < len(insts) and insts[i].op == 'phi':
        for v, l in insts[i].a[0]:
            if l == prev: newv[insts[i].res] = ex.val(st, env, v, insts[i].ty, m); break
        else: raise Incomplete('loop phi without edge')
        i += 1
    return newv, i

def exec_loop(ex, m, f, L, st, env, prev, peeled=0):
    key = (short(f.demangled), L.header)
    if is_cut(m, f, L):
        ex.loops.setdefault(key, set()).add('cut at an invariant')
        mute, nob = ex.mute, len(ex.obls)
        try: return cut_loop(ex, m, f, L, st.clone(), dict(env), prev)
        except Incomplete:                       # what the first iteration sets up (a variable that is assigned in the loop): take that iteration apart
            if peeled >= 1: raise
            ex.mute = mute; del ex.obls[nob:]
        ex.loops[key].add('first iteration apart')
        newv, i = phi_enter(ex, m, f, L.header, st, env, prev)
        e = dict(env); e.update(newv)
        rets, backs, exits = ex.walk(m, f, [(st.clone(), e, L.header, '#start', i)], L)
        for s1, e1, p1 in backs:
            r, x = exec_loop(ex, m, f, L, s1, e1, p1, peeled + 1)
            rets = rets + r; exits = exits + x
        return rets, exits
    mode = probe(ex, m, f, L, st, env, prev)
    if mode == 'unroll':
        ex.loops.setdefault(key, set()).add('unrolled')
        return unroll(ex, m, f, L, st, env, prev)
    ex.loops.setdefault(key, set()).add('summarised')
    mute, nob = ex.mute, len(ex.obls)
    try: return summarize(ex, m, f, L, st, env, prev)
    except Incomplete as x:
        # storage that the first iteration acquires (a container that was empty): take that iteration apart
        if peeled >= 1 or not re.search('allocation survives|no base region|changes its region', str(x)) or ex.mute != mute: raise
        del ex.obls[nob:]
    ex.loops[key].add('first iteration apart')
    newv, i = phi_enter(ex, m, f, L.header, st, env, prev)
    e = dict(env); e.update(newv)
    rets, backs, exits = ex.walk(m, f, [(st.clone(), e, L.header, '#start', i)], L)
    for s1, e1, p1 in backs:
        r, x = exec_loop(ex, m, f, L, s1, e1, p1, peeled + 1)
        rets = rets + r; exits = exits + x
    return rets, exits

def probe(ex, m, f, L, st, env, prev):
    """unroll iff some exit test of the first iteration folds to a constant"""
    exiting = {b for b in L.blocks if any(s not in L.blocks and s in f.canret for s in succs(f, b)) and len(succs(f, b)) == 2
               and f.blocks[b][-1].op == 'br'}
    if not exiting: 
        exiting = {b for b in L.blocks if any(s not in L.blocks for s in succs(f, b)) and f.blocks[b][-1].op == 'br'}
    s = st.clone(); e = dict(env)
    newv, i = phi_enter(ex, m, f, L.header, s, e, prev)
    e.update(newv)
    saved = ex.brlog; n0 = E.NM.n
    ex.brlog = []; ex.mute += 1
    depth = len(ex.stack)
    try:
        if L.header in exiting:
            todo = [('go', s, e, L.header, '#start', i)]; dead = 0; n = 0
            while todo and n < 50:
                x = todo.pop(); n += 1
                if x[0] != 'go' or (x[3] != L.header and n > 1) or (n > 1 and x[5] == 0): continue
                try: todo += ex.block(m, f, *x[1:])     # calls in the header are continued (idx > 0)
                except Dead: dead += 1
            if n == dead: return 'unroll'
        else:
            # run one iteration, looking only at this loop's exit tests
            ex.walk(m, f, [(s, e, L.header, '#start', i)], L)
        log = [c for d, fn, b, c in ex.brlog if d == depth and b in exiting]
    finally:
        ex.brlog = saved; ex.mute -= 1; E.NM.n = n0
    if any(c.k in ('true', 'false') for c in log): return 'unroll'
    return 'sum'

def unroll(ex, m, f, L, st, env, prev):
    rets = []; exits = []
    cur = [(st, env, prev)]
    for it in range(ex.unroll_limit):
        nxt = []
        for (s, e, pv) in cur:
            newv, i = phi_enter(ex, m, f, L.header, s, e, pv)
            e = dict(e); e.update(newv)
            base = s.clone()
            r, b, x = ex.walk(m, f, [(s, e, L.header, '#start', i)], L)
            rets += r; exits += x
            if len(b) > 1:
                names = [ins.res for ins in f.blocks[L.header] if ins.op == 'phi']
                alts = []
                for (s1, e1, p1) in b:
                    nv, _ = phi_enter(ex, m, f, L.header, s1, e1, p1)
                    alts.append((s1, [nv[n] for n in names]))
                mg = ex.merge(base, alts)
                if mg is not None:
                    s1, vals = mg
                    p1 = b[0][2]; e1 = dict(e)
                    # emulate the phi edge with merged values
                    nxt.append((s1, e1, ('#vals', dict(zip(names, vals)), p1))); continue
            nxt += [(s1, e1, p1) for s1, e1, p1 in b]
        # realise merged values
        cur = []
        for s1, e1, p1 in nxt:
            if isinstance(p1, tuple):
                e1 = dict(e1); e1['#forced'] = p1[1]
                cur.append((s1, e1, '#forced'))
            else: cur.append((s1, e1, p1))
        if not cur: return rets, exits
        if len(cur) > 64: raise Incomplete('too many paths unrolling a loop')
    raise Incomplete('unroll limit')

_phi_enter0 = phi_enter
def phi_enter(ex, m, f, hdr, st, env, prev):
    if prev == '#forced':
        vals = env['#forced']
        i = 0
        insts = f.blocks[hdr]
        while i < len(insts) and insts[i].op == 'phi': i += 1
        return dict(vals), i
    return _phi_enter0(ex, m, f, hdr, st, env, prev)

class Var:
    """a loop-varying scalar: header phi or memory cell"""
    __slots__ = ('name', 'v0', 'unk', 'form', 'how', 'ty', 'cell', 'body', 'bad', 'bool')
    def __init__(self, name, v0, ty, cell=None):
        self.name = name; self.v0 = v0; self.ty = ty; self.cell = cell
        self.form = None; self.how = None; self.body = None; self.bad = 0; self.bool = False
        if isinstance(v0, Ptr): self.unk = Ptr(v0.r, newsym('u_' + name, 'I'))
        elif ty.k == 'int' and ty.a == 1: self.unk = batom(newfun('ub_' + name))
        elif ty.k == 'ptr': self.unk = None
        elif ty.k == 'int': self.unk = newsym('u_' + name, 'I')
        else: self.unk = newsym('u_' + name, 'R')
        if self.unkid(): UNKS.add(self.unkid())
    def unkid(self):
        if isinstance(self.unk, Ptr): return atom_of(self.unk.o).id
        if isinstance(self.unk, Poly): return atom_of(self.unk).id
        return None

def summarize(ex, m, f, L, st0, env0, prev, cold=False):
    key = (short(f.demangled), L.header)
    n00 = E.NM.n
    kname = 'k_%s' % L.header.strip('%"')
    k = newsym(kname, 'I', 0, 1 << 48); kid = atom_of(k).id
    init, first = phi_enter(ex, m, f, L.header, st0, env0, prev)
    vars = []
    for ins in f.blocks[L.header][:first]:
        vars.append(Var(ins.res.strip('%"'), init[ins.res], ins.ty))
        vars[-1].name = ins.res
    mark = n00 + 1
    keep = {kid}
    n0 = E.NM.n
    cells = {}            # (reg,off,size) -> Var
    fams = []             # (reg, Ent in terms of k)
    cont = []             # facts that hold at an iteration k that reached the back edge
    recs = []             # (fn, v0, x_form(k), next(k))
    inv = []              # header invariants in k
    tried = []
    final = False
    maxn = n0
    wkey = (tuple(ex.stack), key, n00)
    warm = None if cold else ex.warm.get(wkey)
    if warm is not None:
        w = warm_start(ex, st0, warm, vars, kid, n0)
        if w is None: warm = None
        else: cells, fams, cont, inv = w
    E.NM.n = n0
    for rnd in range(3 if warm else 0, 14):
        E.NM.n = n0
        s = st0.clone(); e = dict(env0)
        nreg0 = ex.nreg
        for b in prev_facts(k, kid, cont): s.assume(b)
        for b in inv: s.assume(b)
        for fn, v0, xf, nx in recs:
            if v0 is not UNDEF: s.assume(eq(app(fn, [ZERO], sortof(xf)), v0))   # an uninitialised cell starts with an arbitrary value
            t = sym('t?', 'I')
            s.pc.append(Forall([t], band(P(0) <= t, t < k), eq(app(fn, [t + 1], sortof(xf)), subst(nx, {kid: t})), [(fn, [t + 1])], 'rec'))
            s.pc.append(Forall([t], band(P(0) <= t, t < k), eq(app(fn, [t + 1], sortof(xf)), subst(nx, {kid: t})), [(fn, [t])], 'rec'))
        for v in vars:
            x = v.form if v.form is not None else v.unk
            if x is None: raise Incomplete('loop pointer %s with no base region' % v.name)
            e[v.name] = x
        for ci, (reg, en) in enumerate(fams):
            if last_wins(en, kid):
                # the same places are rewritten by every iteration: what remains is what the last one wrote
                mp = {kid: k - 1}
                s.log_write(reg, Ent(en.kind, en.off, en.size, vsubst(en.val, mp), en.ty, band(en.guard, k >= P(1)), en.params, en.extra))
                continue
            t = sym('t%d_%s' % (ci, kname), 'I')
            mp = {kid: t}
            s.log_write(reg, Ent(en.kind, subst(en.off, mp), en.size if isinstance(en.size, int) else subst(en.size, mp), vsubst(en.val, mp), en.ty,
                                 substb(en.guard, mp), tuple((p, subst(lo, mp), subst(hi, mp)) for p, lo, hi in en.params) + ((t, ZERO, k),), en.extra))
        for (reg, off, size), v in cells.items():
            x = v.form if v.form is not None else v.unk
            if x is None: raise Incomplete('loop-modified pointer cell with no base region')
            s.log_write(reg, Ent('pt', off, size, x, v.ty.k))
        sb = s.clone()
        if not final: ex.mute += 1
        osave = ex.optimistic
        opt = rnd < 2
        if opt: ex.optimistic = ex.optimistic | {kid} | {v.unkid() for v in vars if v.unkid()}
        else: ex.optimistic = ex.optimistic - {kid}
        try:
            rets, backs, exits = ex.walk(m, f, [(s, e, L.header, '#start', first)], L)
        finally:
            if not final: ex.mute -= 1
            ex.optimistic = osave
        maxn = max(maxn, E.NM.n)
        if not backs:
            # the body never reaches a back edge (under k unknown): only iteration 0 exists
            if not final:
                if rnd > 0 or not vars:
                    final = True; 
                    s_facts = [eq(k, ZERO)]
                # single pass: execute concretely
                E.NM.n = maxn
                newv, i = phi_enter(ex, m, f, L.header, st0, env0, prev)
                e = dict(env0); e.update(newv)
                rets, backs, exits = ex.walk(m, f, [(st0.clone(), e, L.header, '#start', i)], L)
                if backs: raise Incomplete('loop back edge appeared')
                return rets, exits
        # ---- merged back-edge state
        allv = vars
        alts = []
        for (s1, e1, p1) in backs:
            nv, _ = phi_enter(ex, m, f, L.header, s1, e1, p1)
            alts.append((s1, [nv[v.name] for v in vars]))
        mg = ex.merge(sb, alts) if len(alts) > 1 else (alts[0][0], alts[0][1])
        if mg is None and not final and any(v.form is None for v in list(vars) + list(cells.values())):
            # provisional rounds may explore paths that the solved forms rule out
            a2 = [a for a in alts if [h for h in a[0].heap if h not in a[0].dead] == [h for h in sb.heap if h not in sb.dead] and
                  {d for d in a[0].dead if d in sb.heap} == {d for d in sb.dead if d in sb.heap}]
            if a2 and len(a2) < len(alts): mg = ex.merge(sb, a2) if len(a2) > 1 else a2[0]
        if mg is None: raise Incomplete('cannot merge loop paths in %s %s' % key)
        sm, nxt = mg
        if len(alts) == 1:
            pass
        for h in sm.heap:
            if h > nreg0 and h not in sm.dead: raise Incomplete('allocation survives a loop iteration in %s' % (key,))
        if {d for d in sm.dead if d <= nreg0} != set(st0.dead): raise Incomplete('loop frees outer memory')
        if sm.ghost != st0.ghost:
            g1 = {a: b for a, b in sm.ghost.items() if not (isinstance(a, tuple))}
            g2 = {a: b for a, b in st0.ghost.items() if not (isinstance(a, tuple))}
            if g1 != g2: raise Incomplete('ghost state changes in summarised loop')
        newcont = []
        p0 = set(sb.pc); fsig = set()
        for fct in sorted(sm.pc, key=lambda x: len(x.vars) if isinstance(x, Forall) else 0):
            if fct in p0: continue
            if isinstance(fct, Forall):
                # one fact per body: re-derived copies (more parameters, stronger guards) are dropped
                sg = repr(fct.body)
                if fct.guard.k != 'false' and sg not in fsig: newcont.append(fct)
                fsig.add(sg)
                continue
            if len(deep_b(fct)) > (24 if fct.k == 'or' else 60): continue
            newcont.append(skolemize(fct, mark, k, keep) if needs_skolem(fct, mark, keep) else fct)
        if rnd >= 5:
            old = set(ckeys(cont))
            newcont = [c for c, kk in zip(newcont, ckeys(newcont)) if kk in old]
        # ---- memory modifications
        unk = {v.unkid() for v in list(vars) + list(cells.values()) if v.form is None} - {None}
        newfams = []; newcells = dict(cells); pending = False; written = set()
        for reg in list(sm.mem):
            if reg > nreg0: continue
            b = sb.mem.get(reg)
            if sm.mem[reg] is b: continue
            for en in delta(sm.mem[reg], b):
                dep = en.off.syms() | (en.size.syms() if isinstance(en.size, Poly) else frozenset())
                for p, lo, hi in en.params: dep |= lo.syms() | hi.syms()
                local = {i for i in dep if i == kid or i in unk or E._symstamp.get(i, -1) >= mark}
                local |= {i for i in dep if has_fn(en.off, mark, keep)}
                if en.kind == 'pt' and not en.params and not local:
                    ck = (reg, en.off, en.size); written.add(ck)
                    if ck not in newcells:
                        rty = Ty(en.ty) if en.ty != 'int' else INT(8 * en.size)
                        v0 = ex.read(st0.clone(), reg, st0.mem.get(reg), en.off, en.size, rty)
                        if v0 is UNDEF and rty.k == 'ptr':
                            v0 = NULL if not isinstance(en.val, Ptr) else UNDEF
                        cv = Var('cell%d_%s' % (reg, fmt(en.off)), v0, rty, ck)
                        if v0 is UNDEF and isinstance(en.val, Ptr):
                            cv.unk = Ptr(en.val.r, newsym('u_cell', 'I'))
                        newcells[ck] = cv
                        nv = ex.read(sm, reg, sm.mem.get(reg), off_of(en), en.size, rty)
                        a_, b_ = (nv.o, v0.o) if isinstance(nv, Ptr) and isinstance(v0, Ptr) and nv.r == v0.r else (nv, v0)
                        if isinstance(a_, Poly) and isinstance(b_, Poly) and rty.k in ('int', 'ptr'):
                            d_ = a_ - b_
                            if d_.d and kid not in d_.syms() and not (d_.syms() & unk) and not needs_skolem(d_, mark, keep):
                                fm_ = b_ + d_ * k
                                cv.form = Ptr(v0.r, fm_) if isinstance(v0, Ptr) else fm_
                    continue
                if local & unk: pending = True; continue
                if en.kind in ('copy', 'fill', 'havoc') :
                    if en.kind == 'copy' and kid in dep: raise Incomplete('memcpy family in summarised loop')
                    if kid in dep or en.kind == 'copy' and en.extra[1] is not st0.mem.get(en.extra[0]):
                        raise Incomplete('%s in summarised loop' % en.kind)
                off2 = skolemize(en.off, mark, k, keep); val2 = skolemize(en.val, mark, k, keep); g2 = skolemize(en.guard, mark, k, keep)
                ps = tuple((p, skolemize(lo, mark, k, keep), skolemize(hi, mark, k, keep)) for p, lo, hi in en.params)
                newfams.append((reg, Ent(en.kind, off2, en.size, val2, en.ty, g2, ps, en.extra)))
        for ck in list(cells):
            # taken for a fixed cell while its address was still provisional
            if ck not in written: del newcells[ck]
        # cell next values
        cvars = list(newcells.values())
        cn = []
        for v in cvars:
            reg, off, size = v.cell
            if v.cell in cells: cn.append(ex.read(sm, reg, sm.mem.get(reg), off, size, v.ty))
            else: cn.append(None)
        progressed = False
        changed = False
        ok = True
        for v, nx in list(zip(vars, nxt)) + list(zip(cvars, cn)):
            if nx is None: changed = True; progressed = True; continue
            if v.form is None:
                fm = guess(ex, v, nx, k, kid, unk, mark, keep, sb)
                if fm is not None:
                    v.form = fm; progressed = True
                changed = True
            else:
                if not (verify(ex, v, nx, k, kid, sm, recs) or (nx is not UNDEF and not v.how and needs_sk(nx, mark, keep) and verify(ex, v, skolemize(nx, mark, k, keep), k, kid, sm, recs))):
                    if v.bad >= 2: raise Incomplete('loop variable %s is not inductive: %r vs %r' % (v.name, v.form, nx))
                    v.bad += 1; v.form = None; changed = True; progressed = True
        if fkeys(newfams) != fkeys(fams): changed = True; progressed = True
        if set(newcells) != set(cells): changed = True; progressed = True
        ck1 = ckeys(newcont); ck0 = ckeys(cont)
        if (ck1 != ck0 and not final) or (final and not set(ck0) <= set(ck1)):
            changed = True; progressed = True
        if opt: newinv = derive_inv(ex, st0, k, kid, newcont, mark, keep)
        else:
            newinv = []
            for b in inv:
                if ex.pr.valid(sm.pc, substb(b, {kid: k + 1})): newinv.append(b)
            if rnd < 4 and not final:
                for b in derive_inv(ex, st0, k, kid, newcont, mark, keep):
                    if b not in newinv and b not in tried: newinv.append(b)
        for b in newinv:
            if b not in tried: tried.append(b)
        if ckeys(newinv) != ckeys(inv): changed = True; progressed = True
        if warm and (changed or pending):
            E.NM.n = n00
            return summarize(ex, m, f, L, st0, env0, prev, True)
        warm = None
        if final:
            if changed:
                final = False     # obligations were recorded on an unstable round: they are re-checked below
                ex.obls_drop = True
            else:
                check_fams(ex, st0, sb, newfams, k, kid, sm)
                if not recs: ex.warm[wkey] = ([(v.name, v.form) for v in vars], [(ck, v.ty, v.form, v.name) for ck, v in newcells.items()], newfams, newcont, newinv)
                E.NM.n = maxn
                out = []
                for (s1, e1, b1, p1, i1) in exits:
                    out.append(finish_exit(ex, s1, e1, b1, p1, i1, k, kid, sb, env0))
                return rets, out
        if DEBUG:
            print('--- round', rnd, key, 'final' if final else '', 'progressed', progressed, 'changed', changed, 'pending', pending)
            for v, nx in list(zip(vars, nxt)) + list(zip(cvars, cn)): print('    ', v.name, 'v0', v.v0, 'next', repr(nx)[:150], 'FORM', repr(v.form)[:150])
            print('     inv', inv, 'newinv', newinv, 'fams', len(fams), len(newfams), 'cont', len(cont), len(newcont))
        if os.environ.get('VF_D2') and rnd>=2:
            print('D2', rnd, key, 'cont', repr(newcont)[:int(os.environ['VF_D2'])]); print('   fams', [x for x in fkeys(newfams)].__repr__()[:int(os.environ['VF_D2'])])
        fams = newfams; cells = newcells; cont = newcont; inv = newinv
        if not changed and not pending and not opt:
            final = True; continue
        if not progressed and not opt:
            # recurrences: introduce ghost functions
            todo = [(v, nx) for v, nx in list(zip(vars, nxt)) + list(zip(cvars, cn)) if v.form is None and nx is not None]
            if not todo: 
                if pending: raise Incomplete('loop writes at unsolved offsets')
                final = True; continue
            for v, nx in todo:
                if not isinstance(v.unk, (Poly, Ptr)) : raise Incomplete('boolean/pointer recurrence %s' % v.name)
                so = 'I' if v.ty.k in ('int', 'ptr') else 'R'
                fn = '%s#rec%d_%s' % (v.name.strip('%'), n00, kname)
                E._fnid[fn] = n0
                keep.add(fn)
                a = app(fn, [k], so)
                v.form = Ptr(v.unk.r, a) if isinstance(v.unk, Ptr) else a
                v.how = ('rec', fn)
            mpu = {v.unkid(): (v.form.o if isinstance(v.form, Ptr) else v.form) for v, nx in todo}
            for v, nx in todo:
                nxp = nx.o if isinstance(nx, Ptr) else nx
                v0 = v.v0.o if isinstance(v.v0, Ptr) else v.v0
                if isinstance(nx, Ptr) and nx.r != v.unk.r: raise Incomplete('pointer recurrence changes region')
                body = skolemize(subst(nxp, mpu), mark, k, keep)
                v.body = body
                recs.append((v.how[1], v0, v.form.o if isinstance(v.form, Ptr) else v.form, body))
    raise Incomplete('loop summary did not stabilise in %s %s' % key)

def off_of(en): return en.off
def sortof(x): return 'I' if x.is_int() else 'R'
def fkeys(fs): return [(r, e.key()) for r, e in fs]
def ckeys(cs):
    return [c if isinstance(c, B) else (c.guard, c.body) for c in cs]
def has_fn(p, mark, keep):
    ids = set(); deep_atoms_p(p, ids)
    for i in ids:
        at = T._byid[i]
        if at.kind == 'sel' and E._fnid.get(at.args[0], -1) >= mark and at.args[0] not in keep: return True
    return False

def prev_facts(k, kid, cont):
    out = []
    for c in cont:
        if isinstance(c, Forall):
            # quantified over more variables; lift: forall t in [0,k)
            if kid in c.syms():
                t = sym('t!', 'I'); mp = {kid: t}
                out.append(Forall(list(c.vars) + [t], band(substb(c.guard, mp), P(0) <= t, t < k), substb(c.body, mp),
                                  [(fn, [subst(p, mp) for p in ps]) for fn, ps in c.trigs], c.name))
            else: out.append(Forall(c.vars, band(c.guard, k >= P(1)), c.body, c.trigs, c.name))
            continue
        if kid not in c.syms():
            out.append(implies(k >= P(1), c)); continue
        out.append(implies(k >= P(1), substb(c, {kid: k - 1})))
        t = sym('t!', 'I')
        body = substb(c, {kid: t})
        tr = find_trigs(body, t)
        for x in tr:
            out.append(Forall([t], band(P(0) <= t, t < k), body, [x], 'iter'))
    return out

def find_trigs(body, t):
    ids = set(); deep_atoms_b(body, ids)
    tid = atom_of(t).id
    out = []
    for i in sorted(ids):
        at = T._byid[i]
        if at.kind == 'sel' and at.args[1]:
            nv = [p for p in at.args[1] if tid in p.syms()]
            if not nv: continue
            if all(any(m == ((tid, 1),) for m in p.d) and sum(1 for m in p.d if any(a == tid for a, _ in m)) == 1 for p in nv):
                tr = (at.args[0], list(at.args[1]))
                if tr not in out: out.append(tr)
    return out[:4]

def guess(ex, v, nx, k, kid, unk, mark, keep, sb):
    u = v.unkid()
    if nx is UNDEF: return None
    sy = vsyms(nx) & UNKS
    if any(i not in unk and E._symstamp.get(i, -1) >= mark for i in sy): return None
    if isinstance(v.unk, Ptr):
        if not isinstance(nx, Ptr):
            return None
        if nx.r != v.unk.r: return None
        if v.v0 is UNDEF:
            r = guess_p(ex, nx.o, v.unk.o, None, u, k, kid, unk, mark, keep)
        else: r = guess_p(ex, nx.o, v.unk.o, v.v0.o, u, k, kid, unk, mark, keep)
        return None if r is None else Ptr(nx.r, r)
    if isinstance(v.unk, B):
        if not isinstance(nx, B): return None
        ids = set(); deep_atoms_b(nx, ids)
        if nx == v.unk: return v.v0
        if (nx.syms() & unk) or batom_in(nx, 'ub_'): return None
        g = skolemize(nx, mark, k, keep)
        if v.v0 is UNDEF: return substb(g, {kid: k - 1})
        return bite(eq0(k), v.v0, substb(g, {kid: k - 1}))
    if isinstance(nx, Ptr): nx = ex.addr(nx.r) + nx.o
    return guess_p(ex, nx, v.unk, v.v0 if v.v0 is not UNDEF else None, u, k, kid, unk, mark, keep)

def batom_in(b, prefix):
    if b.k == 'atom' and str(b.a[0]).startswith(prefix): return True
    return any(batom_in(x, prefix) for x in b.a if isinstance(x, B))

def guess_p(ex, nx, x, v0, u, k, kid, unk, mark, keep):
    d = nx - x
    if not (d.syms() & unk):
        if v0 is None: return None
        if kid not in d.syms() and not needs_skolem(d, mark, keep): return v0 + d * k
        g = skolemize(d, mark, k, keep)
        return v0 + psum_k(g, k, kid)
    if nx.syms() & unk: return None
    g = skolemize(nx, mark, k, keep)
    pv = subst(g, {kid: k - 1})
    if v0 is None: return pv
    if subst(pv, {kid: ZERO}) == v0: return pv
    return ite(eq0(k), v0, pv)

def psum_k(g, k, kid):
    # polynomial in k with integer powers: close the sum for degree <= 1
    deg = 0; simple = True
    for m in g.d:
        for a, e in m:
            if a == kid: deg = max(deg, e)
            elif kid in T._byid[a].syms: simple = False
    if simple and deg <= 1:
        c1 = ZERO; c0 = ZERO
        for m, c in g.d.items():
            md = dict(m)
            if kid in md: md.pop(kid); c1 = c1 + Poly({tuple(sorted(md.items())): c})
            else: c0 = c0 + Poly({m: c})
        return c0 * k + c1 * (k * (k - 1)) * P(Fraction(1, 2))
    t = sym('s?', 'I')
    return psum(t, ZERO, k, subst(g, {kid: t}))

def warm_start(ex, st0, warm, vars, kid, n0):
    """start from the summary found for this loop in an earlier round of an enclosing loop; it is verified like any other guess"""
    wv, wc, fams, cont, inv = warm
    if len(wv) != len(vars): return None
    def at0(form, v0):
        if v0 is UNDEF: return True
        if isinstance(form, Ptr): return isinstance(v0, Ptr) and v0.r == form.r and subst(form.o, {kid: ZERO}) == v0.o
        if isinstance(form, B): return isinstance(v0, B) and substb(form, {kid: ZERO}) == v0
        if isinstance(v0, Ptr): v0 = ex.addr(v0.r) + v0.o
        return isinstance(form, Poly) and isinstance(v0, Poly) and subst(form, {kid: ZERO}) == v0
    for v, (nm, fm) in zip(vars, wv):
        if v.name != nm or not at0(fm, v.v0): return None
    E.NM.n = n0
    cells = {}
    for ck, ty, fm, nm in wc:
        reg, off, size = ck
        if reg not in ex.regions: return None
        v0 = ex.read(st0.clone(), reg, st0.mem.get(reg), off, size, ty)
        if v0 is UNDEF and ty.k == 'ptr': v0 = NULL if not isinstance(fm, Ptr) else UNDEF
        if not at0(fm, v0): return None
        cv = Var(nm, v0, ty, ck); cv.form = fm
        if cv.unk is None and isinstance(fm, Ptr): cv.unk = Ptr(fm.r, newsym('u_cell', 'I'))
        cells[ck] = cv
    for b in inv:
        if not ex.pr.valid(st0.pc, substb(b, {kid: ZERO})): return None
    for v, (nm, fm) in zip(vars, wv): v.form = fm
    return cells, list(fams), list(cont), list(inv)

def needs_sk(nx, mark, keep):
    # the value an iteration leaves may be named by symbols of that iteration: their names are functions of k
    if isinstance(nx, Ptr): nx = nx.o
    return isinstance(nx, (Poly, B)) and needs_skolem(nx, mark, keep)

def verify(ex, v, nx, k, kid, sm, recs):
    if v.how and v.how[0] == 'rec':
        # definition must match the recurrence used
        nxp = nx.o if isinstance(nx, Ptr) else nx
        if nxp is UNDEF: return False
        return nxp == v.body or ex.pr.valid(sm.pc, eq(nxp, v.body))
    fm = v.form
    if isinstance(fm, Ptr):
        if not isinstance(nx, Ptr) or nx.r != fm.r: return False
        return veq(ex, sm, subst(fm.o, {kid: k + 1}), nx.o, fm.o, k, kid)
    if isinstance(fm, B):
        if not isinstance(nx, B): return False
        g = substb(fm, {kid: k + 1})
        if g == nx: return True
        return ex.pr.valid(sm.pc + [g], nx) and ex.pr.valid(sm.pc + [bnot(g)], bnot(nx))
    if nx is UNDEF: return False
    if isinstance(nx, Ptr): nx = ex.addr(nx.r) + nx.o
    return veq(ex, sm, subst(fm, {kid: k + 1}), nx, fm, k, kid)

def veq(ex, sm, a, b, fm, k, kid):
    if a == b: return True
    # sums: form(k+1)-form(k) is the body at k
    a2 = unfold_sums(a, k)
    if a2 == b: return True
    return ex.pr.valid(sm.pc, eq(a2, b), nofa=True)

def unfold_sums(p, k):
    """Sum_{0<=t<k+1} body -> Sum_{0<=t<k} body + body(k)"""
    r = ZERO
    for m, c in p.d.items():
        t = P(c)
        for a, e in m:
            at = T._byid[a]
            x = P(at)
            if at.kind == 'sum' and at.args[2] == k + 1:
                vid, lo, hi, body = at.args
                x = P(T._mk('sum', (vid, lo, k, body), at.sort)) + subst(body, {vid: k})
            for _ in range(e): t = t * x
        r = r + t
    return r

def derive_inv(ex, st0, k, kid, cont, mark, keep):
    """candidate header invariants k <= bound from the conditions under which an iteration continues"""
    out = []
    for c in cont:
        if isinstance(c, Forall): continue
        if c.k in ('ne', 'le', 'lt'):
            p = c.a[0]
            ck = p.d.get(((kid, 1),))
            if c.k == 'ne':
                if ck not in (1, -1): continue
                e = (k * ck - p) * ck
            else:
                if ck is None or ck <= 0: continue
                rest = p - k * ck
                if not rest.is_int(): continue
                # ck*k + rest <= 0   =>  k <= floor(-rest/ck); header bound is one more
                e = (-rest if ck == 1 else idiv(-rest, P(ck))) + 1
            if kid in e.syms() or has_atom(e, 'div') and ck == 1: continue
            if needs_skolem(e, mark, keep): continue
            if ex.pr.valid(st0.pc, P(0) <= e): b = k <= e
            elif c.k == 'ne': continue
            else: b = k <= ite(e >= ZERO, e, ZERO)
            if b not in out: out.append(b)
    return out[:4]
def has_atom(p, kind):
    s = set(); deep_atoms_p(p, s)
    return any(T._byid[i].kind == kind for i in s)

def finish_exit(ex, s, e, b, p, i, k, kid, sb, env0):
    """try to solve the exit iteration number"""
    cands = []
    p0 = set(sb.pc)
    for fct in s.pc:
        if isinstance(fct, Forall) or fct.k not in ('le', 'lt', 'eq'): continue
        c = fct.a[0].d.get(((kid, 1),))
        if c is None: continue
        rest = fct.a[0] - k * c
        if kid in rest.syms(): continue
        v = rest * P(Fraction(-1) / Fraction(c))
        if not v.is_int(): continue
        if v not in cands: cands.append(v)
    sol = None
    for v in cands:
        if any('t!' in str(x) for x in ()): continue
        if ex.pr.valid(s.pc, eq(k, v)): sol = v; break
    if sol is None:
        for v in cands:
            w = ite(v >= ZERO, v, ZERO)
            if ex.pr.valid(s.pc, eq(k, w)): sol = w; break
    if sol is not None and not (atom_of(k).id in sol.syms()):
        mp = {kid: sol}
        s = subst_state(s, mp, sb)
        e2 = {}
        for n, v in e.items():
            e2[n] = v if n.startswith('#') else vsubst(v, mp)
        e = e2
    return (s, e, b, p, i)

def subst_state(s, mp, sb):
    out = s.clone()
    out.pc = []
    for f in s.pc:
        if isinstance(f, Forall):
            out.pc.append(Forall(f.vars, substb(f.guard, mp), substb(f.body, mp), [(fn, [subst(x, mp) for x in ps]) for fn, ps in f.trigs], f.name))
        else:
            g = substb(f, mp)
            if g.k != 'true' and g not in out.pc: out.pc.append(g)
    out.br = [substb(b, mp) for b in s.br]
    memo = {}
    def node(n):
        # rebuild only the part that mentions k
        st = []
        x = n
        while x is not None and id(x) not in memo:
            st.append(x); x = x[1]
        r = None if x is None else memo[id(x)][0]
        for y in reversed(st):
            e = y[0]
            e2 = sub_ent(e, mp)
            if e2 is e and (y[1] is r): r2 = y
            else: r2 = (e2, r)
            memo[id(y)] = (r2, y)
            r = r2
        return r
    def sub_ent(e, mp):
        ids = set(mp)
        sy = e.off.syms() | vsyms(e.val) | e.guard.syms()
        if isinstance(e.size, Poly): sy |= e.size.syms()
        for p, lo, hi in e.params: sy |= lo.syms() | hi.syms()
        ex2 = e.extra
        if e.kind == 'copy' and e.extra:
            nn = node_copy(e.extra[1])
            so = subst(e.extra[2], mp)
            if nn is not e.extra[1] or so != e.extra[2]: ex2 = (e.extra[0], nn, so)
        if not (sy & ids) and ex2 is e.extra: return e
        return Ent(e.kind, subst(e.off, mp), e.size if isinstance(e.size, int) else subst(e.size, mp),
                   vsubst(e.val, mp) if not isinstance(e.val, (int, str)) else e.val, e.ty, substb(e.guard, mp),
                   tuple((p, subst(lo, mp), subst(hi, mp)) for p, lo, hi in e.params), ex2)
    def node_copy(n):
        return node(n) if n is not None else None
    for r, n in s.mem.items():
        out.mem[r] = node(n)
    out.ghost = dict(s.ghost)
    return out

def subst_eqs(d, c):
    for b in c:
        if b.k == 'eq':
            for mm, cc in b.a[0].d.items():
                if len(mm) == 1 and mm[0][1] == 1 and cc in (1, -1):
                    x = P(T._byid[mm[0][0]])
                    d = subst(d, {mm[0][0]: x - b.a[0] * cc}); break
    return d

def last_wins(en, kid):
    if en.kind != 'pt' or not en.params: return False
    sy = en.off.syms() | en.guard.syms()
    for p, lo, hi in en.params: sy |= lo.syms() | hi.syms()
    return kid not in sy

def check_fams(ex, st0, sb, fams, k, kid, sm):
    """each location is written by at most one (site, iteration), or later sites only in the same iteration"""
    facts = sm.pc
    t1 = sym('w1?', 'I'); t2 = sym('w2?', 'I')
    byreg = {}
    for i, (r, e) in enumerate(fams): byreg.setdefault(r, []).append(e)
    for r, es in byreg.items():
        for i, e1 in enumerate(es):
            for j in range(i, len(es)):
                e2 = es[j]
                if e1.kind != 'pt' or e2.kind != 'pt':
                    if len(es) == 1 and kid not in e1.off.syms(): continue
                    raise Incomplete('bulk write in summarised loop')
                # a write of site e1 at iteration t1 and of e2 at t2 must not hit the same place when t1 > t2
                # (t1 > t2 would make the later write appear older in our log), and for i==j when t1 != t2
                if kid not in e1.off.syms() and not e1.params and kid not in e2.off.syms() and not e2.params: continue
                if last_wins(e2, kid): continue    # logged last, and it is the write of the last iteration
                mp1 = {kid: t1}; mp2 = {kid: t2}
                ps1 = []; ps2 = []
                for n, (p, lo, hi) in enumerate(e1.params):
                    q = sym('p1_%d?' % n, 'I'); ps1.append((q, lo, hi)); mp1[atom_of(p).id] = q
                for n, (p, lo, hi) in enumerate(e2.params):
                    q = sym('p2_%d?' % n, 'I'); ps2.append((q, lo, hi)); mp2[atom_of(p).id] = q
                fs = list(facts) + [P(0) <= t2, t2 < t1, t1 <= k]
                for q, lo, hi in ps1: fs += [subst(lo, mp1) <= q, q < subst(hi, mp1)]
                for q, lo, hi in ps2: fs += [subst(lo, mp2) <= q, q < subst(hi, mp2)]
                fs += [substb(e1.guard, mp1), substb(e2.guard, mp2)]
                d = subst(e1.off, mp1) - subst(e2.off, mp2)
                if d.is_const():
                    c = d.const()
                    if c >= e2.size or c <= -e1.size: continue
                if d.d:
                    g = 0
                    from math import gcd
                    for mm, c in d.d.items():
                        if mm and isinstance(c, int): g = gcd(g, c)
                    kk = d.d.get((), 0) % g if g else 0
                    if g and kk >= e2.size and kk + e1.size <= g: continue
                if ex.pr.valid(fs, ne0(d)): continue
                cs = [[]]
                if len(ps1) == len(ps2) and len(ps1) <= 2:
                    for (q1, _, _), (q2, _, _) in zip(ps1, ps2): cs = [c + [b] for c in cs for b in (q1 < q2, eq(q1, q2), q2 < q1)]
                if not all(ex.pr.valid(fs + c, ne0(subst_eqs(d, c))) for c in cs):
                    raise Incomplete('loop writes overlap across iterations: %r / %r' % (e1, e2))
