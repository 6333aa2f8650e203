"""Runner: decide one property on /repo's current tree.  usage: check.py <property id> | check.py --replay FILE"""
import sys, os, time, json, re, tempfile, shutil, subprocess, signal, multiprocessing as mp, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
T0 = time.time()
os.environ.setdefault('VF_WORK', tempfile.mkdtemp(prefix='vf.'))
WORK = os.environ['VF_WORK']
import build
from props import PROPS
VERIF = build.VERIF
OUT = os.environ.get('VF_OUT', VERIF)      # evidence and replays go here (only tools/try.sh sets it)
NCPU = os.cpu_count() or 4
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
DEADLINE = T0 + float(os.environ.get('VF_BUDGET', '700' if TIER == 'quick' else '7000'))
CTO = float(os.environ.get('VF_CTO', '240' if TIER == 'quick' else '1500'))     # per contract
STD = ['A-REAL: double arithmetic is exact real arithmetic (no rounding, overflow, NaN or infinity); the native run uses real doubles with a tolerance of 2e-9',
       'A-ALLOC: operator new succeeds (allocation failure is not modelled); addresses of distinct objects are distinct',
       'A-CLANG: clang -O1 front end output (IR before optimisation, then sroa/early-cse/simplifycfg/loop-simplify) means what the source means',
       'A-TERM: loops are proved partially correct; termination is checked only for loops that are completely unrolled']

def native_build(p, race=False):
    exe = os.path.join(WORK, 'native_race' if race else 'native')
    cmd = [build.GXX] + build.cflags() + p['cflags'] + ['-DVF_NATIVE', '-DVF_MAIN', '-w', '-O1', '-g1', '-fno-omit-frame-pointer',
           *(['-fsanitize=thread'] if race else ['-fsanitize=address,undefined', '-fno-sanitize=float-divide-by-zero,float-cast-overflow', '-fno-sanitize-recover=all']),
           os.path.join(VERIF, 'drivers', p['driver'])] + [os.path.join(build.REPO, s) for s in p['srcs'] + p['nsrcs']] + ['-o', exe] + \
          (['-L' + build.H5L, '-lhdf5_hl', '-lhdf5', '-lgsl', '-lgslcblas', '-lm', '-lpthread'] if p['srcs'] or p['native_libs'] else [])
    return exe, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=0:max_allocation_size_mb=4000',
           UBSAN_OPTIONS='print_stacktrace=0', TSAN_OPTIONS='halt_on_error=1:exitcode=66:report_thread_leaks=0', MALLOC_PERTURB_='165')
def native_cmd(exe, *a): return [exe] + [str(x) for x in a]

def run_native(exe, names, cases, secs, seed, deadline):
    """run each contract in its own process, NCPU at a time; returns {name: dict(status, ...)}"""
    out = {}; todo = list(names); running = []
    while todo or running:
        while todo and len(running) < NCPU:
            n = todo.pop(0)
            d = os.path.join(WORK, 'n_' + n); os.makedirs(d, exist_ok=True)
            o = open(os.path.join(d, 'out'), 'w+'); cur = os.path.join(d, 'cur')
            pr = subprocess.Popen(native_cmd(exe, 'runone', n, seed, cases, secs), stdout=o, stderr=subprocess.STDOUT, env=dict(ENV, VF_CUR=cur, TMPDIR=d), cwd=d)
            running.append((n, pr, o, cur, time.time()))
        for it in list(running):
            n, pr, o, cur, ts = it
            lim = max(120, secs * 10)
            hang = pr.poll() is None and (time.time() - ts > lim)
            if hang: pr.kill(); pr.wait()
            if pr.poll() is None: continue
            running.remove(it)
            o.seek(0); txt = o.read(); o.close()
            res = dict(status='ok', text=txt[-6000:], rc=pr.returncode, ok=0, rejected=0, checks=0)
            m = re.search(r'DONE \S+ bounded=(\d) ok=(\d+) rejected=(\d+) checks=(\d+)', txt)
            if m: res.update(bounded=int(m.group(1)), ok=int(m.group(2)), rejected=int(m.group(3)), checks=int(m.group(4)))
            f = re.search(r'^FAIL contract=(\S+) seed=(\d+) case=(\d+) :: (.*)$', txt, re.M)
            if f: res.update(status='fail', seed=int(f.group(2)), case=int(f.group(3)), msg=f.group(4)[:1500])
            elif hang or not m or pr.returncode not in (0,):
                c = open(cur).read().split() if os.path.exists(cur) else []
                why = 'hang: no progress for %ds' % lim if hang else 'crash (exit %s)' % pr.returncode
                mm = re.search(r'(ERROR: AddressSanitizer: .*|runtime error: .*|terminate called.*)', txt)
                # a time-out can come from machine load: it is never a witness by itself
                res.update(status='hang' if hang else 'crash', msg=why + (': ' + mm.group(1) if mm else ''), seed=int(c[1]) if len(c) > 2 else seed, case=int(c[2]) if len(c) > 2 else 0)
            out[n] = res
        time.sleep(0.02)
    return out

def worker(conn, mods, name, tmult, models):
    try:
        os.environ['VF_TMULT'] = str(tmult)
        import prover; prover.TM = tmult
        import vfmodels, importlib
        t = time.time()
        extra = []
        for mname in models:
            mod = importlib.import_module(mname); extra.append(mod.install)
        ex = vfmodels.run_contract(mods, name, extra)
        st = prover.STATS
        conn.send(dict(name=name, obls=[(o.name, bool(o.ok), str(o.detail)[:1500], str(o.where)[:300]) for o in ex.obls], asserts=dict(ex.asserts),
                       functions=dict(ex.functions), trusted=dict(ex.trusted), loops={'%s %s' % (k[0][:120], k[1]): sorted(v) for k, v in ex.loops.items()},
                       t=time.time() - t, tz3=st.t_z3, calls=st.calls, cache=st.cache, nf=st.nf, z3lin=st.z3lin, z3nl=st.z3nl, unknown=st.unknown))
    except BaseException as e:
        try: conn.send(dict(name=name, error='%s: %s' % (type(e).__name__, str(e)[:1500]), tb=traceback.format_exc()[-1500:]))
        except Exception: pass
    finally:
        conn.close(); os._exit(0)

def run_proofs(mods, names, models, tmult=1.0, cto=None):
    ctx = mp.get_context('fork'); out = {}; todo = list(names); running = []
    cto = cto or CTO
    while todo or running:
        while todo and len(running) < NCPU and time.time() < DEADLINE:
            n = todo.pop(0)
            a, b = ctx.Pipe(False)
            pr = ctx.Process(target=worker, args=(b, mods, n, tmult, models), daemon=True); pr.start(); b.close()
            running.append((n, pr, a, time.time()))
        if todo and time.time() >= DEADLINE:
            for n in todo: out[n] = dict(name=n, error='Budget: not attempted within the time budget of the check')
            todo = []
        for it in list(running):
            n, pr, a, ts = it
            got = None
            if a.poll(0.01):
                try: got = a.recv()
                except EOFError: got = dict(name=n, error='verifier process ended without a result')
            elif not pr.is_alive() and not a.poll(0): got = dict(name=n, error='verifier process ended without a result')
            elif time.time() - ts > cto or time.time() > DEADLINE + 30: got = dict(name=n, error='Timeout: no verdict within %d s' % (time.time() - ts))
            if got is None: continue
            running.remove(it)
            try: pr.kill()
            except Exception: pass
            pr.join(); a.close(); out[n] = got
    return out

def known():
    p = os.path.join(VERIF, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else {'findings': [], 'fixed': []}

def bad_of(r):
    if 'error' in r: return [('verification completes', False, r['error'], '')]
    return [o for o in r['obls'] if not o[1]]

def main(pid):
    p = PROPS[pid]
    viol = []       # (contract, obligation text, replay dict, has witness)
    drv = os.path.join(VERIF, 'drivers', p['driver'])
    exe, npr = native_build(p)
    mods = None; cerr = None
    try:
        mods = [build.module(drv, p['ecflags'] + p['cflags'])] + [build.module(os.path.join(build.REPO, s), p['ecflags'] + p['cflags']) for s in p['srcs']]
        names = [f.demangled[5:-2] for f in mods[0].funcs.values() if re.match(r'vfc::%s_\w+\(\)$' % pid, f.demangled)]
    except RuntimeError as e:
        cerr = str(e); names = []
    # concrete runs of the same contracts first: they are quick, and a failing input settles the matter
    thor = TIER == 'thorough'
    nout, _ = npr.communicate()
    nat = {}; nerr = None
    if npr.returncode: nerr = nout[-3000:]
    else:
        lst = [l.split() for l in subprocess.run([exe, 'list'], capture_output=True, text=True, env=ENV).stdout.splitlines()]
        nb = [n for n, b in lst if n.startswith(pid + '_')]
        nat = run_native(exe, nb, 200000 if thor else 4000, 60 if thor else (6 if len(nb) < 16 else 4), SEED, DEADLINE)
    # the same runs watched for data races; only a reported race is a finding (the watcher itself may be unable to start)
    if p['race'] and not nerr:
        rexe, rpr = native_build(p, True); rpr.communicate()
        for n, r in (run_native(rexe, p['race'], 200000 if thor else 4000, 60 if thor else 4, SEED, DEADLINE) if rpr.returncode == 0 else {}).items():
            m = re.search(r'^SUMMARY: ThreadSanitizer: data race (.*)$', r['text'], re.M)
            if m and nat[n]['status'] == 'ok': nat[n].update(status='crash', msg='data race: ' + m.group(1), text=r['text'], seed=r.get('seed', SEED), case=r.get('case', 0), race=True)
    proofs = run_proofs(mods, names, p['models'], cto=p['cto'] and max(p['cto'], CTO)) if names else {}
    failing = [n for n in names if bad_of(proofs[n])]
    kf = known()
    listed = lambda n, text: [k for k in kf.get('findings', []) if k['property'] == pid and k['contract'] == n and k['match'] in text]
    wit = lambda: any(r['status'] in ('fail', 'crash') and not listed(n, r['msg']) for n, r in nat.items())
    # an obligation that fails without a failing input: look for one with more cases, and give the prover more time
    more = [n for n in failing if n in nat and nat[n]['status'] == 'ok']
    if more and not wit():
        for n, r in run_native(exe, more, 400000, 30 if not thor else 200, SEED + 7919, DEADLINE).items():
            if r['status'] != 'ok': nat[n] = r
    if failing and not wit() and time.time() < DEADLINE - 60:
        again = run_proofs(mods, failing, p['models'], tmult=5.0, cto=max(60, min(CTO * 2, DEADLINE - time.time() - 10)))
        for n, r in again.items():
            if not bad_of(r) or 'error' in proofs[n] and 'error' not in r: proofs[n] = r
    # ---- verdict
    printed = set()
    def is_known(contract, text):
        for k in listed(contract, text):
            if k['what'] not in printed:
                printed.add(k['what']); print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
            return True
        return False
    rd = os.path.join(OUT, 'evidence', 'replays'); os.makedirs(rd, exist_ok=True)
    for f in os.listdir(rd):
        if f.startswith(pid + '-'): os.unlink(os.path.join(rd, f))
    def emit(contract, doc, witness):
        fn = os.path.join(rd, '%s-%s.json' % (pid, contract))
        doc = dict(property=pid, contract=contract, driver=p['driver'], **doc)
        json.dump(doc, open(fn, 'w'), indent=1)
        viol.append((contract, witness))
        return 'VIOLATION property=%s replay=%s%s' % (pid, fn, '' if witness else ' no-failing-input-found')
    lines = []
    if cerr: lines.append(emit('extraction', dict(obligation='the contracts compile against the current sources', output=cerr), False))
    elif nerr: lines.append(emit('native-build', dict(obligation='the contracts compile and link against the current sources', output=nerr), False))
    for n in dict.fromkeys(list(names) + list(nat)):
        bad = bad_of(proofs[n]) if n in proofs else []
        w = nat.get(n)
        if w and w['status'] in ('fail', 'crash'):
            if is_known(n, w['msg']): continue
            lines.append(emit(n, dict(obligation=bad[0][0] if bad else w['msg'].split(':')[0], failed_obligations=bad[:10], witness=w['msg'], output=w['text'][-3000:],
                                      seed=w['seed'], case=w['case'], race=w.get('race', False), replay_cmd='python3-vt engine/check.py --replay <this file>'), True))
        elif bad:
            if is_known(n, bad[0][0]): continue
            lines.append(emit(n, dict(obligation=bad[0][0], failed_obligations=bad[:20], verifier_error=proofs[n].get('error'), traceback=proofs[n].get('tb')), False))
    # ---- evidence
    good = [proofs[n] for n in names if 'error' not in proofs[n]]
    sym = set(re.findall(r'^VF_S\((\w+)\)', open(drv).read(), re.M)) & set(names)     # all values, bounded shapes: never counted as proved
    symb = {r['name']: dict(kind='symbolic: all values, stated bounded shapes', obligations=len(r['obls']), discharged=sum(1 for o in r['obls'] if o[1])) for r in good if r['name'] in sym}
    allob = [o for r in good if r['name'] not in sym for o in r['obls']]
    fns = sorted({f for r in good for f in r['functions'] if not f.startswith('vfc::')})
    repof = [f for f in fns if not re.match(r'(\w[\w ]*[ &*]+)?(std::|__gnu_cxx::|vfi::|operator new|operator delete)', f)]
    loops = {}
    for r in good:
        for k, v in r['loops'].items(): loops.setdefault(k, set()).update(v)
    tr = sorted({t for r in good for t in r['trusted'] if not t.startswith('vfi::')})
    bounded = dict(symb); bounded.update({n: dict(cases=r['ok'], rejected=r['rejected'], checks=r['checks']) for n, r in nat.items() if r.get('bounded')})
    ev = dict(property=pid, tier=TIER if TIER in ('quick', 'thorough') else 'quick', seed=SEED, level=p.get('level', 'proof'),
              coverage=dict(
                  obligations=len(allob) + sum(1 for n in names if 'error' in proofs[n] and n not in sym), discharged=sum(1 for o in allob if o[1]),
                  checker_cmd='cd /verif && python3-vt engine/check.py ' + pid,
                  trusted_base=['clang 18 front end + opt', 'engine/ (own verification-condition generator and normal-form prover)', 'z3 ' + __import__('z3').get_version_string()] +
                               (['trusted contracts of external functions: ' + ', '.join(tr)] if tr else []),
                  contracts=len(names) - len(sym), contracts_discharged=sum(1 for n in names if n not in sym and not bad_of(proofs[n])),
                  postconditions=sum(sum(r['asserts'].values()) for r in good if r['name'] not in sym),
                  functions_under_contract=repof[:400], library_functions_verified_inline=len(fns) - len(repof),
                  loops={k: '/'.join(sorted(v)) for k, v in sorted(loops.items())},
                  prover=dict(queries=sum(r['calls'] for r in good), memo_hits=sum(r['cache'] for r in good), by_normal_form=sum(r['nf'] for r in good),
                              by_z3_linear=sum(r['z3lin'] for r in good), by_z3_nonlinear=sum(r['z3nl'] for r in good), not_valid=sum(r['unknown'] for r in good),
                              z3_seconds=round(sum(r['tz3'] for r in good), 2), verifier_seconds=round(sum(r['t'] for r in good), 2)),
                  per_contract={r['name']: dict(obligations=len(r['obls']), discharged=sum(1 for o in r['obls'] if o[1]), seconds=round(r['t'], 2)) for r in good},
                  native_replay=dict(compiler='g++ -fsanitize=address,undefined', cases=sum(r['ok'] for r in nat.values() if not r.get('bounded')), assertions=sum(r['checks'] for r in nat.values() if not r.get('bounded')),
                                     note='the same contracts run on concrete inputs; not counted as proved'),
                  bounded_stand_ins=bounded or 'none'),
              assumptions=STD + p['assumptions'], wall_s=round(time.time() - T0, 2), violations=len(viol))
    os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(OUT, 'evidence', pid + '.json'), 'w'), indent=1)
    c = ev['coverage']
    print('%s: %d/%d contracts, %d/%d obligations discharged, native %d cases, bounded stand-ins %d, %.1f s' % (
        pid, c['contracts_discharged'], c['contracts'], c['discharged'], c['obligations'], c['native_replay']['cases'], len(bounded), ev['wall_s']))
    for n in names:
        for o in bad_of(proofs[n])[:3]: print('  undischarged %s: %s | %s | %s' % (n, o[0], o[2][:300], o[3][:160]))
    for n, r in nat.items():
        if r['status'] != 'ok': print('  native %s %s: %s' % (r['status'], n, r.get('msg', '')[:600]))
    if not names and not cerr and not nat: print('no contract found'); return 2
    for l in lines: print(l)
    return 1 if viol else 0

def replay(path):
    d = json.load(open(path)); p = PROPS[d['property']]
    print(json.dumps({k: d[k] for k in d if k != 'output'}, indent=1)[:4000])
    if 'case' not in d: print('no failing input recorded: the failed obligations above are the finding'); return 1
    exe, npr = native_build(p, d.get('race', False)); o, _ = npr.communicate()
    if npr.returncode: print(o); return 2
    r = subprocess.run([exe, 'one', d['contract'], str(d['seed']), str(d['case'])], env=ENV, cwd=WORK)
    print('exit', r.returncode); return 1 if r.returncode else 0

if __name__ == '__main__':
    rc = 2
    try: rc = replay(sys.argv[2]) if sys.argv[1] == '--replay' else main(sys.argv[1])
    finally:
        sys.stdout.flush()
        shutil.rmtree(WORK, ignore_errors=True)
    sys.exit(rc)
