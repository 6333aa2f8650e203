"""Self test of the verifier: accepts what holds, does not accept what does not."""
import sys, os, re, shutil, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__))); sys.setrecursionlimit(20000)
os.environ.setdefault('VF_WORK', tempfile.mkdtemp(prefix='vf.'))
import build, vfmodels
rc = 0
try:
    mods = [build.module(os.path.join(build.VERIF, 'drivers', 'selftest.cpp'))]
    for f in list(mods[0].funcs.values()):
        m = re.match(r'vfc::(S00_(good|bad)_\w+)\(\)$', f.demangled)
        if not m: continue
        try: ok = all(o.ok for o in vfmodels.run_contract(mods, m.group(1)).obls)
        except Exception as e: ok = False; print(m.group(1), type(e).__name__, e)
        good = ok == (m.group(2) == 'good')
        print('%-18s %s%s' % (m.group(1), 'accepted' if ok else 'not accepted', '' if good else '   WRONG'))
        if not good: rc = 1
finally: shutil.rmtree(os.environ['VF_WORK'], ignore_errors=True)
sys.exit(rc)
