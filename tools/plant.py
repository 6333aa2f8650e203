#!/usr/bin/env python3
"""plant.py ID : build seeded/ID from tools/bugs/ID.py-style spec (file, old, new, property, needs, breaks, demo), confirming that the
changed tree builds, passes the stable tests, and that the demo tells the two trees apart.  Works in a scratch copy only."""
import sys, os, subprocess, json, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=c++11 -O1 -w %s-I_build -Iinclude -I/usr/include/hdf5/serial "$d/demo.cpp" -o "$t/demo" %s || exit 3
cd "$t" && timeout 120 ./demo
'''
# for code the build does not compile (body.cpp needs the SQuIDS unit constants)
BODY = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
mkdir "$t/SQuIDS"; cp "$d/squids_const.h" "$t/SQuIDS/const.h"
g++ -std=c++11 -O1 -w %s-I"$t" -I_build -Iinclude -I/usr/include/hdf5/serial "$d/demo.cpp" src/body.cpp -o "$t/demo" %s || exit 3
cd "$t" && timeout 120 ./demo
'''
XSEC = BODY.replace('cp "$d/squids_const.h" "$t/SQuIDS/const.h"', 'cp "$d/squids_const.h" "$t/SQuIDS/const.h"; mkdir "$t/nuSQuIDS"; cp "$d/version.h" "$t/nuSQuIDS/version.h"').replace('src/body.cpp', 'src/xsections.cpp')
LIBS = '_build/lib/libnuSQuIDS.a -L/usr/lib/x86_64-linux-gnu/hdf5/serial -lhdf5_hl -lhdf5 -lgsl -lgslcblas -lm'
def run(c, cwd, **k): return subprocess.run(c, shell=isinstance(c, str), cwd=cwd, capture_output=True, text=True, **k)
def plant(b):
    id = b['id']; t = tempfile.mkdtemp(prefix='plant.'); R = t + '/repo'
    try:
        run(['cp', '-a', '/repo', R], '/')
        run('git checkout -q -- . ', R)
        d = V + '/seeded/' + id; os.makedirs(d, exist_ok=True)
        open(d + '/demo.cpp', 'w').write(b['demo'])
        open(d + '/demo.sh', 'w').write((XSEC if b.get('xsec') else BODY if b.get('body') else DEMO) % (b.get('cxx', ''), b.get('libs', LIBS))); os.chmod(d + '/demo.sh', 0o755)
        if b.get('xsec'): shutil.copy(V + '/stubs/nuSQuIDS/version.h', d + '/version.h')
        if b.get('body') or b.get('xsec'): shutil.copy(V + '/stubs/SQuIDS/const.h', d + '/squids_const.h')
        json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
        for f, old, new in b['edits']:
            s = open(R + '/' + f).read()
            assert s.count(old) == 1, (id, f, s.count(old))
            open(R + '/' + f, 'w').write(s.replace(old, new))
        diff = run('git diff', R).stdout; open(d + '/patch.diff', 'w').write(diff)
        # build the way build.sh does, but on the scratch copy
        sh = open('/opt/vp/build.sh').read().replace('/repo', R); bs = t + '/build.sh'; open(bs, 'w').write(sh)
        r = run(['bash', bs], R)
        ts = open('/opt/vp/test.sh').read().replace('/repo', R); tsf = t + '/test.sh'; open(tsf, 'w').write(ts)
        r2 = run(['bash', tsf, t + '/o.json'], R); o = json.load(open(t + '/o.json'))
        ok = r.returncode == 0 and not o['failed'] and len(o['passed']) == 2
        dm = t + '/elsewhere'; shutil.copytree(d, dm)
        bad = run(['bash', dm + '/demo.sh'], R)
        run('git checkout -q -- .', R); run(['bash', bs], R)
        good = run(['bash', dm + '/demo.sh'], R)
        print(id, 'build', r.returncode, 'tests', o, 'demo unchanged', good.returncode, 'demo patched', bad.returncode, (bad.stdout + bad.stderr)[-200:].strip())
        res = ok and good.returncode == 0 and bad.returncode not in (0, 3)
        if not res: print('   NOT CONFIRMED', good.stdout[-500:], good.stderr[-800:], r.stderr[-300:])
        return res
    finally: shutil.rmtree(t, ignore_errors=True)
if __name__ == '__main__':
    ns = {}; exec(open(sys.argv[1]).read(), ns)
    bad = [b['id'] for b in ns['BUGS'] if (len(sys.argv) < 3 or b['id'] in sys.argv[2:]) and not plant(b)]
    print('unconfirmed', bad)
