"""Mechanical extraction: current /repo sources -> LLVM IR (nothing is edited or dropped; see DESIGN.md)."""
import os, subprocess, hashlib, sys
REPO = os.environ.get('VF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def _tool(n, alts):
    for a in alts:
        if os.path.exists(a): return a
    return n
CLANG = _tool('clang++', ['/usr/lib/llvm-18/bin/clang++', '/usr/bin/clang++-18', '/usr/bin/clang++'])
OPT = _tool('opt', ['/usr/lib/llvm-18/bin/opt', '/usr/bin/opt-18', '/usr/bin/opt'])
GXX = _tool('g++', ['/usr/bin/g++'])
H5 = '/usr/include/hdf5/serial'
H5L = '/usr/lib/x86_64-linux-gnu/hdf5/serial'
def workdir():
    d = os.environ.get('VF_WORK')
    if not d:
        d = '/tmp/vf.%d' % os.getpid()
    os.makedirs(d, exist_ok=True)
    g = os.path.join(d, 'gen')
    if not os.path.exists(g):
        os.makedirs(g)
        src = REPO + "/_build/resource_paths.h"
        txt = open(src).read() if os.path.exists(src) else (
            '#include <cstring>\n#define SOURCE_DATA_PATH "%s/data/"\n#define INSTALL_DATA_PATH "/usr/local/share/nuSQuIDS/"\n'
            'namespace{ bool getInstallBit(){ return false; } }\n' % REPO)
        open(os.path.join(g, "resource_paths.h"), "w").write(txt)
    return d
def cflags():
    d = workdir()
    return ['-std=c++11', '-fsized-deallocation', '-I' + os.path.join(d, 'gen'), '-I' + REPO + '/include', '-I' + VERIF + '/stubs', '-I' + H5]
def emit_ir(src, tag=None, extra=()):
    d = workdir()
    tag = tag or '_'.join(src.split('/')[-2:]).replace('.', '_')
    ll = os.path.join(d, tag + '.ll'); ll2 = os.path.join(d, tag + '.opt.ll')
    cmd = [CLANG] + cflags() + list(extra) + ['-O1', '-Xclang', '-disable-llvm-passes',
           '-fno-discard-value-names', '-ffp-contract=off', '-w', '-emit-llvm', '-S', src, '-o', ll]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: raise RuntimeError('clang failed on %s:\n%s' % (src, r.stderr[-3000:]))
    r = subprocess.run([OPT, '-S', '-passes=function(sroa,early-cse,simplifycfg,loop-simplify)', ll, '-o', ll2], capture_output=True, text=True)
    if r.returncode: raise RuntimeError('opt failed: ' + r.stderr[-2000:])
    return open(ll2).read()
_mods = {}
def module(src, extra=()):
    import irparse
    k = (src, tuple(extra))
    if k not in _mods: _mods[k] = irparse.parse_module(emit_ir(src, extra=extra))
    return _mods[k]
