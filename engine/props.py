"""Property table: which contract driver and which /repo sources each property's contracts verify."""
import build
T, D, R = 'src/tools.cpp', 'src/taudecay.cpp', 'src/resources.cpp'
PROPS = {}
def P(id, driver, srcs=(), headers=(), assumptions=(), native_libs=(), models=(), cflags=(), cto=None, nsrcs=(), ecflags=(), race=()):
    PROPS[id] = dict(id=id, driver=driver, srcs=list(srcs), headers=list(headers), assumptions=list(assumptions), native_libs=list(native_libs), models=list(models), cflags=list(cflags), cto=cto, nsrcs=list(nsrcs), ecflags=list(ecflags), race=list(race))
MA = ['include/nuSQuIDS/marray.h']
P('B01', 'alloc.cpp', headers=['include/nuSQuIDS/aligned_alloc.h'])
for i in ('C01', 'C02', 'C03'): P(i, 'interp.cpp', [T], headers=['include/nuSQuIDS/tools.h'])
for i in ('E01', 'E02'): P(i, 'tau.cpp', [D], headers=['include/nuSQuIDS/taudecay.h'])
for i in ('D01', 'D02'): P(i, 'quad.cpp', cto=800 if i == 'D02' else None, models=['contracts'] if i == 'D02' else [], headers=['include/nuSQuIDS/AdaptiveQuad.h'], cflags=['-fno-builtin-sqrt'] + (['-DVF_ADAPT'] if i == 'D02' else []))
for i in ('C04', 'C05'): P(i, 'cubic.cpp', [T], cto=600 if i == 'C05' else None, models=['contracts'], headers=['include/nuSQuIDS/tools.h'])
for i in ('A01', 'A02', 'A03', 'A04', 'A05', 'A06'): P(i, 'marray.cpp', headers=MA)
BD = 'src/body.cpp'
for i in ('H01', 'H02'): P(i, 'bodies.cpp', [BD, T], nsrcs=[R], headers=['include/nuSQuIDS/body.h'], models=['contracts'], cflags=['-fno-builtin-sqrt'])
STRINGS = ['-include', 'bits/c++config.h', '-include', build.VERIF + '/stubs/inline_strings.h']
HDF = ['the HDF5 library is represented by drivers/h5store.h (a group of attributes and datasets, identifiers with a kind; assumed contract of the library); the native run of the same contracts uses the real library on a file in memory',
       'std::string and shared_ptr are executed as the library templates implement them, reference counts sequentially']
CONST = ['SQuIDS/const.h (absent here) is replaced by stubs/SQuIDS/const.h: unit constants and pi']
for i in ('H01', 'H02'): PROPS[i]['assumptions'] += CONST
P('F01', 'h5io.cpp', [T], headers=['include/nuSQuIDS/tools.h', 'include/nuSQuIDS/marray.h'], models=['strings'], cflags=STRINGS, assumptions=HDF)
P('H03', 'persist.cpp', [BD, T], nsrcs=[R], headers=['include/nuSQuIDS/body.h', 'include/nuSQuIDS/tools.h'], models=['contracts', 'strings'], assumptions=HDF + CONST, cflags=['-fno-builtin-sqrt'] + STRINGS)
XSA = ['the interpolators and logspace are represented by contracts (C01-C04) as functions of their tables and the point',
       'pow, log10 and exp are uninterpreted increasing functions where a contract says so; file streams and the HDF5 library are ghost models in verifier builds',
       'buckets of std::unordered_map follow the library\'s policy for up to 13 elements']
for i in ('X01', 'X02', 'X03', 'X04', 'X05'):
    P(i, 'xsec.cpp', ['src/xsections.cpp', T], nsrcs=[R], headers=['include/nuSQuIDS/xsections.h', 'include/nuSQuIDS/tools.h'] + (['include/nuSQuIDS/AdaptiveQuad.h'] if i == 'X05' else []), models=['contracts', 'strings'], assumptions=HDF + CONST + XSA, cflags=['-fno-builtin-sqrt'] + STRINGS, ecflags=['-I' + build.VERIF + '/stubs/std'])

TXT = ['text streams are a ghost file of lines of numbers in verifier builds (stubs/text; assumed contract of <fstream>, <sstream>), the real streams in native runs']
GSL = ['the GSL matrix functions are represented by their contracts in drivers/text.cpp (checked preconditions), the real library in native runs']
for i in ('T01', 'T02'): P(i, 'text.cpp', [T], nsrcs=[R], headers=['include/nuSQuIDS/tools.h', 'include/nuSQuIDS/resources.h'] if i == 'T01' else ['include/nuSQuIDS/tools.h'], models=['contracts', 'strings'], assumptions=TXT if i == 'T01' else GSL, cflags=['-fno-builtin-sqrt'] + STRINGS, ecflags=['-I' + build.VERIF + '/stubs/text'])
P('K03', 'pool.cpp', headers=['include/nuSQuIDS/ThreadPool.h'], models=['contracts', 'strings'], cflags=['-fno-builtin-sqrt'] + STRINGS, ecflags=['-I' + build.VERIF + '/stubs/thr'], native_libs=['pthread'], race=['K03_order', 'K03_meet', 'K03_prompt', 'K03_refuse'],
  assumptions=['monitor reasoning: what queue_mutex protects is arbitrary whenever a thread acquires the lock and is touched by nobody else while it is held (mutual exclusion and memory ordering of std::mutex, wake-ups of std::condition_variable, std::thread and std::future are the assumed contracts in stubs/thr)',
               'the tasks in the queue do not throw (enqueue only puts packaged tasks there, which keep the exception)', 'termination of tasks and fairness of the scheduler'])
