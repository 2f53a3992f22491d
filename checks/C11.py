"""C11: routines keep no hidden state: no mutable static storage, no process-global mutators."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from core import *

# calls whose effect outlives the call and is visible to other threads (or other library calls)
MUTATORS = {'srand', 'rand', 'random', 'srandom', 'drand48', 'lrand48', 'srand48', 'strtok', 'setlocale', 'setenv', 'putenv', 'fesetround',
            'fesetenv', 'signal', 'atexit', 'omp_set_dynamic', 'omp_set_nested', 'omp_set_max_active_levels', 'omp_set_schedule',
            'mkl_set_num_threads', 'chdir', 'umask', '_mm_setcsr', 'gmtime', 'localtime'}
# reviewed: set the BLAS thread count to a configuration constant / set the OpenMP team size on request of the SET_THREADS macro
RANDGEN = 'fflas-ffpack/utils/fflas_randommatrix.h'   # generators of random instances: positions are drawn with rand()
DIAG = ('fflas-ffpack/utils/args-parser.h', 'fflas-ffpack/utils/test-utils.h', 'fflas-ffpack/utils/timer.h')

def main():
    ck = Check('C11')
    tus = ['d_seq', 'd_more', 'd_check', 'd_par', 'd_mp', 'd_sparse', 'd_misc', 'd_simd256', 'lib:ffpack', 'lib:fflas_lvl1', 'lib:fflas_lvl2', 'lib:fflas_lvl3', 'lib:ffpack_inst']
    prog = load(tus)
    seen = set()
    for v in prog.vars:
        f = v['file'][len(REPO) + 1:]
        k = (f, v['q'], v['line'])
        if k in seen: continue
        seen.add(k)
        if f in DIAG: continue
        if v['tls']: 
            ck.violation('tls|%s|%s' % (f, v['q']), '%s:%d: %s keeps per-thread state between calls' % (f, v['line'], v['q'])); continue
        if v['const'] and not v['mut']: continue
        if v['ref']: continue
        if 'FFPACK::Failure' in v['type']: continue      # diagnostics sink: written only by setErrorStream, read only when an assertion fails
        ck.violation('static|%s|%s' % (f, v['q']), '%s:%d: %s `%s` of type %s is mutable state shared by all calls and threads' % (f, v['line'], 'static local' if v['local'] else 'static/global', v['q'], v['type']))
    ncalls = 0
    for fn in prog.fns:
        if fn.file in DIAG: continue
        for n in walk(fn.body):
            if n[0] == 'call' and isinstance(n[2], dict):
                ncalls += 1
                nm = n[2].get('q', n[2].get('dep', '')) or ''
                nm = nm.split('::')[-1]
                args = n[3] if len(n) > 3 else []
                if nm in MUTATORS and fn.file != RANDGEN:
                    ck.violation('call|%s|%s|%s' % (fn.file, fn.q, nm), '%s: %s calls %s, which changes process-global state' % (fn.loc(n[1]), fn.q, nm))
                elif nm in ('openblas_set_num_threads',) and args and not const_arg(args[0]):
                    ck.violation('call|%s|%s|%s' % (fn.file, fn.q, nm), '%s: %s sets the process-wide BLAS thread count from a run-time value' % (fn.loc(n[1]), fn.q))
                elif nm == 'omp_set_num_threads':
                    ck.violation('call|%s|%s|%s' % (fn.file, fn.q, nm), '%s: %s changes the caller\'s OpenMP team size' % (fn.loc(n[1]), fn.q))
    ck.require('static_storage_variables', len(seen), 5)
    ck.require('functions', len(prog.fns), 500)
    ck.cov['call_sites'] = ncalls
    ck.samples = ['%s %s' % (k[0], k[1]) for k in sorted(seen)[:8]]
    ck.finish(explanation='every variable with static storage duration declared anywhere in the library (namespace scope, static member, static local, thread_local; templates included) must be immutable; no library function calls a process-global mutator')
def const_arg(e):
    return e[0] in ('i', 'kg', 'en') or (e[0] in ('ic', 'cast') and const_arg(e[-1]))
run(main)
