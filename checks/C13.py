"""C13: the library type-checks and generates code in every supported configuration."""
import sys, os, re, subprocess, concurrent.futures as cf
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from core import *
DR = ['d_seq', 'd_more', 'd_par', 'd_mp', 'd_misc', 'd_check', 'd_cuts', 'd_sparse']
LIB = ['fflas_L1_inst', 'fflas_L2_inst', 'fflas_L3_inst', 'fflas_lvl1', 'fflas_lvl2', 'fflas_lvl3', 'ffpack', 'ffpack_inst']
def cfg(arch='haswell', omp=True, std='gnu++17', macros=()):
    return ['-std=' + std, '-march=' + arch] + (['-fopenmp'] if omp else []) + ['-D' + m for m in macros]
BASE = cfg()
CONF = {'base': BASE}
for a in ('x86-64', 'nehalem', 'sandybridge', 'knl', 'skylake-avx512'):
    CONF[a] = cfg(a)
for a in ('x86-64', 'haswell', 'skylake-avx512'):
    CONF[a + ' without OpenMP'] = cfg(a, omp=False)
for n, m in (('dataflow', ['__FFLASFFPACK_USE_DATAFLOW']), ('checks', ['ENABLE_ALL_CHECKINGS']), ('timed checks', ['ENABLE_ALL_CHECKINGS', 'TIME_CHECKERS', 'TIME_CHECKER_Det', 'TIME_CHECKER_CHARPOLY', 'TIME_CHECKER_PLUQ']),
             ('debug', ['__FFLASFFPACK_DEBUG', 'DEBUG']), ('forced sequential', ['__FFLASFFPACK_FORCE_SEQ']), ('sequential', ['__FFLASFFPACK_SEQUENTIAL']),
             ('static peeling', ['OLD_DYNAMIC_PEELING']), ('left-looking', ['LEFTLOOKING']), ('monotonic', ['MONOTONIC_APPLYP']), ('fsytrf rl', ['__FFPACK_FSYTRF_BC_RL']), ('fsytrf crout', ['__FFPACK_FSYTRF_BC_CROUT'])):
    CONF[n] = cfg(macros=m)
DEEP = {'C++11': cfg(std='gnu++11'), 'C++14': cfg(std='gnu++14'), 'debug checks': cfg(macros=['__FFLASFFPACK_DEBUG', 'ENABLE_ALL_CHECKINGS']),
        'nehalem without OpenMP': cfg('nehalem', omp=False), 'dataflow avx512': cfg('skylake-avx512', macros=['__FFLASFFPACK_USE_DATAFLOW']),
        'avx512 debug': cfg('skylake-avx512', macros=['__FFLASFFPACK_DEBUG']), 'profile': cfg(macros=['PROFILE_FGEMM_MP', 'BENCH_PERF_FGEMM_MP', 'BENCH_PERF_LQUP_MP']), 'CHECK_RNS': cfg(macros=['CHECK_RNS'])}
FEATURE = re.compile(r'needs target feature|requires target feature|is compiled without support')
def one(job):
    name, conf, flags, f, mode = job
    cmd = ['clang++'] + flags + ['-I' + os.path.join(VERIF, 'config'), '-I' + REPO, '-resource-dir=/usr/lib/llvm-18/lib/clang/18', '-w', '-ferror-limit=20', f]
    cmd += {'syntax': ['-fsyntax-only'], 'all': ['-femit-all-decls', '-c', '-O0', '-o', '/dev/null'], 'code': ['-c', '-O0', '-o', '/dev/null']}[mode]
    r = subprocess.run(cmd, capture_output=True, text=True)
    errs = []
    for l in r.stderr.splitlines():
        m = re.match(r'^(\S+?):(\d+):\d+: (?:fatal )?error: (.*)$', l)
        if m: errs.append((m.group(1), int(m.group(2)), m.group(3)))
    if r.returncode and not errs: errs.append(('', 0, r.stderr[-300:]))
    return errs
def main():
    ck = Check('C13')
    conf = dict(CONF)
    if ck.tier == 'thorough': conf.update(DEEP)
    jobs = []
    for c, fl in conf.items():
        nondebug = [] if 'debug' in c else ['-DNDEBUG']
        for d in DR:
            if d == 'd_sparse' and 'sequential' in c: continue        # names the parallel sparse product
            jobs.append((d, c, fl + nondebug, os.path.join(VERIF, 'drivers', d + '.C'), 'syntax'))
        if c in ('base', 'x86-64', 'skylake-avx512', 'haswell without OpenMP') or ck.tier == 'thorough':
            for l in LIB: jobs.append((l, c, fl + nondebug, os.path.join(LIBS, l + '.C'), 'syntax'))
    for a in ('nehalem', 'sandybridge', 'haswell', 'skylake-avx512'):
        jobs.append(('vector wrappers', a, cfg(a), os.path.join(VERIF, 'drivers', 'd_simd.C'), 'all'))
    for a in ('x86-64', 'nehalem', 'sandybridge', 'knl', 'skylake-avx512'):
        jobs.append(('code for d_seq', a, cfg(a) + ['-DNDEBUG'], os.path.join(VERIF, 'drivers', 'd_seq.C'), 'code'))
        jobs.append(('code for d_more', a, cfg(a) + ['-DNDEBUG'], os.path.join(VERIF, 'drivers', 'd_more.C'), 'code'))
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        res = list(ex.map(one, jobs))
    basebad = set()
    for j, errs in zip(jobs, res):
        if j[1] == 'base':
            for f, l, t in errs:
                if f.startswith(VERIF): basebad.add((j[0], l))
    bad = 0
    for j, errs in zip(jobs, res):
        own = [e for e in errs if e[0].startswith(REPO + '/')]
        drv = [e for e in errs if e[0].startswith(VERIF + '/drivers') and (j[0], e[1]) not in basebad and ('code' not in j[0] or (j[0][9:], e[1]) not in basebad)]
        oth = [e for e in errs if not e[0].startswith(REPO + '/') and not e[0].startswith(VERIF) and not (j[4] == 'all' and FEATURE.search(e[2]))]
        hit = own + drv + (oth if not errs[:1] or oth[:1] == errs[:1] else [])
        if hit:
            bad += 1
            f, l, t = hit[0]
            f = f[len(REPO) + 1:] if f.startswith(REPO + '/') else os.path.basename(f)
            ck.violation('compile|%s:%d|%s' % (f, l, j[1]), 'configuration "%s" (%s) does not compile: %s' % (j[1], j[0], t))
    ck.require('configurations', len(conf) + 4, 10)
    ck.require('translation_units_compiled', len(jobs), 50)
    ck.samples = ['%s [%s]' % (j[0], ' '.join(j[2])) for j in jobs[:12]]
    ck.finish(explanation='each translation unit (drivers instantiating the public templates over the supported fields, and the sources of the precompiled libraries) is type-checked by the compiler in each configuration; every member of the vector wrappers is also lowered to code for the instruction set that selects it, so that an intrinsic outside that set is rejected')
run(main)
