"""C20: delayed computations stay within the exactly representable range."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from bv import *
from bounds import *
from scalar import scalar_checks
LIMITS = [('float', '(1 << 24)'), ('double', '(int64_t(1) << 53)'), ('int8_t', '127'), ('int16_t', '32767'), ('int32_t', '2147483647'), ('int64_t', 'INT64_MAX')]
def limits(ck):
    import subprocess, tempfile
    src = '#include <fflas-ffpack/fflas/fflas.h>\n#include <fflas-ffpack/utils/flimits.h>\n'
    for i, (t, v) in enumerate(LIMITS): src += 'static_assert((__int128)limits<%s>::max() <= (__int128)%s, "exact %d");\n' % (t, v, i)
    with tempfile.TemporaryDirectory() as d:
        with open(d + '/l.C', 'w') as o: o.write(src)
        r = subprocess.run(['clang++', '-std=gnu++17', '-march=haswell', '-fopenmp', '-fsyntax-only'] + BASE_FLAGS + [d + '/l.C'], capture_output=True, text=True)
    n = 0
    for i, (t, v) in enumerate(LIMITS):
        if '"exact %d"' % i in r.stderr or 'exact %d' % i in r.stderr and 'static assertion failed' in r.stderr:
            ck.violation('limits|%s' % t, 'fflas-ffpack/utils/flimits.h: limits<%s>::max() is larger than the largest integer up to which %s is exact (%s)' % (t, t, v))
        else: n += 1
    ck.cov['storable_value_witnesses'] = n if r.returncode == 0 else 0
def main():
    ck = Check('C20')
    prog = load(['d_seq', 'd_more', 'd_par', 'd_misc'])
    leaf = lambda f: f.name in LEAVES and red_class(f)[1] and 'LazyTag' not in str(f.params)
    cnt = report(ck, prog, lambda f, nm: bounded(f, nm) and not leaf(f), 'may exceed the bounds its helpers state', fun=bound_fn, rule='bounds', limit=200 if ck.tier == 'quick' else 420, per=1 if ck.tier == 'quick' else 2)
    sc = scalar_checks(prog, 2 if ck.tier == 'quick' else 6)
    n = und = 0
    for f, R in sc:
        n += R.obl; und += len(R.und)
        if R.bad: ck.violation('formula|%s|%s' % (f.file, f.name), '%s: %s%s: %s' % (f.loc(f.line), f.q, '' if not f.params else '(%s..)' % f.params[0][2][:50], ' ; '.join(R.bad[:3])[:700]))
    limits(ck)
    ck.cov['bound_formulas'] = len(sc); ck.cov['formula_obligations'] = n; ck.cov['formula_obligations_undecided'] = und
    ck.cov['operations_bounded'] = ck.cov.pop('bounded_loops', 0); ck.cov.pop('flag_combinations', 0)
    ck.require('definitions_decided', cnt['ok'] + cnt['viol'], 6)
    ck.samples = ['fgemm_classical: kmax from the bounds of H with beta, then k2 = min(k, kmax)', 'Winograd: bounds of S1..S4, T1..T4 and the quarter products']
    ck.finish(explanation='interval analysis of matrix blocks with symbolic bounds (the helper fields Amin..Outmax) by abstract interpretation: every product over the integers is done with an inner dimension bounded by the delay computed for operands at least as large, every sum whose bounds grow is guarded by a test against the largest storable value, the bounds a helper gives to a callee cover the blocks passed, the output bounds cover the output')
run(main)
