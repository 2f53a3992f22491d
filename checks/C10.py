"""C10: the headers can be included in any number of translation units of one program, and in any order."""
import sys, os, subprocess, tempfile, shutil, concurrent.futures as cf
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from core import *

SUPPORT = 'fflas-ffpack/utils/test-utils.h'      # support header of the test programs, one translation unit each

def main():
    ck = Check('C10')
    tus = ['d_seq', 'd_more', 'd_check', 'd_par', 'd_mp', 'd_sparse', 'd_misc', 'd_simd256', 'd_simd512', 'lib:ffpack', 'lib:fflas_lvl1']
    prog = load(tus)
    nf = nv = 0
    for f in prog.fns:
        if not f.file.startswith('fflas-ffpack/') or f.file.endswith('.C') or f.file == SUPPORT: continue
        nf += 1
        d = f.d
        if d['ext'] and not d['inl'] and not f.dep and not f.inst and d['spec'] in (0, 2):
            ck.violation('fn|%s|%s' % (f.q, f.t), '%s: %s is an ordinary function defined in a header without `inline`: every translation unit that includes the header emits it, and a program with two of them does not link' % (f.loc(), f.label()))
    seen = set()
    for v in prog.vars:
        if v['file'].endswith('.C') or v['file'].endswith('/' + SUPPORT): continue
        if (v['file'], v['line'], v['q']) in seen: continue
        seen.add((v['file'], v['line'], v['q'])); nv += 1
        if v['def'] and v['ext'] and not v['inl'] and not v['local'] and not v['dep'] and not v['inst']:
            if v['member'] and v['def'] != 2: continue
            ck.violation('var|%s' % v['q'], '%s:%d: variable %s has external linkage and is defined in a header without `inline`' % (v['file'], v['line'], v['q']))
    # a second inclusion of each public header is accepted, and each is self-contained up to the umbrella header
    reached = set(f.file for f in prog.fns) | set(v['file'][len(REPO) + 1:] for v in prog.vars) | set(r['file'][len(REPO) + 1:] for r in prog.recs)
    heads = []
    for sub in ('fflas', 'ffpack', 'utils', 'field', 'paladin', 'checkers', 'fflas/fflas_sparse'):
        dd = os.path.join(REPO, 'fflas-ffpack', sub)
        for n in sorted(os.listdir(dd)):
            if n.endswith('.h') and 'fflas-ffpack/%s/%s' % (sub, n) in reached: heads.append('fflas-ffpack/%s/%s' % (sub, n))
    tmp = tempfile.mkdtemp(prefix='c10.')
    def one(h):
        p = os.path.join(tmp, h.replace('/', '_') + '.C')
        open(p, 'w').write('#include "fflas-ffpack/fflas-ffpack.h"\n#include "%s"\n#include "%s"\n' % (h, h))
        r = subprocess.run(['clang++', '-std=gnu++17', '-march=haswell', '-fopenmp', '-fsyntax-only'] + BASE_FLAGS + [p], capture_output=True, text=True)
        errs = [l for l in r.stderr.splitlines() if 'error:' in l]
        return h, r.returncode, errs
    try:
        with cf.ThreadPoolExecutor(max_workers=8) as ex: res = list(ex.map(one, heads))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    redef = 0
    for h, rc, errs in res:
        r = [e for e in errs if 'redefinition' in e]
        if r:
            ck.violation('guard|%s' % h, '%s cannot be included twice in one translation unit: %s' % (h, r[0]))
        elif rc: redef += 1
    ck.cov['headers_not_selfcontained_skipped'] = redef
    ck.require('header_functions', nf, 500)
    ck.cov['header_variables'] = nv
    ck.require('headers_included_twice', len(heads), 20)
    ck.finish(explanation='linkage of every function and variable definition written in a header (ordinary functions and full specialisations must be inline; variables inline, constant or internal), plus double inclusion of every header after the umbrella header')
run(main)
