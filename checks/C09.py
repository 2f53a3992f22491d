"""C09: every routine that the headers promise to find in the precompiled libraries is emitted by them."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from core import *

def main():
    ck = Check('C09')
    libs = ['lib:fflas_L1_inst', 'lib:fflas_L2_inst', 'lib:fflas_L3_inst', 'lib:ffpack_inst']
    prog = load(['d_compiled'] + libs)
    want = [d for d in prog.decls if d['tu'] == 'd_compiled' and d.get('spec') == 2 and not d.get('inl')]
    have = set(e['mg'] for e in prog.eis if e['tu'] in libs and e['def'])
    own = set()
    for f in prog.fns:
        if f.d.get('mg'): own.add(f.d['mg'])
    missing = [d for d in want if d['mg'] not in have and d['mg'] not in own]
    for d in missing:
        ck.violation('missing|%s|%s|%s' % (d['q'], d['t'], ','.join(p[2] for p in d['ps'])),
                     '%s:%d: specialisation %s<%s> is declared to clients of the precompiled library but no library translation unit instantiates it: undefined reference' % (d['file'], d['line'], d['q'], d['t']))
    # the compiled library must not silently instantiate something else than what its translation units define out of the same template
    ck.require('declared_specialisations', len(want), 300)
    ck.require('instantiation_definitions', len(have), 300)
    ck.samples = ['%s<%s>' % (d['q'], d['t']) for d in want[:8]]
    ck.finish(explanation='set inclusion of mangled names: explicit specialisations declared by the headers under FFLAS_COMPILED/FFPACK_COMPILED versus explicit instantiation definitions in the four library translation units')
run(main)
