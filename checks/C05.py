"""C05: every operand is addressed with its own row distance / increment."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from core import *
from stride import *

def allocs(pv, v):
    """column counts of the matrices a local may hold, or None when that is not known"""
    out = []
    for d in pv.defs.get(v, []):
        d = strip(d)
        if d and (d[0] == 'null' or d[0] == 'i'): continue
        if d and d[0] == 'call' and d[2].get('q', '').split('::')[-1] == 'fflas_new':
            out.append([x for x in d[3] if not (isinstance(x, list) and x and x[0] == 'darg')]); continue
        return None
    return out or None

def base(pv, e):
    e = strip(e)
    while e and e[0] == 'bin' and e[2] in '+-':
        e = strip(e[4] if pv.isint(e[3]) else e[3])
    return e[2] if e and e[0] == 'v' and e[2] not in pv.par else None

def plainstride(pv, e):
    e = strip(e)
    return bool(e and e[0] == 'v' and e[2] in pv.strides)

def main():
    ck = Check('C05')
    prog = load(['d_seq', 'd_more', 'd_par', 'd_mp', 'd_misc', 'd_check', 'd_sparse'])
    cnt = dict(functions=0, stride_arguments=0, own=0, constant=0, unresolved=0, offsets=0, local_buffers=0)
    inst = {(f.file, f.line) for f in prog.fns if not f.dep}
    for f in prog.fns:
        if f.dep and (f.file, f.line) in inst: continue     # judged through its instantiations
        pv = Prov(f)
        names = lambda vs: '/'.join(sorted(pv.name.get(v, '?') for v in vs))
        cnt['functions'] += 1
        def bad(line, msg):
            ck.violation('stride|%s|%s|%s' % (f.file, f.q, msg), '%s: %s: %s' % (f.loc(line), f.q, msg))
        def sdeps(e): return {x for x in pv.deps(e) if isinstance(x, int)}
        for n in walk(f.body):
            if n[0] not in ('call', 'mcall', 'op', 'ctor'): continue
            args = n[3] if n[0] == 'call' else n[4]
            if not isinstance(args, list): continue
            d = n[3] if n[0] == 'ctor' and isinstance(n[3], dict) else n[2] if isinstance(n[2], dict) else n[3] if n[0] == 'op' and isinstance(n[3], dict) else {}
            q = d.get('q', '')
            g = prog.by_id.get(d.get('i'))
            prs = []
            if g:
                prs = pairs(g.params)
                if n[0] == 'op': prs = [(a + 1, b + 1) for a, b in prs]
            elif CBLAS.match(q):
                prs = [(i, i + 1) for i in range(len(args) - 1) if not pv.isint(args[i]) and pv.isint(args[i + 1]) and '?' not in pv.roots(args[i]) and pv.roots(args[i])]
            elif d.get('dep'):
                # unresolved call in a template: a pointer into an operand followed by the distance of an operand
                prs = [(i, i + 1) for i in range(len(args) - 1) if pv.ownof(pv.roots(args[i])) and plainstride(pv, args[i + 1])]
            for a, b in prs:
                if b >= len(args): continue
                cnt['stride_arguments'] += 1
                own = pv.ownof(pv.roots(args[a]))
                D = pv.deps(args[b]); S = {x for x in D if isinstance(x, int)}
                if own is None:
                    v = base(pv, args[a])
                    al = allocs(pv, v) if v is not None else None
                    if al is None or '?' in D: cnt['unresolved'] += 1; continue
                    cnt['local_buffers'] += 1
                    if S and not any(sdeps(x) & S for c in al for x in c):
                        bad(n[1], 'the work matrix %s, allocated independently of %s, is passed to %s with the row distance %s' % (pv.name.get(v), names(S), q, text(args[b])))
                    continue
                if S & own: cnt['own'] += 1
                elif S: bad(n[1], '%s is passed to %s with the distance %s, which is derived from %s and not from %s' % (text(args[a]), q, text(args[b]), names(S), names(own)))
                elif '?' in D: cnt['unresolved'] += 1
                elif D: bad(n[1], '%s is passed to %s with the distance %s, which is a dimension and does not depend on %s' % (text(args[a]), q, text(args[b]), names(own)))
                else: cnt['constant'] += 1
        nm = None
        for line, p, o in offsets(pv):
            own = pv.ownof(pv.roots(p))
            if own is None:
                v = base(pv, p)
                al = allocs(pv, v) if v is not None else None
                if not al: continue
                cnt['offsets'] += 1
                for t in pv.terms(o):
                    S = sdeps(t)
                    if S and not any(sdeps(x) & S for c in al for x in c):
                        bad(line, 'the work array %s, allocated independently of %s, is displaced by %s' % (pv.name.get(v), names(S), text(t)))
                continue
            cnt['offsets'] += 1
            for t in pv.terms(o):
                S = sdeps(t)
                if S and not S & own: bad(line, '%s is displaced by %s, which is derived from %s and not from %s' % (text(p), text(t), names(S), names(own)))
    for k, v in cnt.items():
        if k != 'stride_arguments': ck.cov[k] = v
    ck.require('stride_arguments', cnt['stride_arguments'], 1000)
    ck.finish(explanation='provenance dataflow over every instantiated definition: the operand each pointer points into against the operand whose row distance or increment the accompanying stride (or the pointer displacement) is computed from')
run(main)
