"""Runs the block-value abstract interpreter over a set of definitions, in parallel."""
import os, signal, time, multiprocessing as mp
from core import *
from specs import *

class Timeout(Exception): pass
def _alarm(sig, frm): raise Timeout()

def groups(prog, want, per):
    """definitions to analyse: for each source definition up to `per` instantiations (distinct types)"""
    pats = {}
    for f in prog.fns:
        if f.dep: continue
        nm = spec_name(f)
        if nm is None or not want(f, nm): continue
        fl = functor_flags(f.q) if nm in ('functor', 'delayed') else None
        mt = match(f, SHAPES[nm])
        key = (f.file, f.line, str(fl))
        pats.setdefault(key, []).append((0 if 'double' in f.t or any('double' in p[2] for p in f.params) else 1, f.t, f, mt))
    out = []; nomatch = []
    for k, v in sorted(pats.items()):
        v.sort(key=lambda x: (x[3] is None, x[0], x[1]))
        ok = [x for x in v if x[3]]
        if not ok: nomatch.append(v[0][2]); continue
        seen = set(); took = []
        # one instantiation for every combination of compile-time conditions ...
        for x in ok:
            tag = ksig(x[2])
            if tag in seen or len(took) >= 3 + per: continue
            seen.add(tag); took.append(x)
        # ... and instantiations over different element types
        seen = set((ptypes(x[2]), 'LazyTag' in x[1]) for x in took)
        for x in ok:
            if len(took) >= per: break
            tag = (ptypes(x[2]), 'LazyTag' in x[1])
            if tag in seen: continue
            seen.add(tag); took.append(x)
        out += [(k, x[2]) for x in took]
    return out, nomatch

def ksig(f):
    return tuple(min(n[2], 2) if isinstance(n[2], int) else repr(n[2]) for n in walk(f.body) if n[0] == 'kg' and len(n) > 2)

def ptypes(f):
    return tuple(p[2] for p in f.params if pkind(p[2]) in 'PS')[:2]

_G = {}
def _work(i):
    k, f = _G['t'][i]
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm); signal.alarm(_G['limit'])
    try:
        r = _G['fun'](_G['prog'], f)
        signal.alarm(0)
        return i, r.status, r.msgs[:6], r.paths, r.stmts, r.cases, r.bounded, sorted(r.used), time.time() - t0
    except Timeout:
        return i, 'undec', ['time limit'], 0, 0, 0, 0, [], time.time() - t0
    except Exception as ex:
        signal.alarm(0)
        return i, 'undec', ['internal: %s: %s' % (type(ex).__name__, ex)], 0, 0, 0, 0, [], time.time() - t0

def run_all(prog, targets, limit=40, fun=None, jobs=8):
    import sys
    sys.setrecursionlimit(20000)
    _G.update(prog=prog, t=targets, limit=limit, fun=fun or (lambda p, f: verify_fn(p, f, unroll=2)))
    if not targets: return []
    with mp.get_context('fork').Pool(jobs) as pool:
        return pool.map(_work, range(len(targets)), chunksize=1)

def report(ck, prog, want, what, limit=40, fun=None, per=None, extra=None, rule='spec'):
    per = per or (2 if ck.tier == 'quick' else 8)
    targets, nomatch = groups(prog, want, per)
    if extra: targets += extra
    res = run_all(prog, targets, limit, fun)
    cnt = {'ok': 0, 'undec': 0, 'viol': 0}
    und = []
    for i, st, msgs, paths, stmts, cases, bounded, used, dt in res:
        k, f = targets[i]
        cnt[st] += 1
        for n, v in (('paths', paths), ('abstract_statements', stmts), ('flag_combinations', cases), ('bounded_loops', bounded)):
            ck.cov[n] = ck.cov.get(n, 0) + v
        if st == 'viol':
            bad = [m for m in msgs if 'undecided' not in m][:3]
            ck.violation('%s|%s|%s' % (rule, f.file, f.q), '%s: %s<%s> %s: %s' % (f.loc(f.line), f.q, f.t[:60], what, ' ; '.join(bad)[:900]))
        elif st == 'undec':
            und.append('%s:%d %s: %s' % (f.file, f.line, f.name, (msgs or [''])[0][:100]))
    ck.cov['definitions_checked'] = cnt['ok'] + cnt['viol']
    ck.cov['definitions_undecided'] = cnt['undec']
    ck.cov['definitions_without_supported_signature'] = len(nomatch)
    ck.cov['undecided'] = und[:40]
    return cnt
