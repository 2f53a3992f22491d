"""Runs the lane analysis over all element-wise definitions (used by C06 and C02)."""
from core import *
from kernels import *
import sys, os, time, multiprocessing as mp
PROG = None
JOBS = []
def one(i):
    tu, f, what, spec = JOBS[i]
    L = Lane(PROG[tu], f, spec)
    t0 = time.time()
    try: st, msgs = L.run()
    except Undecided as x: st, msgs = 'undec', [str(x)]
    except RecursionError: st, msgs = 'undec', ['recursion']
    except Exception as x: st, msgs = 'undec', ['unsupported construct: %r' % (x,)]
    return i, st, msgs, L.npath, L.nob, L.nit, time.time() - t0
def run_lanes(ck, archs):
    """decide every element-wise definition of the driver under the given architectures"""
    global PROG
    tus = ['d_lvl1' + a for a in archs]
    PROG = {}
    for t in tus: PROG[t] = load([t])
    seen = set()
    for t in tus:
        for f in PROG[t].fns:
            if f.dep or f.body is None: continue
            k = (t, f.file, f.line, f.t, fieldof(f))
            if k in seen: continue
            seen.add(k)
            for what, s in specs_for(f):
                if s is not None: JOBS.append((t, f, what, s))
    order = sorted(range(len(JOBS)), key=lambda i: 0 if 'details' in JOBS[i][1].q or JOBS[i][1].name.startswith('f') else 1)
    cnt = {'ok': 0, 'undec': 0, 'viol': 0}
    paths = obs = its = 0
    und = []
    with mp.get_context('fork').Pool(8) as pool:
        for i, st, msgs, a, b, c, dt in pool.imap_unordered(one, order, chunksize=4):
            t, f, what, s = JOBS[i]
            cnt[st] += 1; paths += a; obs += b; its += c
            tag = '%s %s%s [%s]' % (f.loc(), f.q, ' with ' + what if what else '', fieldof(f)[:60])
            if st == 'undec': und.append('%s: %s' % (tag, msgs[:1]))
            if st == 'viol':
                ck.violation('%s|%s' % (f.q, f.line), '%s (%s): %s' % (tag, t, msgs[0] if msgs else ''))
    return cnt, und, paths, obs, its
