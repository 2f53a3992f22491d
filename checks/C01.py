"""C01: every buffer a routine allocates is released exactly once, by the matching routine, on every path,
and is never used after its release."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from core import *
from flow import *
sys.setrecursionlimit(10000)

MEMFILES = ('fflas-ffpack/utils/fflas_memory.h', 'fflas-ffpack/utils/align-allocator.h')   # the allocation primitives themselves
ALLOC = {'fflas_new': 'fflas', 'malloc_align': 'malloc', 'malloc': 'malloc', 'calloc': 'malloc', 'aligned_alloc': 'malloc', 'posix_memalign': 'malloc', '_mm_malloc': 'mm'}
FREE = {'fflas_delete': 'fflas', 'free': 'malloc', '_mm_free': 'mm'}

def isptr(t):
    t = t.rstrip('&').strip()
    if t.endswith('const'): t = t[:-5].strip()
    return t.endswith('*') or 'lement_ptr' in t or 'elt_ptr' in t or 'elt_cstptr' in t or 'Elt_ptr' in t or t == 'auto'
class Summary(object):
    def __init__(self):
        self.ret = None; self.retp = None; self.out = {}; self.free = {}; self.esc = set(); self.must = set()

class Mem(Flow):
    def __init__(self, fn, ck, an):
        self.ck = ck; self.an = an
        Flow.__init__(self, fn)
        self.pidx = {p[1]: i for i, p in enumerate(fn.params)}
        self.ptype = {p[1]: p[2] for p in fn.params}
        self.vname = {p[1]: p[0] for p in fn.params}
        self.refp = {p[1] for p in fn.params if p[2].endswith('&')}
        self.local = set()
        self.siteline = {}
        self.allocs = set(); self.frees = set()
        self.sum = Summary()
        self.retvals = []
        self.reports = {}
    def prepare(self):
        an = self.an
        T = set()
        def holds(e):
            e = strip(e)
            if e is None: return False
            for n in walk(e):
                if n[0] == 'new' or (n[0] == 'call' and (n[2].get('q', '').split('::')[-1] in ALLOC or n[2].get('i') in an.owners)): return True
                if n[0] == 'mcall' and n[2] and n[2].get('i') in an.owners: return True
                if n[0] == 'v' and n[2] in T: return True
            return False
        while True:
            k = len(T)
            for n in walk(self.fn.body):
                if n[0] == 'decl' and n[6] is not None and isptr(n[4]) and holds(n[6]): T.add(n[3])
                elif n[0] == 'asg' and n[2] == '=':
                    t = strip(n[3])
                    if t and t[0] == 'v' and holds(n[4]): T.add(t[2])
                elif n[0] == 'op' and n[2] == '=':
                    t = strip(n[4][0])
                    if t and t[0] == 'v' and holds(n[4][1]): T.add(t[2])
                elif n[0] == 'delete': 
                    t = strip(n[3])
                    if t and t[0] == 'v': T.add(t[2])
                elif n[0] == 'call':
                    nm = n[2].get('q', '').split('::')[-1]
                    if nm in FREE or n[2].get('i') in an.owners:
                        for a in n[3]:
                            t = strip(a)
                            if t and t[0] == 'v': T.add(t[2])
            if len(T) == k: break
        self.T = T
        self.freed = set()
        for n in walk(self.fn.body):
            if n[0] == 'delete': self.freed |= vars_of(n[3])
            elif n[0] == 'call' and (n[2].get('q', '').split('::')[-1] in FREE or n[2].get('i') in an.owners): self.freed |= vars_of(n[3])
    def node_relevant(self, n):
        k = n[0]
        if k in ('ret', 'brk', 'cont', 'throw', 'new', 'delete'): return True
        if k == 'v': return n[2] in self.T
        if k == 'decl': return n[3] in self.T or n[4] in ('bool', 'int')
        if k == 'asg': return strip(n[3])[0] == 'v' and strip(n[4])[0] in ('b', 'un', 'i')
        if k == 'call': return n[2].get('q', '').split('::')[-1] in RELEV | {'exit', 'abort'} or n[2].get('i') in self.an.owners
        if k == 'mcall': return bool(n[2]) and n[2].get('i') in self.an.owners
        if k == 'ctor': return bool(n[3]) and n[3].get('i') in self.an.owners
        return False
    def refargs(self, n):
        ci = n[2] or {}
        fn = self.an.prog.by_id.get(ci.get('i'))
        args = n[3] if n[0] == 'call' else n[4]
        r = set()
        for i, a in enumerate(args):
            t = strip(a)
            if t and t[0] == 'v':
                if fn is None: 
                    if n[0] == 'mcall': r.add(t[2])
                elif i < len(fn.params) and fn.params[i][2].endswith('&') and not fn.params[i][2].startswith('const '): r.add(t[2])
        return r
    def rep(self, kind, key, line, text):
        self.reports.setdefault((kind, key), '%s: %s: %s' % (self.fn.loc(line), self.fn.label()[:160], text))
    # --- evaluation: list of (value, state)
    def on_expr(self, e, st):
        return [s for v, s in self.ev(e, st)]
    def on_decl(self, d, st):
        vid = d[3]; self.local.add(vid); self.vname[vid] = d[2]
        r = []
        isref = d[4].endswith('&')
        for v, s in (self.ev(d[6], st) if d[6] is not None else [(None, st)]):
            s = s.copy()
            self.kill_var(vid, s)
            if isref and v is not None and v[0] == 's': self.escape(v, s); v = None
            if d[6] is not None: self.setflag(['v', d[2], vid], d[6], s)
            if v is None or not isptr(d[4]): s.env.pop(vid, None)
            else: s.env[vid] = v
            r.append(s)
        return r
    def setflag(self, t, rhs, s):
        key = 'nz:' + text(t)
        if key not in self.tracked: return
        r = strip(rhs)
        self.cvars[key] = {t[2]}; self.flags.add(key)
        if r[0] == 'un' and r[2] == '-': r = strip(r[3])
        if r[0] in ('b', 'i'): s.facts[key] = bool(r[1])
        elif r[0] in ('en', 'kg'): s.facts[key] = bool(r[2])
    def escape(self, v, s):
        if v is None: return
        if v[0] == 's':
            h = s.heap.get(v[1])
            if h and h[0] == 'live': s.heap[v[1]] = ('esc', h[1])
        elif v[0] == 'p': self.sum.esc.add(v[1])
    def use(self, v, s, line, how):
        if v is None: return
        if v[0] == 's' and s.heap.get(v[1], ('',))[0] == 'freed':
            self.rep('use-after-release', self.siteline.get(v[1], v[1]), line, '%s of the buffer allocated at line %s after its release' % (how, v[1][0]))
        if v[0] == 'p' and s.heap.get(('p', v[1]), ('',))[0] == 'freed':
            self.rep('use-after-release', ('param', v[1]), line, '%s of parameter `%s` after its release' % (how, self.fn.params[v[1]][0]))
    def free(self, v, fam, s, line, arg=None):
        if v is None or v == 'null': return
        if v[0] == 's':
            st, f = s.heap.get(v[1], ('top', None))
            if st == 'freed':
                self.rep('double-release', v[1], line, 'releases the buffer allocated at line %s a second time' % v[1][0]); return
            if fam and f and f != fam and not (fam == '?' or f == '?'):
                self.rep('mismatch', v[1], line, 'buffer allocated at line %s by the %s family is released by the %s family' % (v[1][0], f, fam))
            if v[2]:
                self.rep('interior', v[1], line, 'releases an interior pointer of the buffer allocated at line %s' % v[1][0])
            s.heap[v[1]] = ('freed', f)
            self.frees.add(line)
        elif v[0] == 'p':
            k = ('p', v[1])
            if s.heap.get(k, ('',))[0] == 'freed':
                self.rep('double-release', k, line, 'releases parameter `%s` a second time' % self.fn.params[v[1]][0])
            s.heap[k] = ('freed', fam); self.sum.free[v[1]] = fam
    def alloc(self, fam, line, s, tag=0):
        site = (line, tag)
        h = s.heap.get(site)
        if h and h[0] == 'live':
            self.rep('leak', site, line, 'the buffer allocated here is still owned when this allocation runs again (leaked in a loop)')
        s.heap[site] = ('live', fam)
        # stale aliases of the previous instance
        for k, v in list(s.env.items()):
            if isinstance(v, tuple) and v[0] == 's' and v[1] == site: del s.env[k]
        self.allocs.add(site)
        return ('s', site, 0)
    def evs(self, es, st):
        """evaluate a list: list of (values, state)"""
        cur = [((), st)]
        for e in es:
            nx = []
            for vs, s in cur:
                for v, s2 in self.ev(e, s): nx.append((vs + (v,), s2))
            cur = nx
        return cur
    def ev(self, e, st):
        if e is None or not isinstance(e, list) or not e: return [(None, st)]
        k = e[0]
        if k == 'v':
            vid = e[2]
            if vid in st.env: return [(st.env[vid], st)]
            if vid in self.pidx and vid not in self.local and isptr(self.ptype[vid]):
                return [(('p', self.pidx[vid], 0), st)] if vid not in self.refp else [(None, st)]
            return [(None, st)]
        if k == 'null': return [('null', st)]
        if k in ('i', 'f', 'b', 's', 'en', 'kg', 'g', 'tp', 'this', 'fn', 'szof', 'zero', 'typeid', '?'):
            if k == 'i' and e[1] == 0: return [('null', st)]
            return [(None, st)]
        if k in ('ic', 'cast', 'darg'): return self.ev(e[-1], st)
        if k == 'cond':
            r = []
            for b, s in self.branch(e[3], st, e[2]):
                r += self.ev(e[4] if b else e[5], s)
            return r
        if k == 'bin':
            if e[2] in ('&&', '||'):
                return [(None, s) for b, s in self.branch(e, st)]
            r = []
            for vs, s in self.evs([e[3], e[4]], st):
                a, b = vs
                v = None
                if e[2] in ('+', '-'):
                    for x, o in ((a, e[4]), (b, e[3])):
                        if isinstance(x, tuple): v = (x[0], x[1], 1 if not (strip(o) and strip(o)[0] == 'i' and strip(o)[1] == 0) else x[2])
                elif e[2] == ',': v = b
                if e[2] not in ('==', '!='):
                    pass
                r.append((v, s))
            return r
        if k == 'un':
            r = []
            for v, s in self.ev(e[3], st):
                t = strip(e[3])
                if e[2] in ('++', '--', '++post', '--post') and t and t[0] == 'v':
                    s = s.copy(); self.kill_var(t[2], s)
                    if isinstance(v, tuple): s.env[t[2]] = (v[0], v[1], 1 if t[2] in self.freed else v[2])
                    r.append((v, s))
                elif e[2] == '*':
                    self.use(v, s, e[1], 'dereference'); r.append((None, s))
                elif e[2] == '&':
                    if isinstance(v, tuple):
                        if t[0] == 'v': s = s.copy(); self.escape(v, s); r.append((None, s))
                        else: r.append((v, s))
                    else: r.append((None, s))
                else: r.append((None, s))
            return r
        if k == 'idx':
            r = []
            for vs, s in self.evs([e[2], e[3]], st):
                self.use(vs[0], s, e[1], 'indexing'); r.append((None, s))
            return r
        if k == 'mem': return [(None, s) for v, s in self.ev(e[2], st)]
        if k == 'asg':
            r = []
            for vs, s in self.evs([e[4]], st):
                v = vs[0]
                t = strip(e[3])
                s = s.copy()
                if t[0] == 'v':
                    vid = t[2]
                    self.kill_var(vid, s)
                    if e[2] == '=': self.setflag(t, e[4], s)
                    if e[2] == '=' and vid in self.T:
                        if vid in self.refp or (vid not in self.local and vid not in self.pidx):
                            pass
                        if isinstance(v, tuple) and len(v) == 3 and vid not in self.freed: v = (v[0], v[1], 0)
                        if v is None: s.env[vid] = ('top',) if vid in self.pidx else None
                        else: s.env[vid] = v
                        if s.env[vid] is None: del s.env[vid]
                    elif e[2] in ('+=', '-='):
                        o = self.ev(t, s)[0][0]
                        if isinstance(o, tuple) and len(o) == 3: s.env[vid] = (o[0], o[1], 1 if vid in self.freed else o[2])
                    r.append((v, s))
                else:
                    for _, s2 in self.ev(t, s):
                        s2 = s2.copy()
                        if isinstance(v, tuple): self.escape(v, s2)
                        r.append((v, s2))
            return r
        if k == 'op':
            r = []
            args = e[4]
            for vs, s in self.evs(args, st):
                v = None
                if e[2] == '=' and len(args) == 2:
                    t = strip(args[0]); s = s.copy()
                    if t and t[0] == 'v':
                        self.kill_var(t[2], s)
                        if vs[1] is None: s.env.pop(t[2], None)
                        else: s.env[t[2]] = vs[1]
                    elif isinstance(vs[1], tuple): self.escape(vs[1], s)
                    v = vs[1]
                elif e[2] in ('+', '-') and isinstance(vs[0], tuple) and len(vs[0]) == 3: v = (vs[0][0], vs[0][1], 1)
                elif e[2] in ('*', '[]'): self.use(vs[0], s, e[1], 'access')
                elif e[2] in ('++', '--', '+=', '-='):
                    t = strip(args[0])
                    if t and t[0] == 'v' and isinstance(vs[0], tuple) and len(vs[0]) == 3:
                        s = s.copy(); s.env[t[2]] = (vs[0][0], vs[0][1], 1)
                    v = vs[0]
                r.append((v, s))
            return r
        if k == 'ctor':
            r = []
            for vs, s in self.evs(e[4], st):
                v = None
                ty = e[2]
                if len(vs) >= 1 and (e[5] or 'elt_ptr' in ty or 'elt_cstptr' in ty): v = vs[0] if len(vs) == 1 else None
                for x in vs: 
                    self.use(x, s, e[1], 'use')
                if v is None and any(isinstance(x, tuple) for x in vs) and (('unique_ptr' in ty) or ('shared_ptr' in ty) or 'vector' in ty or ('elt_ptr' in ty)):
                    s = s.copy()
                    for x in vs: self.escape(x, s) if isinstance(x, tuple) else None
                elif v is None and e[3]:
                    s = self.apply(e[3], vs, e[4], s, e[1])[1]
                r.append((v, s))
            return r
        if k == 'new':
            r = []
            for vs, s in self.evs([x for x in (e[3], e[4]) if x is not None], st):
                if e[5]: r.append((None, s)); continue
                s = s.copy()
                r.append((self.alloc('new[]' if e[3] is not None else 'new', e[1], s, self.tag(e)), s))
            return r
        if k == 'delete':
            r = []
            for v, s in self.ev(e[3], st):
                s = s.copy(); self.free(v, 'new[]' if e[2] else 'new', s, e[1]); r.append((None, s))
            return r
        if k == 'throw': return [(None, s) for _, s in self.ev(e[2], st)]
        if k == 'call':
            r = []
            nm = e[2].get('q', '').split('::')[-1]
            for vs, s in self.evs(e[3], st):
                s = s.copy()
                if nm in ALLOC and self.fn.file not in MEMFILES:
                    r.append((self.alloc(ALLOC[nm], e[1], s, self.tag(e)), s)); continue
                if nm in FREE and self.fn.file not in MEMFILES:
                    for x in vs: self.free(x, FREE[nm], s, e[1])
                    r.append((None, s)); continue
                if nm in ('swap',) and len(e[3]) == 2:
                    a, b = strip(e[3][0]), strip(e[3][1])
                    if a and b and a[0] == 'v' and b[0] == 'v':
                        for (x, v) in ((a, vs[1]), (b, vs[0])):
                            if v is None: s.env.pop(x[2], None)
                            else: s.env[x[2]] = v
                        r.append((None, s)); continue
                if nm in ('forward', 'move'): r.append((vs[0], s)); continue
                v, s = self.apply(e[2], vs, e[3], s, e[1])
                r.append((v, s))
            return r
        if k == 'mcall':
            r = []
            for vs, s in self.evs([e[3]] + e[4], st):
                s = s.copy()
                v, s = self.apply(e[2] or {}, vs[1:], e[4], s, e[1], member=True)
                r.append((v, s))
            return r
        if k == 'icall':
            return [(None, s) for _, s in self.evs([e[2]] + e[3], st)]
        if k == 'lambda':
            return [(None, st)]
        if k in ('init', 'plist'):
            r = []
            for vs, s in self.evs(e[-1], st):
                s = s.copy()
                for x in vs:
                    if isinstance(x, tuple) and len(vs) > 1: self.escape(x, s)
                r.append((vs[0] if len(vs) == 1 else None, s))
            return r
        # anything else: evaluate children
        cur = [st]
        for c in e[1:]:
            if isinstance(c, list) and c and isinstance(c[0], str):
                cur = [s for x in cur for _, s in self.ev(c, x)]
        return [(None, s) for s in cur]
    def tag(self, e):
        return 0 if not hasattr(self, '_tags') else self._tags.get(id(e), 0)
    def apply(self, ci, vs, args, s, line, member=False):
        for x in vs: self.use(x, s, line, 'passing')
        fn = self.an.prog.by_id.get(ci.get('i'))
        if fn is None:
            for x in vs:
                if isinstance(x, tuple) and member and ci.get('q', '').split('::')[-1] in STORES: self.escape(x, s)
            return None, s
        sm = self.an.summary(fn)
        ret = None
        if sm is None: return None, s
        for i, x in enumerate(vs):
            if i >= len(fn.params): break
            if i in sm.free:
                if isinstance(x, tuple):
                    if i in sm.must: self.free(x, sm.free[i] if sm.free[i] else '?', s, line)
                    else: self.escape(x, s)
            elif i in sm.esc and isinstance(x, tuple): self.escape(x, s)
            if i in sm.out:
                t = strip(args[i])
                if t and t[0] == 'v':
                    if sm.out[i][1]: 
                        s.env[t[2]] = self.alloc(sm.out[i][0], line, s, 'out%d' % i)
                    else: s.env.pop(t[2], None)
            if fn.params[i][2].endswith('&') and not fn.params[i][2].startswith('const '):
                t = strip(args[i])
                if t and t[0] == 'v': self.kill_var(t[2], s)
        if sm.ret: ret = self.alloc(sm.ret, line, s, 'ret')
        elif sm.retp is not None and sm.retp < len(vs): ret = vs[sm.retp]
        return ret, s
    def cond_hint(self, e, s):
        t = strip(e)
        if t[0] == 'v' and t[2] in s.env:
            v = s.env[t[2]]
            if v == 'null': return False
            if isinstance(v, tuple) and v[0] == 's': return True
        if t[0] == 'bin' and t[2] in ('==', '!='):
            a, b = self.ev(t[3], s)[0][0], self.ev(t[4], s)[0][0]
            for x, y in ((a, b), (b, a)):
                if x == 'null' and isinstance(y, tuple) and y[0] == 's': return t[2] == '!='
        return None
    def on_return(self, s, st):
        if s[2] is None: return
        vals = self.ev(s[2], st.copy())
    # ---
    def go(self):
        tags = {}; cnt = {}
        for n in walk(self.fn.body):
            if n[0] in ('new',) or (n[0] == 'call' and n[2].get('q', '').split('::')[-1] in ALLOC):
                cnt[n[1]] = cnt.get(n[1], 0) + 1
                tags[id(n)] = cnt[n[1]]
        self._tags = tags
        r = self.run(State())
        exits = [(None, s) for s in r.n]
        # returns: re-evaluate value against the state
        for s in r.ret: exits.append(('ret', s))
        for s in r.thr: exits.append(('throw', s))
        self.finalise(exits)
        return self
    def stmt(self, s, sts):
        if s is not None and s[0] == 'ret' and s[2] is not None:
            o = Out()
            for st in sts:
                for v, x in self.ev(s[2], st):
                    x = x.copy()
                    if isinstance(v, tuple) and v[0] == 's':
                        h = x.heap.get(v[1])
                        if h and h[0] == 'live':
                            self.retvals.append(h[1]); x.heap[v[1]] = ('esc', h[1])
                        elif h and h[0] == 'freed': self.rep('use-after-release', v[1], s[1], 'returns a released buffer')
                    elif isinstance(v, tuple):
                        self.retvals.append(None)
                        if v[0] == 'p': self.sum.retp = v[1]
                    else: self.retvals.append(None)
                    x.tr = ('ret', s[1])
                    o.ret.append(x)
            return o
        if s is not None and s[0] == 'ex' and strip(s[2]) and strip(s[2])[0] == 'throw':
            o = Flow.stmt(self, s, sts)
            for x in o.thr: x.tr = ('throw', s[1])
            return o
        if s is not None and s[0] == 'ret':
            o = Out()
            for st in sts:
                x = st.copy(); x.tr = ('ret', s[1]); o.ret.append(x)
            return o
        return Flow.stmt(self, s, sts)
    def finalise(self, exits):
        outs = {}
        nfree = {}
        for kind, s in exits:
            line = s.tr[1] if s.tr else self.fn.end
            for vid in self.refp:
                v = s.env.get(vid)
                i = self.pidx[vid]
                if isinstance(v, tuple) and v[0] == 's':
                    h = s.heap.get(v[1])
                    if h and h[0] == 'live':
                        s.heap[v[1]] = ('esc', h[1]); outs.setdefault(i, []).append(h[1])
                    elif h and h[0] == 'freed': pass
                else: outs.setdefault(i, []).append(None)
            for site, h in s.heap.items():
                if site[0] == 'p': continue
                if h[0] == 'live':
                    self.rep('leak', site, site[0], 'the buffer allocated here is not released on the path that leaves at line %s' % line)
            for i in self.sum.free:
                nfree.setdefault(i, []).append(s.heap.get(('p', i), ('',))[0] == 'freed')
        for i, l in outs.items():
            fams = [x for x in l if x]
            if fams: self.sum.out[i] = (fams[0], all(l))
        for i, l in nfree.items():
            if l and all(l): self.sum.must.add(i)
        fams = [x for x in self.retvals if x]
        if fams and len(fams) == len(self.retvals): self.sum.ret = fams[0]

STORES = {'push_back', 'push_front', 'emplace_back', 'emplace_front', 'emplace', 'insert', 'reset', 'push', 'assign'}
RELEV = set(ALLOC) | set(FREE)
class Analysis(object):
    def __init__(self, prog, ck):
        self.prog = prog; self.ck = ck; self.sums = {}; self.busy = set(); self.done = {}
        self.byskel = {}; self.skels = {}
        self.calls = {}
        rel = set()
        for fn in prog.fns:
            r = False; cs = set()
            for n in walk(fn.body):
                if n[0] in ('new', 'delete'): r = True
                elif n[0] == 'call':
                    if n[2].get('q', '').split('::')[-1] in RELEV: r = True
                    if 'i' in n[2]: cs.add(n[2]['i'])
                elif n[0] == 'mcall' and n[2] and 'i' in n[2]: cs.add(n[2]['i'])
                elif n[0] == 'ctor' and n[3] and 'i' in n[3]: cs.add(n[3]['i'])
            self.calls[fn.id] = cs
            if r: rel.add(fn.id)
        self.rel = rel
    def summary(self, fn):
        if fn.file in MEMFILES: return Summary()
        if fn.id in self.sums: return self.sums[fn.id]
        if fn.id in self.busy: return None
        if not self.interesting(fn): 
            self.sums[fn.id] = None; return None
        sk = self.skel(fn)
        if sk in self.byskel:
            self.sums[fn.id] = self.byskel[sk]; return self.sums[fn.id]
        self.busy.add(fn.id)
        m = Mem(fn, self.ck, self).go()
        self.byskel[sk] = m.sum
        self.busy.discard(fn.id)
        self.done[fn.id] = m
        self.sums[fn.id] = m.sum
        return m.sum
    def skel(self, fn):
        k = self.skels.get(fn.id)
        if k is None:
            # same definition, same resolved constant conditions, same callees up to their template arguments: same analysis
            h = []
            for n in walk(fn.body):
                if n[0] in ('if', 'cond', 'while', 'do'): h.append((n[1], n[2]))
                elif n[0] in ('call', 'mcall') and n[2]:
                    c = self.prog.by_id.get(n[2].get('i'))
                    h.append((n[1], (c.file, c.line) if c else n[2].get('q')))
            k = self.skels[fn.id] = (fn.file, fn.line, hash(tuple(h)))
        return k
    def interesting(self, fn):
        if fn.id in self.rel: return True
        return bool(self.calls[fn.id] & self.owners) 
    owners = set()

def main():
    ck = Check('C01')
    tus = ['d_seq', 'd_more', 'd_check', 'd_par', 'd_mp', 'd_sparse', 'd_misc', 'd_simd256', 'lib:ffpack', 'lib:fflas_lvl1', 'lib:fflas_lvl2', 'lib:fflas_lvl3', 'lib:ffpack_inst']
    prog = load(tus)
    an, nfun, na, nf, nfld = check(prog, ck)
    ck.require('functions_with_ownership', nfun, 200)
    ck.require('allocation_sites', na, 300)
    ck.cov['release_sites'] = nf
    ck.require('owning_fields', nfld, 10)
    ck.finish(explanation='path-sensitive ownership typestate (owned / released / handed over) of every buffer allocated through fflas_new, new, malloc_align, over all structured paths of every instantiated function, with interprocedural summaries (returns ownership, fills an out-parameter, releases or stores a parameter); owning fields of containers against their release function',
              assumptions=['ownership stored into a field, container or array element is tracked by the field rule only', 'exceptions leave through the caller without releasing local buffers and are not counted'])

def check(prog, ck):
    an = Analysis(prog, ck)
    inst = {(fn.file, fn.line) for fn in prog.fns if not fn.dep}     # templates never instantiated are analysed as written
    # owners: functions whose summary hands ownership over (fixpoint over the call graph)
    for rnd in range(6):
        an.sums = {}; an.done = {}; an.byskel = {}
        for fn in prog.fns:
            if fn.file in MEMFILES or (fn.dep and (fn.file, fn.line) in inst): continue
            an.summary(fn)
        new = {i for i, s in an.sums.items() if s and (s.ret or s.out or s.free or s.esc or s.retp is not None)}
        if new <= an.owners: break
        an.owners = an.owners | new
    seen = {}
    na = nf = nfun = 0
    for fid, m in an.done.items():
        nfun += 1
        na += len(m.allocs); nf += len(m.frees)
        for (kind, key), txt in m.reports.items():
            k = '%s|%s|%s' % (kind, m.fn.file, m.fn.q)
            seen.setdefault((k, key), txt)
    for (k, key), txt in seen.items():
        nm = k
        ck.violation('%s|%s' % (k, key if isinstance(key, str) else key[0]), txt)
    nfld = fields(prog, ck)
    return an, nfun, na, nf, nfld

def is_alloc(e, an=None):
    for m in walk(e):
        if m[0] == 'new' and not m[5]: return 'new[]' if m[3] is not None else 'new'
        if m[0] == 'call' and m[2].get('q', '').split('::')[-1] in ALLOC: return ALLOC[m[2]['q'].split('::')[-1]]
    return None

def fields(prog, ck):
    '''containers: a field that an initialiser fills with an allocation is released by the container's release function or destructor'''
    def objtype(fn, e):
        e = strip(e)
        if e is None: return None
        if e[0] == 'this': return fn.cls
        if e[0] == 'v':
            for p in fn.params:
                if p[1] == e[2]: return p[2].replace('const ', '').rstrip('&').rstrip('*').strip()
        return None
    A, D, releasers = {}, {}, {}
    for fn in prog.fns:
        if fn.dep or fn.file in MEMFILES: continue
        for n in walk(fn.body):
            if n[0] == 'asg' and n[2] == '=' and strip(n[3])[0] == 'mem':
                m = strip(n[3]); t = objtype(fn, m[2])
                fam = is_alloc(n[4])
                if t and fam: A.setdefault((t, m[1]), (fn, n[1], fam))
            dl = None
            if n[0] == 'delete': dl = [(n[3], 'new[]' if n[2] else 'new')]
            elif n[0] == 'call' and n[2].get('q', '').split('::')[-1] in FREE: dl = [(a, FREE[n[2]['q'].split('::')[-1]]) for a in n[3]]
            for a, fam in dl or ():
                m = strip(a)
                while m and m[0] == 'ctor' and len(m[4]) == 1: m = strip(m[4][0])
                if m and m[0] == 'mem':
                    t = objtype(fn, m[2])
                    if t: D.setdefault((t, m[1]), []).append((fn, n[1], fam)); releasers.setdefault(t, set()).add(fn.q)
        if fn.d.get('mk') == 'dtor' and fn.cls: releasers.setdefault(fn.cls, set())
        if fn.name.endswith('_delete') and len(fn.params) == 1: releasers.setdefault(fn.params[0][2].replace('const ', '').rstrip('&').strip(), set()).add(fn.q)
        for i in fn.d.get('inits', []):
            fam = is_alloc(i[1])
            if fam and fn.cls: A.setdefault((fn.cls, i[0]), (fn, fn.line, fam))
    n = 0
    for (t, f), (fn, line, fam) in sorted(A.items(), key=lambda x: x[0]):
        if t not in releasers: 
            # no release function instantiated for this type: the element types of the RNS fields release through fflas_delete
            continue
        n += 1
        d = D.get((t, f))
        if not d:
            ck.violation('field-leak|%s|%s' % (fn.file, f), '%s: %s stores an allocation in field `%s` of %s, but the release function (%s) never releases it' % (fn.loc(line), fn.q, f, t, ', '.join(sorted(releasers[t])) or 'destructor'))
        elif all(x[2] != fam for x in d):
            ck.violation('field-mismatch|%s|%s' % (fn.file, f), '%s: field `%s` of %s is allocated by the %s family but released by the %s family at %s' % (fn.loc(line), f, t, fam, d[0][2], d[0][0].loc(d[0][1])))
    return n

if __name__ == '__main__':
    run(main)
