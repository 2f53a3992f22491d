"""Structured forward dataflow with trace partitioning over dumped function bodies.

A state is (env, heap, facts).  Conditions that occur more than once in a function (after
normalisation) are remembered per trace, so correlated branches are not confused; everything else
is joined.  Clients subclass Flow and implement the hooks."""
from core import walk

NEG = {'<': '>=', '>=': '<', '>': '<=', '<=': '>', '==': '!=', '!=': '=='}
SWP = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '==': '==', '!=': '!='}

def strip(e):
    while isinstance(e, list) and e and e[0] in ('ic', 'cast', 'darg'):
        e = e[-1]
    return e

def text(e):
    """canonical text of an expression (casts removed)"""
    if e is None: return '_'
    if not isinstance(e, list): return str(e)
    e = strip(e)
    if e is None: return '_'
    if not isinstance(e, list): return str(e)
    if not e: return '[]'
    k = e[0]
    if not isinstance(k, str): return '[' + ','.join(text(x) for x in e) + ']'
    if k == 'v': return '%s#%s' % (e[1], e[2])
    if k in ('i', 'f', 'b', 's'): return repr(e[1])
    if k in ('en', 'kg'): return str(e[2])
    if k in ('g', 'tp'): return e[1]
    if k in ('call',): return '%s(%s)' % (e[2].get('q', '?').split('::')[-1], ','.join(text(a) for a in e[3]))
    if k == 'mcall': return '%s.%s(%s)' % (text(e[3]), (e[2] or {}).get('q', '?').split('::')[-1], ','.join(text(a) for a in e[4]))
    if k in ('bin', 'asg'):
        a, b = text(e[3]), text(e[4])
        if e[2] in ('+', '*', '==', '!=') and k == 'bin' and b < a: a, b = b, a
        if e[2] in ('>', '>=') and k == 'bin':
            return '(%s%s%s)' % (b, SWP[e[2]], a)
        return '(%s%s%s)' % (a, e[2], b)
    if k == 'un': return '%s(%s)' % (e[2], text(e[3]))
    if k == 'op': return 'op%s(%s)' % (e[2], ','.join(text(a) for a in e[4]))
    if k == 'idx': return '%s[%s]' % (text(e[2]), text(e[3]))
    if k == 'mem': return '%s.%s' % (text(e[2]), e[1])
    if k == 'this': return 'this'
    if k == 'null': return '0'
    return k + '(' + ','.join(text(x) for x in e[1:] if isinstance(x, list)) + ')'

def vars_of(e):
    return {n[2] for n in walk(e) if n[0] == 'v'}

def norm_cond(e):
    """(text, polarity, vars) of an atomic condition"""
    e = strip(e)
    pol = True
    while e and e[0] == 'un' and e[2] == '!':
        pol = not pol; e = strip(e[3])
    if e and e[0] == 'bin' and e[2] in NEG:
        op = e[2]
        a, b = strip(e[3]), strip(e[4])
        if op in ('!=', '>=', '>'):
            if op == '!=':
                op = '=='; pol = not pol
            elif op == '>=':
                op = '<'; pol = not pol
            elif op == '>':
                a, b = b, a; op = '<'
        elif op == '<=':     # a<=b  ==  !(b<a)
            a, b = b, a; op = '<'; pol = not pol
        ta, tb = text(a), text(b)
        if op == '==' and tb < ta: ta, tb = tb, ta
        # x == 0 on a boolean/int is the negation of x
        if op == '==' and ('0' in (ta, tb)):
            o = tb if ta == '0' else ta
            return ('nz:' + o, not pol, vars_of(e))
        if op == '<' and ta == '0':     # 0 < x (unsigned sizes): x non-zero
            return ('nz:' + tb, pol, vars_of(e))
        return ('%s%s%s' % (ta, op, tb), pol, vars_of(e))
    return ('nz:' + text(e), pol, vars_of(e))

def atoms(e):
    e = strip(e)
    if e is None: return
    if e[0] == 'un' and e[2] == '!':
        yield from atoms(e[3]); return
    if e[0] == 'bin' and e[2] in ('&&', '||'):
        yield from atoms(e[3]); yield from atoms(e[4]); return
    yield e

class State(object):
    __slots__ = ('env', 'heap', 'facts', 'tr')
    def __init__(self, env=None, heap=None, facts=None, tr=()):
        self.env = env or {}; self.heap = heap or {}; self.facts = facts or {}; self.tr = tr
    def copy(self):
        return State(dict(self.env), dict(self.heap), dict(self.facts), self.tr)
    def key(self):
        return (frozenset(self.env.items()), frozenset(self.heap.items()), frozenset(self.facts.items()))
    def core(self):
        return (frozenset(self.env.items()), frozenset(self.heap.items()))

class Out(object):
    __slots__ = ('n', 'brk', 'cont', 'ret', 'thr')
    def __init__(self):
        self.n = []; self.brk = []; self.cont = []; self.ret = []; self.thr = []

class Flow(object):
    LIMIT = 64
    def __init__(self, fn):
        self.fn = fn
        cnt = {}
        self.prepare()
        for n in walk(fn.body):
            c = None
            if n[0] in ('if', 'while', 'do') : c = n[3]
            elif n[0] == 'for': c = n[3]
            elif n[0] == 'cond': c = n[3]
            if c is not None and self.relevant(n):
                for a in atoms(c):
                    t, p, vs = norm_cond(a)
                    cnt[t] = cnt.get(t, 0) + 1
        self.tracked = {t for t, k in cnt.items() if k > 1}
        self.cvars = {}
        self.flags = set()
    # ---- relevance: statements without relevant nodes are skipped (only assignments kill facts)
    def prepare(self): pass
    def node_relevant(self, n): return True
    def relevant(self, s):
        if not hasattr(self, '_rel'): self._rel = {}
        r = self._rel.get(id(s))
        if r is None:
            r = self._rel[id(s)] = any(self.node_relevant(n) for n in walk(s))
        return r
    def skip(self, s, sts):
        if not hasattr(self, '_asg'): self._asg = {}
        a = self._asg.get(id(s))
        if a is None:
            a = set()
            for n in walk(s):
                if n[0] == 'asg':
                    t = strip(n[3])
                    if t and t[0] == 'v': a.add(t[2])
                elif n[0] == 'un' and n[2] in ('++', '--', '++post', '--post', '&'):
                    t = strip(n[3])
                    if t and t[0] == 'v': a.add(t[2])
                elif n[0] == 'op' and n[2] in ('=', '+=', '-=', '++', '--', '*='):
                    t = strip(n[4][0])
                    if t and t[0] == 'v': a.add(t[2])
                elif n[0] in ('call', 'mcall'):
                    a |= self.refargs(n)
                elif n[0] == 'decl': a.add(n[3])
            self._asg[id(s)] = a
        o = Out(); o.n = sts
        if a:
            for st in sts:
                if st.facts:
                    for t in [t for t in st.facts if self.cvars.get(t, set()) & a]: del st.facts[t]
        return o
    def refargs(self, n): return set()
    # ---- hooks
    def on_expr(self, e, st): return [st]
    def on_decl(self, d, st): return [st]
    def on_return(self, s, st): pass
    def cond_hint(self, e, st): return None
    def refine(self, e, val, st): return st
    def on_scope_end(self, blk, st): pass
    # ---- state helpers
    def kill_var(self, vid, st):
        if st.facts:
            dead = [t for t in st.facts if vid in self.cvars.get(t, ())]
            for t in dead: del st.facts[t]
    def dedup(self, sts):
        if len(sts) < 2: return sts
        d = {}
        for s in sts: d.setdefault(s.key(), s)
        r = list(d.values())
        if len(r) > self.LIMIT:
            d = {}
            for s in r:
                k = (s.core(), frozenset((t, v) for t, v in s.facts.items() if t in self.flags))
                if k in d:
                    o = d[k]
                    o.facts = {t: v for t, v in o.facts.items() if s.facts.get(t) == v}
                else: d[k] = s.copy()
            r = list(d.values())
        return r
    # ---- conditions
    def branch(self, e, st, cv=None):
        """list of (bool, state)"""
        if e is None: return [(True, st)]
        e0 = strip(e)
        if cv is not None: 
            return [(bool(cv), s) for s in self.on_expr(e0, st)]
        if e0[0] == 'un' and e0[2] == '!':
            return [(not b, s) for b, s in self.branch(e0[3], st)]
        if e0[0] == 'bin' and e0[2] == '&&':
            r = []
            for b, s in self.branch(e0[3], st):
                if b: r += self.branch(e0[4], s)
                else: r.append((False, s))
            return r
        if e0[0] == 'bin' and e0[2] == '||':
            r = []
            for b, s in self.branch(e0[3], st):
                if not b: r += self.branch(e0[4], s)
                else: r.append((True, s))
            return r
        if e0[0] in ('b', 'i'): return [(bool(e0[1]), st)]
        if e0[0] in ('en', 'kg'): return [(bool(e0[2]), st)]
        r = []
        for s in self.on_expr(e0, st):
            h = self.cond_hint(e0, s)
            if h is not None:
                r.append((h, s)); continue
            t, pol, vs = norm_cond(e0)
            if t in self.tracked:
                self.cvars[t] = vs
                if t in s.facts:
                    r.append((s.facts[t] == pol, s)); continue
                # equalities with distinct constants are exclusive
                for b in (True, False):
                    x = s.copy(); x.facts[t] = (b == pol)
                    x = self.refine(e0, b, x)
                    if x is not None: r.append((b, x))
            else:
                for b in (True, False):
                    x = self.refine(e0, b, s.copy())
                    if x is not None: r.append((b, x))
        return r
    # ---- statements
    def seq(self, stmts, sts):
        o = Out(); cur = sts
        for s in stmts:
            if not cur: break
            r = self.stmt(s, cur)
            o.brk += r.brk; o.cont += r.cont; o.ret += r.ret; o.thr += r.thr
            cur = self.dedup(r.n)
        o.n = cur
        return o
    def eval_all(self, e, sts):
        if e is None: return sts
        r = []
        for s in sts: r += self.on_expr(e, s)
        return self.dedup(r)
    def split(self, e, sts, cv=None):
        T, F = [], []
        for s in sts:
            for b, x in self.branch(e, s, cv):
                (T if b else F).append(x)
        return self.dedup(T), self.dedup(F)
    def loop(self, cond, body, inc, sts, o, first=True, cv=None):
        """iterate to a fixpoint; returns exit states"""
        seen = {}
        exits = []
        work = sts
        n = 0
        while work:
            n += 1
            if n > 40: break
            if first or n > 1:
                T, F = self.split(cond, work, cv) if cond is not None else (work, [])
            else:
                T, F = work, []
            exits += F
            T = [s for s in T if s.key() not in seen]
            for s in T: seen[s.key()] = 1
            if not T: break
            r = self.stmt(body, T)
            exits += r.brk; o.ret += r.ret; o.thr += r.thr
            nx = self.dedup(r.n + r.cont)
            nx = self.eval_all(inc, nx)
            # facts learnt in the body about loop-varying things were killed by assignments
            work = nx
        return self.dedup(exits)
    def stmt(self, s, sts):
        o = Out()
        if s is None or not sts:
            o.n = sts; return o
        k = s[0]
        if not self.relevant(s): return self.skip(s, sts)
        if k == 'blk':
            o = self.seq(s[1], sts)
            return o
        if k == 'ds':
            cur = sts
            for d in s[1]:
                nx = []
                for st in cur: nx += self.on_decl(d, st)
                cur = self.dedup(nx)
            o.n = cur; return o
        if k == 'ex':
            e = strip(s[2])
            if e and e[0] == 'throw':
                o.thr = self.eval_all(e[2], sts); return o
            if e and e[0] == 'call' and e[2].get('q', '').split('::')[-1] in ('exit', 'abort', '__assert_fail', 'terminate'):
                self.eval_all(e, sts); return o
            o.n = self.eval_all(s[2], sts); return o
        if k == 'if':
            if len(s) > 6:
                nx = []
                for st in sts: nx += self.on_decl(s[6], st)
                sts = nx
            T, F = self.split(s[3], sts, s[2])
            a = self.stmt(s[4], T); b = self.stmt(s[5], F)
            o.n = self.dedup(a.n + b.n)
            for f in ('brk', 'cont', 'ret', 'thr'): setattr(o, f, getattr(a, f) + getattr(b, f))
            return o
        if k == 'for':
            r = self.stmt(s[2], sts)
            ex = self.loop(s[3], s[5], s[4], r.n, o)
            o.n = ex; return o
        if k == 'while':
            o.n = self.loop(s[3], s[4], None, sts, o, cv=s[2] if s[2] in (0, 1) and s[2] == 1 else None); return o
        if k == 'do':
            o.n = self.loop(s[3], s[4], None, sts, o, first=False, cv=s[2] if s[2] == 0 else None); return o
        if k == 'rfor':
            sts = self.eval_all(s[3], sts)
            seen = {}; ex = list(sts); work = sts; n = 0
            while work and n < 20:
                n += 1
                r = self.stmt(s[4], work)
                o.ret += r.ret; o.thr += r.thr; ex += r.brk
                nx = [x for x in self.dedup(r.n + r.cont) if x.key() not in seen]
                for x in nx: seen[x.key()] = 1
                ex += nx; work = nx
            o.n = self.dedup(ex); return o
        if k == 'ret':
            for st in sts:
                for x in (self.on_expr(s[2], st) if s[2] is not None else [st]):
                    self.on_return(s, x); o.ret.append(x)
            return o
        if k == 'brk': o.brk = sts; return o
        if k == 'cont': o.cont = sts; return o
        if k == 'nop': o.n = sts; return o
        if k == 'sw':
            sts = self.eval_all(s[2], sts)
            body = s[3][1] if s[3] and s[3][0] == 'blk' else [s[3]]
            flat = []
            for b in body:
                while b and b[0] in ('case', 'default'):
                    flat.append(('label', b)); b = b[-1]
                flat.append(('stmt', b))
            hasdef = any(t == 'label' and b[0] == 'default' for t, b in flat)
            exits = [] if hasdef else list(sts)
            cur = []
            for t, b in flat:
                if t == 'label': cur = self.dedup(cur + [x.copy() for x in sts])
                elif cur:
                    r = self.stmt(b, cur)
                    exits += r.brk; o.cont += r.cont; o.ret += r.ret; o.thr += r.thr
                    cur = r.n
            o.n = self.dedup(exits + cur); return o
        if k in ('case', 'default', 'label'):
            return self.stmt(s[-1], sts)
        if k == 'try':
            mid = []
            def pre(st_, b=(s[2][1] if s[2] and s[2][0] == 'blk' else [s[2]])):
                # states in front of each statement of the block: a call in it may throw
                cur = st_; tot = Out()
                for x in b:
                    mid.extend(y.copy() for y in cur)
                    q = self.stmt(x, cur)
                    tot.brk += q.brk; tot.cont += q.cont; tot.ret += q.ret; tot.thr += q.thr
                    cur = self.dedup(q.n)
                tot.n = cur
                return tot
            r = pre(sts)
            o.n = list(r.n); o.brk = r.brk; o.cont = r.cont; o.ret = r.ret
            for h in s[3]:
                hr = self.stmt(h[1], self.dedup([x.copy() for x in r.thr + mid]))
                o.n += hr.n; o.brk += hr.brk; o.cont += hr.cont; o.ret += hr.ret; o.thr += hr.thr
            o.n = self.dedup(o.n); return o
        if k == 'omp':
            return self.stmt(s[4], sts) if s[4] is not None else self._pass(sts)
        if k == 'goto':
            return o
        return self._pass(sts)
    def _pass(self, sts):
        o = Out(); o.n = sts; return o
    def run(self, init):
        r = self.stmt(self.fn.body, [init])
        return r
