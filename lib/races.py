"""Concurrency effects of task-parallel routines: abstract interpretation with the set of outstanding
tasks (footprint per operand region, dependences) as part of the state."""
from specs import *
from loops import lift_rect, has_t
from witness import *

class RaceExec(Exec):
    ntask = 0
    MAXSTATES = 1024
    nacc = 0
    # ---- directives
    def omp(self, st, S):
        line, kind, cl, body = st[1], st[2], st[3], st[4]
        self.line = line or self.line
        if kind == 'task': return self.task(st, S)
        if kind == 'taskwait':
            me = S.cur.id if S.cur is not None else None
            dep = [c for c in cl if c[0] == 'depend']
            if dep: return self.one(S)
            S.tasks = tuple(t for t in S.tasks if (t.chain[-1][0] if t.chain else None) != me)
            return self.one(S)
        if kind == 'barrier':
            S.tasks = (); return self.one(S)
        if kind in ('parallel for', 'for', 'parallel for simd'): return self.parfor(st, S)
        if kind in ('parallel', 'single', 'master', 'taskgroup', 'parallel sections', 'critical', 'masked'):
            before = set(t.id for t in S.tasks)
            o = self.exec(body, [S]) if body else self.one(S)
            if kind in ('parallel', 'taskgroup') or (kind == 'single' and not any(c[0] == 'nowait' for c in cl)):
                for s in o.n + o.ret: s.tasks = tuple(t for t in s.tasks if t.id in before)
            return o
        raise Undecided('omp ' + kind)
    def locs(self, S, es):
        out = []
        for e in es:
            e = strip(e)
            if e[0] != 'v': out.append(('ex', repr(self.lval(S, e)))); continue
            out.append(self.lval(S, e))
        return out
    def task(self, st, S, shared_default=False):
        line, cl, body = st[1], st[3], st[4]
        din = []; dout = []; shared = set(); priv = []
        for c in cl:
            if c[0] == 'depend':
                l = self.locs(S, c[2])
                if c[3] == '0': din += l
                else: dout += l
            elif c[0] == 'shared': shared |= set(map(repr, self.locs(S, c[2])))
            elif c[0] in ('firstprivate', 'private'):
                for e in c[2]:
                    e = strip(e)
                    if e[0] == 'v': priv.append((self.fr(), e[2]))
        self.ntask += 1; self.ntotal[0] += 1
        k = S.env.get(('%', 'tasks'), 0)
        tid = (line, len(self.stack), k, id(st))
        S.env[('%', 'tasks')] = k + 1
        parent = S.cur
        chain = ((parent.chain + ((parent.id, parent.din, parent.dout),)) if parent is not None else ())
        own = frozenset(repr(('var',) + k) for k in priv)
        saved = {k: S.env[k] for k in priv if k in S.env}
        S.cur = Task(tid, line, (), tuple(din), tuple(dout), chain, frozenset(shared), own)
        self.note_vars(S, body, shared, line)
        o = self.exec(body, [S])
        if o.brk or o.cont or o.ret: raise Undecided('jump out of a task')
        for s in o.n:
            t = s.cur; s.cur = parent
            s.tasks = s.tasks + (t,)
            for k, v in saved.items():
                if not isinstance(v, Ref): s.env[k] = v
        return o
    def parfor(self, st, S):
        body = st[4]
        while body and body[0] == 'blk' and len(body[1]) == 1: body = body[1][0]
        if not body or body[0] != 'for': raise Undecided('parallel for')
        red = [c for c in st[3] if c[0] == 'reduction']
        if red: raise Undecided('reduction')
        new = list(body); new[5] = ['omp', st[1], 'task', [c for c in st[3] if c[0] in ('shared',)], body[5]]
        before = set(t.id for t in S.tasks)
        o = self.exec(new, [S])
        for s in o.n: s.tasks = tuple(t for t in s.tasks if t.id in before)
        return o
    # ---- shared variables
    def mutates(self, fn):
        """parameters (positions, and 'this') whose object a function may change"""
        c = self.prog.__dict__.setdefault('_mutates', {})
        if fn.id in c: return c[fn.id]
        c[fn.id] = r = set()
        pos = {pv: i for i, (pn, pv, pt) in enumerate(fn.params) if pt.endswith('&') and not pt.startswith('const ')}
        while True:
            n0 = len(r)
            for t in self.targets(fn.body):
                if t[0] == 'this': r.add('this')
                elif t[0] == 'v' and t[2] in pos: r.add(pos[t[2]])
            if len(r) == n0: break
        return r
    def targets(self, body):
        """roots of the objects a statement changes"""
        def root(e):
            e = strip(e)
            while e and e[0] == 'mem': e = strip(e[2])
            return e
        for n in walk(body):
            k = n[0]
            if k == 'asg': yield root(n[3])
            elif k == 'un' and n[2][:2] in ('++', '--'): yield root(n[3])
            elif k in ('call', 'mcall'):
                fn = self.prog.by_id.get((n[2] or {}).get('i'))
                if fn is None or fn.body is None: continue
                m = self.mutates(fn)
                args = n[3] if k == 'call' else n[4]
                for i in m:
                    if i == 'this':
                        if k == 'mcall': yield root(n[3])
                    elif i < len(args): yield root(args[i])
    def effects(self, S, body):
        """variables used / changed in a statement: sets of locations"""
        use = {}; mut = {}
        def loc(v):
            try: return repr(self.lval(S, v))
            except Undecided: return None
        for n in walk(body):
            k = n[0]
            if k == 'v':
                l = loc(n)
                if l and l.startswith("('var'"): use.setdefault(l, n[1])
        for tgt in self.targets(body):
            if tgt and tgt[0] == 'v':
                l = loc(tgt)
                if l: mut.setdefault(l, tgt[1])
        return use, mut
    def note_vars(self, S, body, shared, line):
        use, mut = self.effects(S, body)
        for l, nm in mut.items():
            if l in shared: self.vaccess(S, 'w', l, nm)
        for l, nm in use.items():
            if l in shared and l not in mut: self.vaccess(S, 'r', l, nm)
    def vaccess(self, S, kind, l, nm):
        self.nacc += 1
        for t in S.tasks:
            if self.ordered(t, S.cur): continue
            for k2, o2, rc2, l2 in t.acc:
                if o2 != ('var', l) or (k2 == 'r' and kind == 'r'): continue
                raise Viol('race', 'variable %s is %s at line %s while the task created at line %s, which %s it, may still be running' % (nm, 'changed' if kind == 'w' else 'read', self.line, t.line, 'changes' if k2 == 'w' else 'reads'), self.line)
        if S.cur is not None: S.cur = S.cur.but(S.cur.acc + ((kind, ('var', l), (), self.line),))
    def stmt_vars(self, S, st):
        if not S.tasks: return
        ls = set(o[1] for t in S.tasks for k, o, rc, ln in t.acc if isinstance(o, tuple))
        if not ls: return
        use, mut = self.effects(S, st)
        own = S.cur.outer if S.cur is not None else ()
        for l, nm in mut.items():
            if l in ls and l not in own: self.vaccess(S, 'w', l, nm)
        for l, nm in use.items():
            if l in ls and l not in mut and l not in own: self.vaccess(S, 'r', l, nm)
    def s_ex(self, st, S):
        self.line = st[1] or self.line
        self.stmt_vars(S, st[2]); return Exec.s_ex(self, st, S)
    def s_ds(self, st, S):
        self.stmt_vars(S, st[1]); return Exec.s_ds(self, st, S)
    def s_ret(self, st, S):
        if st[2] is not None: self.stmt_vars(S, st[2])
        return Exec.s_ret(self, st, S)
    def s_if(self, st, S):
        self.stmt_vars(S, st[3]); return Exec.s_if(self, st, S)
    # ---- regions
    def access(self, S, kind, o, rc):
        self.nacc += 1
        Exec.access(self, S, kind, o, rc)
    def race(self, S, t, l2, rc2, k2, o, rc, kind):
        if self.on_race is False: return
        (r, c, nr, nc), (R, C, NR, NC) = rc, rc2
        pos = [nr, nc, NR, NC, r + nr - R, R + NR - r, c + nc - C, C + NC - c]
        w = witness(S.facts.ge, [x for x in S.neq if all(self.plain_atom(a) for a in x.atoms())], pos)
        if w is None:
            self.unproved[0] += 1; return
        d = {'r': 'reads', 'w': 'writes'}
        raise Viol('race', '%s %s rows %r:+%r columns %r:+%r (line %s) unordered with the task created at line %s, which %s rows %r:+%r columns %r:+%r [e.g. %s]' % (
            d[kind], o, r, nr, c, nc, self.line, t.line, d[k2], R, NR, C, NC, wstr_(w)), self.line)
    def release(self, S, p):
        for t in S.tasks:
            if self.ordered(t, S.cur): continue
            for k2, o2, rc2, l2 in t.acc:
                if o2 == p.o: raise Viol('race', 'releases %s at line %s while the task created at line %s may still use it' % (o2, self.line, t.line), self.line)
    def loop_tasks(self, S, e, fin, a, T):
        old = set(t.id for t in S.tasks)
        new = [t for t in e.tasks if t.id not in old]
        def lift(acc):
            out = []
            for k, o, rc, ln in acc:
                if isinstance(o, tuple): out.append((k, o, rc, ln)); continue
                if o not in fin.objs: continue
                r = lift_rect(rc, a, T)
                if r is None: raise Undecided('loop: task footprint')
                out.append((k, o, r, ln))
            return tuple(dict.fromkeys(out))
        for t in new:
            selfdep = any(x[0] == 'var' and x in [('var',) + k for k in S.env] for x in t.dout)
            for k, o, rc, ln in t.acc:
                if k != 'w' or selfdep: continue
                if isinstance(o, tuple):
                    if o[1] in [repr(('var',) + z) for z in S.env]:
                        raise Viol('race', 'every iteration creates a task (line %s) that changes the shared variable %s' % (t.line, o[1]), t.line)
                    continue
                if o in S.objs and not any(has_t(x, a) for x in rc):
                    self.line = ln
                    w = witness(e.facts.ge, [], [rc[2], rc[3]])
                    if w is not None:
                        raise Viol('race', 'every iteration creates a task (line %s) that writes the same block of %s (line %s)' % (t.line, o, ln), ln)
            fin.tasks = fin.tasks + (t.but(lift(t.acc)),)
        if e.cur is not None and fin.cur is not None and e.cur.acc != S.cur.acc:
            fin.cur = fin.cur.but(tuple(dict.fromkeys(S.cur.acc + lift(e.cur.acc[len(S.cur.acc):]))))
    def at_exit(self, S):
        if S.tasks:
            t = S.tasks[0]
            w = witness(S.facts.ge, [], [])
            if w is None: return
            raise Viol('exit', 'returns while the task created at line %s may still be running' % t.line, t.line)

def race_fn(prog, f):
    """analyse one definition for conflicts between unordered tasks"""
    class X(RaceExec):
        ntotal = [0]; unproved = [0]
    nm = spec_name(f)
    mt = match(f, SHAPES[nm])
    if not mt: return None
    r = verify(prog, f, nm, mt[0], mt[1], None, unroll=2, exec_cls=X)
    r.bounded = X.ntotal[0]
    r.cases = X.unproved[0]
    return r
