"""C16: the block iterators of parallel loops visit every index exactly once."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from bv import *
from absint import *
from witness import *
import contracts, multiprocessing as mp

class CutExec(Exec):
    quots = ()
    NC = None
    def fresh_sym(self, S, lo, hi):
        self.fresh += 1
        v = Poly.sym('z%d' % self.fresh)
        if lo is not None: S.facts.add(v - lo)
        if hi is not None: S.facts.add(hi - v)
        return v
    def arith(self, S, op, a, b):
        if op in '/%' and isinstance(a, Poly):
            if isinstance(b, Poly) and self.NC is not None and b == self.NC:
                for q in self.quots:
                    r = a - q * self.NC
                    if S.facts.nonneg(r) and S.facts.nonneg(self.NC - 1 - r): return q if op == '/' else r
            if not isinstance(b, Poly) and op == '/' and S.facts.nonneg(a): return self.fresh_sym(S, ZERO, a)
        return Exec.arith(self, S, op, a, b)
    def e_call(self, S, e):
        if cname(e[2]) in ('max', 'min') and len(e[3]) == 2:
            a, b = self.rv(S, e[3][0]), self.rv(S, e[3][1])
            for x, y in ((a, b), (b, a)):
                if not isinstance(x, Poly) and isinstance(y, Poly):
                    return self.fresh_sym(S, y, None) if cname(e[2]) == 'max' else self.fresh_sym(S, ZERO, y)
        return Exec.e_call(self, S, e)
    # every loop here only computes a block size: its variables become unknown
    def havoc_loop(self, st, S):
        from loops import scan_assigned
        for v in scan_assigned(self, [x for x in st if isinstance(x, list)]):
            for k in list(S.env):
                if k == (self.fr(), v): S.env[k] = TOP
        return self.one(S)
    s_for = havoc_loop; s_while = havoc_loop; s_do = havoc_loop

class Bad(Exception): pass
class Ctx(object):
    def __init__(self, prog, cls):
        self.cls = cls
        self.m = {}
        for f in prog.fns:
            if f.cls == cls and not f.dep: self.m.setdefault((f.name, len(f.params)), f)
        self.undec = []; self.ob = 0
        C = {'.numthreads': lambda I, S, e, vs: Poly.sym('t'), 'BlockCuts': self.h_cuts}
        self.I = CutExec(prog, C); self.I.budget = 20000
        self.I.stack = [('t',)]
    def h_cuts(self, I, S, e, vs):
        if len(vs) != 5: return I.call_fn(S, e[2], e[3])
        # summary of the five-argument overloads (each is checked against it separately)
        for k in (0, 1):
            d = vs[2 + k]
            R = I.fresh_sym(S, ONE, None)
            if not I.compare(S, '<', d, ONE): S.facts.add(d - R)
            else: S.facts.add(ONE - R)
            I.store(S, I.lval(S, e[3][k]), R)
        return TOP
    def fn(self, name, np=0):
        f = self.m.get((name, np))
        if f is None: raise Undecided('no member ' + name)
        return f
    def call(self, S, name, vals=()):
        f = self.fn(name, len(vals))
        I = self.I
        top = ('t',)
        S = S.copy()
        for (pn, pv, pt), v in zip(f.params, vals): S.env[(top, pv)] = v
        S.env[(top, 'this')] = Rec('this')
        I.line = f.line
        out = I.run_body(S, f.body)
        for s in out:
            if isinstance(s.ret, Ref): s.ret = I.load(s, s.ret.l)
        return out
    def val(self, S, name):
        o = self.call(S, name)
        if len(o) != 1 or not isinstance(o[0].ret, Poly): raise Undecided('value of ' + name)
        return o[0].ret
    def zero(self, S, d, what, extra=()):
        """obligation: d == 0 under the facts of S"""
        self.ob += 1
        if d.iszero() or (S.facts.nonneg(d) and S.facts.nonneg(-d)): return
        w = witness(S.facts.ge, [d], extra)
        if w is not None: raise Bad('%s [e.g. %s]' % (what, wstr_(w)))
        raise Undecided(what)
    def nonneg(self, S, d, what):
        self.ob += 1
        if S.facts.nonneg(d): return
        w = witness(list(S.facts.ge) + [-d - 1])
        if w is not None: raise Bad('%s [e.g. %s]' % (what, wstr_(w)))
        raise Undecided(what)
    def truth(self, S, name):
        """(bool, state) outcomes of a predicate"""
        out = []
        for s in self.call(S, name):
            v = s.ret
            if isinstance(v, bool): out.append((v, s)); continue
            out += [(b, z) for b, z in self.I.variants(s, lambda z: self.I.truth(z, v))]
        return out
    def bound_of(self, old, new, c):
        """bounds on the atom c added to the facts: (upper, lower)"""
        up = lo = None
        a = list(c.atoms())[0]
        for f in new.facts.ge:
            if f in old.facts.ge: continue
            if not any(contains(x, a) for x in f.atoms()): continue
            sp = f.split(a)
            k = f - (f.subst(a, ZERO))
            if k == c: lo = -f.subst(a, ZERO)
            elif k == -c: up = f.subst(a, ZERO)
            else: raise Undecided('condition of the step')
        return up, lo
    def total(self, S, first, steps, N, size, what):
        """first + sum of the N-1 steps == size; steps: [(upper bound on c, lower bound, delta)]"""
        I = self.I
        if len(steps) == 1 and steps[0][0] is None and steps[0][1] is None:
            self.zero(S, first + (N - 1) * steps[0][2] - size, what, [N]); return
        if all(x[0] is None and x[1] is None for x in steps):      # the case does not depend on the position
            for x in steps: self.zero(x[3], first + (N - 1) * x[2] - size, what, [N])
            return
        if len(steps) != 2: raise Undecided('step cases')
        A = [x for x in steps if x[0] is not None and x[1] is None]; B = [x for x in steps if x[0] is None and x[1] is not None]
        if len(A) != 1 or len(B) != 1 or A[0][0] + 1 != B[0][1]: raise Undecided('step cases')
        S = S.copy(); S.facts.add(N - 1)
        names = dict(first=first, U=A[0][0], da=A[0][2], db=B[0][2], N=N, size=size)
        for k, v in names.items(): S.env[('sz', k)] = v
        def f(s):
            g = lambda k: s.env[('sz', k)]
            if not I.compare(s, '<', g('U') + 1, ONE):     # steps with c <= U are of kind A
                if I.compare(s, '<', g('U') + 1, g('N')):
                    return g('first') + (g('U') + 1) * g('da') + (g('N') - 2 - g('U')) * g('db') - g('size')
                return g('first') + (g('N') - 1) * g('da') - g('size')
            return g('first') + (g('N') - 1) * g('db') - g('size')
        for d, s in I.variants(S, f): self.zero(s, d, what)

def changed(s, outs):
    F = set()
    for o in outs:
        for k, v in o.flds.items():
            if s.flds.get(k) != v: F.add(k)
    return sorted(F)

def generic(ctx, s, F, name):
    g = s.copy()
    sym = {}
    for k in F:
        v = Poly.sym('it_' + k[1]); g.flds[k] = v; sym[k] = v
    return g, sym

def start(ctx, nsz):
    S = State()
    S.facts.add(Poly.sym('t') - 1)
    for x in 'mn': S.env[('sz', x)] = Poly.sym(x)
    vals = [Poly.sym(x) for x in ('m', 'n')[2 - nsz:]] + [Rec('H')]
    f = ctx.fn(ctx.cls.split('<')[0].split('::')[-1], nsz + 1)
    res = []
    for s in ctx.call(S, f.name, vals):
        for z in ctx.call(s, 'initialize'): z.ret = None; res.append(z)
    if not res: raise Undecided('no state')
    return res

def counter(ctx, s, F):
    """the field that counts blocks and its final value"""
    g, sym = generic(ctx, s, F, 'g')
    outs = ctx.call(g, 'operator++')
    cand = [k for k in F if s.flds.get(k) == ZERO and all(o.flds[k] == sym[k] + 1 for o in outs)]
    for k in cand:
        h = s.copy(); h.flds[k] = Poly.sym('ld_count')
        for b, z in ctx.truth(h, 'isTerminated'):
            if b and not any(contains(x, aid('ld_count')) for x in z.flds[k].atoms()): return k, z.flds[k]
    raise Undecided('block counter')

def one_d(ctx):
    for s0 in start(ctx, 1):
        for b, s in ctx.truth(s0, 'isTerminated'):
            n = s.env[('sz', 'n')]
            if b:
                ctx.nonneg(s, -n, 'the loop over a non-empty range has no block'); continue
            ctx.zero(s, ctx.val(s, 'begin'), 'the first block does not start at 0')
            first = ctx.val(s, 'end')
            ctx.nonneg(s, first, 'the first block ends before it starts')
            F = changed(s, ctx.call(s, 'operator++'))
            K, N = counter(ctx, s, F)
            g, sym = generic(ctx, s, F, 'g')
            c = sym[K]
            g.facts.add(N - 2 - c)
            e = ctx.val(g, 'end')
            steps = []
            for o in ctx.call(g, 'operator++'):
                ctx.zero(o, ctx.val(o, 'begin') - e, 'a block does not start where the previous one ends')
                d = ctx.val(o, 'end') - e
                ctx.nonneg(o, d, 'a block has negative length')
                steps.append(ctx.bound_of(g, o, c) + (d, o))
            ctx.total(s, first, steps, N, n, 'the blocks do not end at n')

def two_d(ctx):
    for s0 in start(ctx, 2):
        for b, s in ctx.truth(s0, 'isTerminated'):
            m, n = s.env[('sz', 'm')], s.env[('sz', 'n')]
            NR, NC = ctx.val(s, 'rownumblocks'), ctx.val(s, 'colnumblocks')
            if b:
                ctx.ob += 1
                w = witness(list(s.facts.ge), [], [m, n])
                if w is not None and not (s.facts.nonneg(-m) or s.facts.nonneg(-n)): raise Bad('the loop over a non-empty range has no block [e.g. %s]' % wstr_(w))
                continue
            s.facts.add(NR - 1); s.facts.add(NC - 1)
            ctx.zero(s, ctx.val(s, 'ibegin'), 'the first row block does not start at 0')
            ctx.zero(s, ctx.val(s, 'jbegin'), 'the first column block does not start at 0')
            fi, fj = ctx.val(s, 'iend'), ctx.val(s, 'jend')
            i, j = Poly.sym('i_'), Poly.sym('j_')
            F = set()
            for cur in (ONE, NC):     # fields moved by a step inside a row and by a step to the next row
                F |= set(changed(s, ctx.call(s, 'operator++')))
            I = ctx.I
            I.NC = NC; I.quots = (i, i + 1)
            try:
                F = set()
                for o in ctx.call(s, 'operator++'): F |= set(changed(s, [o]))
                F = sorted(F)
                K, N = counter(ctx, s, F)
                ctx.zero(s, N - NR * NC, 'the number of blocks visited is not rows x columns')
                cols = []; rows = []
                for case in 'AB':
                    g, sym = generic(ctx, s, F, 'g')
                    g.facts.add(NR - 1 - i)
                    if case == 'A':
                        g.flds[K] = i * NC + j; g.facts.add(NC - 2 - j)
                    else:
                        g.flds[K] = i * NC + NC - 1; g.facts.add(NR - 2 - i)
                    e = {k: ctx.val(g, k) for k in ('ibegin', 'iend', 'jbegin', 'jend')}
                    for o in ctx.call(g, 'operator++'):
                        x = {k: ctx.val(o, k) for k in ('ibegin', 'iend', 'jbegin', 'jend')}
                        if case == 'A':
                            ctx.zero(o, x['ibegin'] - e['ibegin'], 'the row range changes within a row of blocks')
                            ctx.zero(o, x['iend'] - e['iend'], 'the row range changes within a row of blocks')
                            ctx.zero(o, x['jbegin'] - e['jend'], 'a block does not start where the one on its left ends')
                            d = x['jend'] - e['jend']
                            cols.append(ctx.bound_of(g, o, j) + (d, o))
                        else:
                            ctx.zero(o, x['jbegin'], 'a row of blocks does not start in column 0')
                            ctx.zero(o, x['jend'] - fj, 'rows of blocks are cut differently')
                            ctx.zero(o, x['ibegin'] - e['iend'], 'a row of blocks does not start where the previous one ends')
                            d = x['iend'] - e['iend']
                            rows.append(ctx.bound_of(g, o, i) + (d, o))
                        ctx.nonneg(o, d, 'a block has negative size')
                ctx.total(s, fj, cols, NC, n, 'the column blocks do not end at n')
                ctx.total(s, fi, rows, NR, m, 'the row blocks do not end at m')
            finally:
                I.NC = None; I.quots = ()

def inner(prog, f):
    """five-argument BlockCuts: 1 <= size, and size <= extent when the extent is not 0"""
    C = {'.numthreads': lambda I, S, e, vs: Poly.sym('t')}
    I = CutExec(prog, C); I.stack = [('t',)]
    ctx = Ctx(prog, '-'); ctx.I = I
    S = State()
    t = Poly.sym('t'); S.facts.add(t - 1)
    vals = [TOP, TOP, Poly.sym('m'), Poly.sym('n'), t]
    for x in 'mn': S.env[('sz', x)] = Poly.sym(x)
    for (pn, pv, pt), v in zip(f.params, vals): S.env[(('t',), pv)] = v
    # table lookups stay inside the table and never yield 0
    for d in walk(f.body):
        if d[0] == 'decl' and str(d[4]).endswith(']') and d[6]:
            lit = [x for x in walk(d[6]) if x[0] == 'i']
            ctx.ob += 1
            if any(x[1] <= 0 for x in lit): raise Bad('table %s holds a block count of 0' % d[2])
    if any('Single' in x for x in [f.t]): I.assume_eq(S, t - 1)
    for s in I.run_body(S, f.body):
        for k in (0, 1):
            R = s.env.get((('t',), f.params[k][1]))
            if isinstance(R, Ref): R = I.load(s, R.l)
            if not isinstance(R, Poly): raise Undecided('block size')
            ctx.nonneg(s, R - 1, 'a block size of 0 is chosen')
            z = s.copy(); d = s.env[('sz', 'mn'[k])]
            for a, z2 in I.variants(z, lambda q: I.assume_ge(q, d - 1)):
                ctx.nonneg(z2, d - R, 'the block size exceeds the extent, so that no block is visited')
    return ctx.ob

_P = {}
def work(c):
    ctx = Ctx(_P['p'], c)
    f = ctx.m.get(('operator++', 0))
    loc = f.loc() if f else 'fflas-ffpack/paladin/blockcuts.inl'
    try: (one_d if 'ForStrategy1D' in c else two_d)(ctx)
    except Bad as ex: return c, 'bad', str(ex), loc, ctx.ob
    except (Undecided, RecursionError) as ex: return c, 'und', str(ex), loc, ctx.ob
    return c, 'ok', '', loc, ctx.ob

def main():
    ck = Check('C16')
    prog = load(['d_cuts']); _P['p'] = prog
    cnt = dict(iterators=0, cut_rules=0, obligations=0, undecided=0)
    classes = sorted({f.cls for f in prog.fns if f.cls and not f.dep and f.cls.split('<')[0] in ('FFLAS::ForStrategy1D', 'FFLAS::ForStrategy2D')})
    und = []
    with mp.get_context('fork').Pool(8) as pool: res = pool.map(work, classes, chunksize=1)
    for c, st, msg, loc, ob in res:
        cnt['obligations'] += ob
        if st == 'ok': cnt['iterators'] += 1
        elif st == 'bad': ck.violation('cover|%s' % c, '%s: %s: %s' % (loc, c, msg))
        else: und.append('%s: %s' % (c, msg))
    for f in prog.fns:
        if f.name == 'BlockCuts' and not f.dep and len(f.params) == 5:
            try:
                cnt['obligations'] += inner(prog, f); cnt['cut_rules'] += 1
            except Bad as ex: ck.violation('size|%s' % f.t, '%s: BlockCuts<%s>: %s' % (f.loc(), f.t, ex))
            except (Undecided, RecursionError) as ex: und.append('BlockCuts<%s>: %s' % (f.t, ex))
    cnt['undecided'] = len(und)
    ck.cov.update(cnt); ck.cov['undecided_list'] = und[:30]
    ck.require('iterator_classes', len(classes), 4)
    ck.samples = classes[:4]
    ck.finish(explanation='constructor, initialize, isTerminated, begin/end and operator++ are interpreted over symbolic sizes and thread counts; the step is shown to be contiguous from an arbitrary state and the closed-form sum of all steps is shown to be the extent')
run(main)
