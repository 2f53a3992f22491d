"""Bounds of delayed computations: interval analysis of matrix blocks with symbolic end points.
Every block has an interval [min of a set of polynomials, max of a set of polynomials] over the bounds stored in
the helpers; products need helpers that cover their operands, sums of products need a test that covers them,
products over the integers need an inner dimension within the delay bound computed for their operands, and the
bounds a helper reports must cover what the routine leaves in the output."""
from reduced import *
import random

BN = ('Amin', 'Amax', 'Bmin', 'Bmax', 'Cmin', 'Cmax', 'Outmin', 'Outmax')
PROD = {'fgemm': 1, 'fgemv': 1, 'pfgemm': 1, 'Winograd': 1, 'WinoPar': 1, 'WinogradCalc': 1, 'WinogradAcc_3_21': 1, 'DynamicPeeling2': 1}
FMIN = Free(('fld', 'F', 'FieldMin')); FMAX = Free(('fld', 'F', 'FieldMax'))
DBG = 0
class NotLin(Exception): pass
def forms(v, lo):
    """set of polynomials whose minimum (lo) or maximum is v"""
    if isinstance(v, int): return frozenset([P(v)])
    if isinstance(v, Poly): return frozenset([v])
    if isinstance(v, Scal): return frozenset([v.p])
    if not isinstance(v, Free): raise NotLin(repr(v))
    t = v.t
    if t[0] == 'fld': return frozenset([Poly.sym(('bd', t[1], t[2]))])
    if t[0] == 'iv': return frozenset([Poly.sym(('bd',) + tuple(t[1:]))])
    if t[0] == 'int': return frozenset([P(t[1])])
    if t[0] == 'call' and t[1] in ('min', 'max') and isinstance(t[2], tuple):
        if (t[1] == 'min') == lo: return frozenset(x for y in t[2] for x in forms(y, lo))
        raise NotLin('mixed')
    if t[0] == '-' and len(t) == 2: return frozenset(-x for x in forms(t[1], not lo))
    if t[0] == '+': return frozenset(x + y for x in forms(t[1], lo) for y in forms(t[2], lo))
    if t[0] == '-': return frozenset(x - y for x in forms(t[1], lo) for y in forms(t[2], not lo))
    if t[0] == '*':
        a, b = forms(t[1], lo), forms(t[2], lo)
        if len(a) == 1 and len(b) == 1: return frozenset([next(iter(a)) * next(iter(b))])
        for x, y in ((t[1], b), (t[2], a)):
            c = next(iter(forms(x, lo))) if len(forms(x, lo)) == 1 else None
            if c is not None and c.isconst():
                o = t[2] if x is t[1] else t[1]
                return frozenset(c * z for z in forms(o, lo if c.cval() >= 0 else not lo))
    raise NotLin(repr(v)[:80])
def sy(a): return atom_of(a)
def name_of(a):
    s = sy(a)
    return s[2] if isinstance(s, tuple) and s[0] == 'bd' else ''
def signed(p):
    """substitute -x for every lower bound: all symbols become nonnegative; None if a symbol has an unknown sign"""
    for a in p.atoms():
        n = name_of(a)
        if n.lower().endswith('min') : p = p.subst(a, -Poly.sym(('neg',) + sy(a)[1:]))
    return p
def known_nonneg(p):
    p = signed(p)
    for m, k in p.d.items():
        if k < 0: return False
        for a, e in m:
            if e % 2 and not (isinstance(sy(a), tuple) and sy(a)[0] in ('neg', 'bd')): return False
    return True
class IV(object):
    __slots__ = ('lo', 'hi')
    def __init__(self, lo, hi): self.lo = frozenset(lo); self.hi = frozenset(hi)
    def key(self): return (self.lo, self.hi)
    def __repr__(self):
        f = lambda s, n: repr(next(iter(s))) if len(s) == 1 else n + repr(sorted(map(repr, s)))
        return '[%s, %s]' % (f(self.lo, 'min'), f(self.hi, 'max'))
RED = IV(forms(FMIN, 1), forms(FMAX, 0))
def iv_add(a, b, s=1):
    if s == 1: return IV([x + y for x in a.lo for y in b.lo], [x + y for x in a.hi for y in b.hi])
    return IV([x - y for x in a.lo for y in b.hi], [x - y for x in a.hi for y in b.lo])
def iv_scale(a, c):
    if c.isconst():
        k = c.cval()
        if k >= 0: return IV([c * x for x in a.lo], [c * x for x in a.hi])
        return IV([c * x for x in a.hi], [c * x for x in a.lo])
    al = frozenset(c * x for x in a.lo | a.hi)
    return IV(al, al)
def iv_join(a, b): return IV(a.lo | b.lo, a.hi | b.hi)

class BoundExec(RedExec):
    assumed = ()
    MAXSTATES = 3000
    tab = {}; ids = {}
    def mkiv(self, iv):
        k = BoundExec.ids.get(iv.key())
        if k is None:
            k = len(BoundExec.ids); BoundExec.ids[iv.key()] = k; BoundExec.tab[k] = iv
        return k
    def put(self, S, o, rc, iv):
        n = o + '~'
        if n not in S.objs or rc[2].iszero() or rc[3].iszero(): return
        if S.objs[n].ld is None: S.objs[n] = S.objs[n].but(ld=S.objs[o].ld)
        m = Mat.zero(rc[2], rc[3]) if iv is None or iv.key() == RED.key() else Mat.atom(At('%si%d' % (n, self.mkiv(iv)), rc[0], rc[1], rc[2], rc[3]))
        write_rc(self, S, n, rc, Grid.of(m))
        if S.log is not None: S.log.append(('W', n, rc, self.line))
    def iv_of(self, S, o, m):
        if m.iszero(): return RED
        r = None
        for w in m.d:
            for x in w:
                if x.o.endswith('~'):
                    v = self.init_iv.get(x.o[:-1])
                    if v is None: raise Undecided('bounds of %s' % x.o[:-1])
                else: v = BoundExec.tab[int(x.o.rsplit('i', 1)[1])]
                r = v if r is None else iv_join(r, v)
        return r
    def get(self, S, o, rc):
        n = o + '~'
        if n not in S.objs or rc[2].iszero() or rc[3].iszero(): return RED
        if not S.objs[n].cells: return self.init_iv.get(o, RED) if S.objs[n].dflt == 'in' else RED
        r = None
        for i, j, m in read_rc(self, S, n, rc).blocks():
            v = self.iv_of(S, o, m)
            r = v if r is None else iv_join(r, v)
        return r or RED
    # ---- helpers
    def hf(self, S, p, n):
        v = S.flds.get((p, n))
        if v is not None: return v
        if n == 'FieldMin': return FMIN
        if n == 'FieldMax': return FMAX
        if p == self.plain: return FMIN if n.endswith('min') else FMAX
        return Free(('fld', p, n))
    def default_field(self, S, loc):
        if loc[2] == 'FieldMin': return FMIN
        if loc[2] == 'FieldMax': return FMAX
        if loc[2] == 'MaxStorableValue': return Free(('fld', 'F', 'MSV'))
        if loc[2] in BN: return self.hf(S, loc[1], loc[2])
        return RedExec.default_field(self, S, loc)
    def dedupe(self, states):
        """states are merged only when they differ in nothing but the conditions on the way"""
        seen = {}; out = []
        for s in states:
            k = (frozenset(s.env.items()), frozenset(o.key() for o in s.objs.values()), frozenset(s.flds.items()), s.ret, s.neq)
            t = seen.get(k)
            if t is None or s.log is not None: seen[k] = s; out.append(s); continue
            fs = Facts([f for f in t.facts.ge if f in s.facts.ge]); fs.I = t.facts.I; fs.ns = max(t.facts.ns, s.facts.ns); t.facts = fs
            t.conds = t.conds & s.conds
            t.taint = t.taint or s.taint
        if len(out) > self.MAXSTATES: raise Undecided('too many states')
        return out
    def decl(self, d, S):
        r = Exec.decl(self, d, S)
        if 'Helper' in d[4] and 'TRSM' not in d[4] and 'ParSeq' not in d[4].split('<')[0] and not d[4].rstrip().endswith('&') and d[6] is not None:
            ie = strip(d[6])
            if ie and ie[0] in ('ctor', 'init', 'plist'):
                a = ie[4] if ie[0] == 'ctor' else ie[-1]
                for s in r:
                    v = s.env.get((self.fr(), d[3]))
                    if not isinstance(v, Rec): continue
                    self.helpers.add(v.p)
                    vs = [self.rv(s, x) for x in a]
                    src = [x for x in vs if self.is_helper(x)]
                    if src:
                        for n in BN: s.flds[(v.p, n)] = self.hf(s, src[0].p, n)
                    elif len(a) >= 8:
                        for n, x in zip(BN, vs[2:8]): s.flds[(v.p, n)] = x
                    else:
                        for n in BN[:6]: s.flds[(v.p, n)] = FMIN if n.endswith('min') else FMAX
                    if not src:
                        for n in BN[6:]: s.flds[(v.p, n)] = Free(('int', ZERO))
        return r
    def store(self, S, loc, v): return Exec.store(self, S, loc, v)
    def claim(self, S, p, X):
        try: return IV(forms(self.hf(S, p, X + 'min'), True), forms(self.hf(S, p, X + 'max'), False))
        except NotLin as e: raise Undecided('bounds of the helper: %s' % e)
    def facts_(self, S):
        fs = list(self.assumed)
        for (k, b) in S.conds:
            if k[0] != '<' or len(k) != 3: continue
            try:
                a1, b0 = forms(k[1], True), forms(k[2], False)
                if b:
                    if len(a1) == 1 and len(b0) == 1: fs.append(next(iter(b0)) - next(iter(a1)))
                else:     # a >= b
                    a, b_ = forms(k[1], True), forms(k[2], False)
                    for x in a:
                        for y in b_: fs.append(x - y)
            except NotLin: pass
        return fs
    def nonneg(self, S, p, fs=None):
        if known_nonneg(p): return True
        for a in p.atoms():
            if isinstance(sy(a), tuple) and sy(a)[0] in ('bd', 'neg'): continue
            # p = a * q with a of known sign
            if not all((a, 1) in m for m in p.d): continue
            q = Poly({tuple(x for x in m if x != (a, 1)): k for m, k in p.d.items()})
            sg = set()
            for f in (self.facts_(S) if fs is None else fs):
                c = f.d.get(((a, 1),))
                if c and all(m in ((), ((a, 1),)) for m in f.d) and f.d.get((), 0) <= 0: sg.add(1 if c > 0 else -1)
            if len(sg) == 2 or (1 in sg and known_nonneg(q)) or (-1 in sg and known_nonneg(-q)): return True
        for f in (self.facts_(S) if fs is None else fs):
            if known_nonneg(p - f): return True
        return False
    def covers(self, S, cl, iv):
        """None if every value of iv lies in cl; otherwise an instance (text); raises Undecided"""
        bad = []
        for x in iv.lo:
            if not any(self.nonneg(S, x - y) for y in cl.lo): bad.append((x, cl.lo, 1))
        for x in iv.hi:
            if not any(self.nonneg(S, y - x) for y in cl.hi): bad.append((x, cl.hi, 0))
        if not bad: return None
        w = self.refute(S, lambda env: any((ev(x, env) < min(ev(y, env) for y in c)) if lo else (ev(x, env) > max(ev(y, env) for y in c)) for x, c, lo in bad),
                        [q for x, c, lo in bad for q in [x] + list(c)])
        if w is None: raise Undecided('bounds %r, %r' % (cl, iv))
        return w
    def refute(self, S, test, ps):
        fs = self.facts_(S)
        atoms = set()
        for p in list(ps) + fs: atoms |= set(p.atoms())
        atoms = sorted(atoms, key=repr)
        rnd = random.Random(7)
        sub = [a for a in atoms]
        for _ in range(6000):
            msv = rnd.choice([40, 100, 1000])
            p = rnd.choice([2, 3, 5, 7])
            env = {}
            bal = rnd.random() < .5
            for a in sub:
                n = name_of(a)
                if n == 'MSV': env[a] = msv
                elif n == 'FieldMax': env[a] = p
                elif n == 'FieldMin': env[a] = -p if bal else 0
                elif n.lower().endswith('min'): env[a] = -rnd.choice([0, p, 2 * p, msv // 2, msv - 1, msv, rnd.randint(0, msv)])
                elif n.lower().endswith('max'): env[a] = rnd.choice([p, 2 * p, msv // 2, msv - 1, msv, rnd.randint(0, msv)])
                else: env[a] = rnd.choice([1, -1, 2, -2, p])
            if any(ev(f, env) < 0 for f in fs): continue
            if test(env): return ', '.join('%s=%s' % (aname(a), env[a]) for a in atoms if any(a in q.atoms() for q in ps))
        return None
    def free_scalar(self, a): return True
    def req(self, S, cl, iv, what):
        self.nuse += 1
        try: w = self.covers(S, cl, iv)
        except Undecided:
            if witness(S.facts.ge, [x for x in S.neq if all(self.plain_atom(a) for a in x.atoms())], []) is None: raise Infeasible()
            self.partial = True      # undecided, but a later path may still violate
            return
        if w is None: return
        if S.taint: raise Undecided('branch on an unknown condition')
        if witness(S.facts.ge, [x for x in S.neq if all(self.plain_atom(a) for a in x.atoms())], []) is None: raise Infeasible()
        raise Viol('bounds', '%s: values in %s, stated %s [e.g. %s]' % (what, pretty(iv), pretty(cl), w), self.line)
    def hmode(self, e, name):
        ci = e[3] if e[0] == 'op' else e[2]
        fn = self.prog.by_id.get((ci or {}).get('i'))
        if fn is None: return None, None
        for i, p in enumerate(fn.params):
            if 'MMHelper' in p[2]:
                for k in ('LazyTag', 'DefaultBoundedTag', 'DelayedTag', 'DefaultTag', 'ConvertTo'):
                    if k in p[2]: return k, fn
        return None, fn
    def beta_of(self, vs):
        n = 0
        for i, v in enumerate(vs):
            if isinstance(v, Ptr):
                n += 1
                if n == 3: return vs[i - 1]
        return None
    def inner(self, name, vs):
        if name in ('fgemm', 'pfgemm') and len(vs) > 6 and isinstance(vs[5], Poly): return vs[5]
        if name in ('fgemv', 'pfgemv') and isinstance(vs[1], En): return vs[3] if 'NoTrans' in vs[1].n else vs[2]
        return None
    def contract(self, S, name, h, e, vs):
        if name in ('.initA', '.initB', '.initC', '.initOut'):
            obj = self.rv(S, e[3])
            if isinstance(obj, Rec):
                X = name[5:]
                S.flds[(obj.p, X + 'min')] = FMIN; S.flds[(obj.p, X + 'max')] = FMAX
            return h(self, S, e, vs)
        if name == '.setOutBounds':
            obj = self.rv(S, e[3])
            if isinstance(obj, Rec):
                for X in ('Outmin', 'Outmax'): S.flds[(obj.p, X)] = Free(('iv', obj.p, X, e[1]))
                S.flds[(obj.p, '%ob')] = Free(('ob',) + tuple(vs), True)
            return h(self, S, e, vs)
        if name == '.MaxDelayedDim':
            obj = self.rv(S, e[3])
            r = h(self, S, e, vs)
            if isinstance(obj, Rec) and isinstance(r, Poly):
                S.flds[('%kd', r)] = Free(('kdrec', tuple(self.hf(S, obj.p, n) for n in BN[:6]), vs[0] if vs else TOP), True)
            return r
        if self.trace is not None or name in SKIP or (name.startswith('.') and name not in ('.delayed', '.operator()')): return h(self, S, e, vs)
        if S.facts.nonneg(P(-1)): raise Infeasible()
        c, lazy = self.cls_of(S, name, e, vs)
        self.trace = tr = []
        try: r = h(self, S, e, vs)
        finally: self.trace = None
        ws = [(o, rc) for k, o, rc in tr if k == 'w']; rs = [(o, rc) for k, o, rc in tr if k == 'r']
        self.nops += 1
        hs = [v for v in vs if self.is_helper(v)]
        if name in PROD and hs: self.product(S, name, e, vs, ws, rs, hs[0].p); return r
        if name in SWAP:
            if len(ws) == 2:
                d = [self.get(S, o, rc) for o, rc in ws]
                for (o, rc), x in zip(ws, reversed(d)): self.put(S, o, rc, x)
            return r
        if name == 'freduce_constoverride':
            for v in vs:
                if isinstance(v, Ptr) and v.o + '~' in S.objs: S.objs[v.o + '~'] = S.objs[v.o + '~'].but(cells=(), dflt='zero')
            return r
        if name in COPY and len(rs) == 1 and ws:
            self.put(S, ws[0][0], ws[0][1], self.get(S, *rs[0])); return r
        base = name[1:] if name.startswith('pf') else name
        if base in ('fadd', 'fsub', 'faddin', 'fsubin') and c == 'ring' and len(rs) == 2 and len(ws) == 1:
            # reads are traced in the order (first, second) of the sum; faddin and fsubin read the output first
            a, b = self.get(S, *rs[0]), self.get(S, *rs[1])
            sc = [v for v in vs if isinstance(v, Scal)]
            if base == 'fadd' and sc: b = iv_scale(b, sc[0].p)
            iv = iv_add(a, b, 1 if base in ('fadd', 'faddin') else -1)
            self.summed(S, name, iv, a, b)
            self.put(S, ws[0][0], ws[0][1], iv)
            return r
        if base in ('fscalin', 'fscal') and c == 'ring' and ws:
            sc = [v for v in vs if isinstance(v, Scal)]
            if not sc: raise Undecided('scaling')
            a = self.get(S, *(rs[0] if rs else ws[0]))
            self.put(S, ws[0][0], ws[0][1], iv_scale(a, sc[0].p)); return r
        if base in ('fneg', 'fnegin') and c == 'ring' and ws:
            self.put(S, ws[0][0], ws[0][1], iv_scale(self.get(S, *(rs[0] if rs else ws[0])), P(-1))); return r
        if name in CLEAN or c == 'mod' and not lazy:
            for o, rc in ws: self.put(S, o, rc, None)
            return r
        if ws and (name in RAW or c == 'ring' or lazy):
            x = IV([Poly.sym(('bd', '%s@%s' % (name, e[1]), 'min'))], [Poly.sym(('bd', '%s@%s' % (name, e[1]), 'max'))])
            for o, rc in ws: self.put(S, o, rc, x)
            return r
        for o, rc in ws: self.put(S, o, rc, None)
        return r
    def summed(self, S, name, iv, a, b):
        """a sum that involves the result of a product: the sum must have been tested against the largest storable value"""
        prod = lambda x: any(name_of(s) in ('Outmin', 'Outmax') for q in x.lo | x.hi for s in q.atoms())
        if not (prod(a) or prod(b)): return
        M = Poly.sym(('bd', 'F', 'MSV'))
        self.req(S, IV([-M], [M]), iv, '%s over the integers may exceed the largest exact value' % name)
    def product(self, S, name, e, vs, ws, rs, hp):
        mode, fn = self.hmode(e, name)
        if mode in (None, 'DefaultTag', 'ConvertTo'):
            for o, rc in ws: self.put(S, o, rc, None)
            return
        ps = [v for v in vs if isinstance(v, Ptr)]
        if len(ps) != 3: raise Undecided('operands of %s' % name)
        beta = self.beta_of(vs)
        zero = isinstance(beta, Scal) and beta.p.iszero()
        out = list(ws)
        civ = RED
        if name == 'DynamicPeeling2': self.peeled(S, vs, ps[2], hp, zero)
        for X, p in zip('ABC', ps):
            for o, rc in rs:
                if o != p.o or (X == 'C') != ((o, rc) in out): continue
                if X == 'C' and (zero or name == 'DynamicPeeling2'): continue
                iv = self.get(S, o, rc)
                if X == 'C': civ = iv
                self.req(S, self.claim(S, hp, X), iv, 'operand %s of %s exceeds the bounds of its helper' % (X, name))
        if mode == 'DefaultBoundedTag' and fn is not None and field_class_of(fn) == 'ring': self.delay(S, name, vs, hp, beta, zero, civ)
        if mode == 'DelayedTag' and name not in LEAVES:
            for X in ('min', 'max'): S.flds[(hp, 'Out' + X)] = FMIN if X == 'min' else FMAX
            for o, rc in out: self.put(S, o, rc, None)
            return
        iv = IV([Poly.sym(('bd', hp, 'Outmin', e[1]))], [Poly.sym(('bd', hp, 'Outmax', e[1]))])
        S.flds[(hp, 'Outmin')] = Free(('iv', hp, 'Outmin', e[1])); S.flds[(hp, 'Outmax')] = Free(('iv', hp, 'Outmax', e[1]))
        for o, rc in out: self.put(S, o, rc, iv)
    def peeled(self, S, vs, p, hp, zero):
        """the part of C already computed is within the output bounds, the rest within the bounds of C"""
        ns = [v for v in vs if isinstance(v, Poly)]
        m, n, k, mr, nr, kr = ns[:6]
        ld = vs[vs.index(p) + 1]
        fl = [v for v in vs[vs.index(p) + 2:] if not isinstance(v, Rec)]
        rc = self.rect(S, p, ld, m, n)
        if rc is None: return
        self.req(S, self.claim(S, hp, 'Out'), self.get(S, p.o, (rc[0], rc[1], m - mr, n - nr)), 'the output bounds of the helper do not cover the product that is peeled')
        if zero or len(fl) != 2: return
        try: cl = IV(forms(fl[0], True), forms(fl[1], False))
        except NotLin as e: raise Undecided('bounds of C')
        for q in ((rc[0] + m - mr, rc[1], mr, n), (rc[0], rc[1] + n - nr, m, nr)):
            self.req(S, cl, self.get(S, p.o, q), 'C exceeds the bounds given for its last rows and columns')
    def delay(self, S, name, vs, hp, beta, zero, civ):
        """a product over the integers: its inner dimension is within a delay bound computed for these operands"""
        k = self.inner(name, vs)
        recs = [(q[1], v.t) for q, v in S.flds.items() if q[0] == '%kd']
        if k is None or not recs: raise Undecided('no delay bound')
        why = []
        for kd, (_, bs, b0) in recs:
            if not S.facts.nonneg(kd - k): why.append('%r is not within it' % k); continue
            try: cl = {X: IV(forms(bs[2 * i], True), forms(bs[2 * i + 1], False)) for i, X in enumerate('ABC')}
            except NotLin: continue
            try:
                if self.covers(S, cl['A'], self.claim(S, hp, 'A')) or self.covers(S, cl['B'], self.claim(S, hp, 'B')): why.append('it was computed for smaller operands'); continue
            except Undecided: why.append('?'); continue
            if zero: return
            same = b0 == beta or (unit(b0) and unit(beta))
            if not same: why.append('it was computed for beta = %s, not %s' % (sname(b0), sname(beta))); continue
            try: w = self.covers(S, cl['C'], civ)
            except Undecided: why.append('?'); continue
            if w is None: return
            why.append('it was computed for a smaller output')
        w = witness(S.facts.ge, [x for x in S.neq if all(self.plain_atom(a) for a in x.atoms())], [k])
        if w is None: raise Infeasible()
        if '?' in why or S.taint: raise Undecided('delay bound')
        raise Viol('bounds', '%s over the integers accumulates %r products (beta = %s) but no delay bound allows it: %s [e.g. %s]' % (name, k, sname(beta), '; '.join(sorted(set(why))), wstr_(w)), self.line)
    def loop_tasks(self, S, e, fin, a, T):
        for n in S.objs:
            if not n.endswith('~') or n not in e.objs or e.objs[n].cells == S.objs[n].cells: continue
            done = set()
            for k, on, rc, ln in e.log:
                if k != 'W' or on != n or rc in done: continue
                done.add(rc)
                o = n[:-1]
                iv = self.get(e, o, rc)
                if any(has_t(q, a) for q in iv.lo | iv.hi): raise Undecided('loop: bounds')
                fixed = not any(has_t(x, a) for x in rc)
                r = lift_rect(rc, a, T)
                if r is None: raise Undecided('loop: bounds')
                if fixed and not S.facts.nonneg(T - 1): iv = iv_join(iv, self.get(S, o, rc))
                if fin.objs[n].ld is None: fin.objs[n] = fin.objs[n].but(ld=e.objs[n].ld)
                self.put(fin, o, r, iv)
    def at_exit(self, S):
        if not self.lazy_out: return
        hp = self.lazy_out
        cl = None
        for n, ob in S.objs.items():
            if ob.kind != 'shadow' or S.objs[n[:-1]].kind != 'in': continue
            for cell in ob.cells:
                if cell[2].iszero() or cell[3].iszero() or n[:-1] != self.cname: continue
                if cl is None:
                    try: cl = self.claim(S, hp, 'Out')
                    except Undecided: return      # scaled by a field element: not interpreted
                self.req(S, cl, self.iv_of(S, n[:-1], cell[4]), 'the output bounds of the helper do not cover rows %r:+%r columns %r:+%r of %s' % (cell[0], cell[2], cell[1], cell[3], n[:-1]))

def ev(p, env):
    r = 0
    for m, k in p.d.items():
        t = k
        for a, e in m: t = t * env[a] ** e
        r += t
    return r
def aname(a):
    a = sy(a)
    return ('%s.%s' % (a[1], a[2])).replace('p:', '') if isinstance(a, tuple) and a[0] == 'bd' else str(a)
def pretty(iv): return re.sub(r"bd\((?:p:)?([^,()]*),([^,()]*)(,[^()]*)?\)", r"\1.\2", repr(iv))
def unit(b): return isinstance(b, Scal) and b.p.isconst() and abs(b.p.cval()) == 1
def sname(b): return repr(b.p) if isinstance(b, Scal) else repr(b)
def field_class_of(fn):
    for pn, pv, pt in fn.params:
        if 'MMHelper' in pt: continue
        if pkind(pt) == 'R': return field_class(pt)
    return None
def bound_fn(prog, f):
    nm = spec_name(f)
    mt = match(f, SHAPES[nm])
    if not mt: return None
    hps = [p for p in f.params if 'MMHelper' in p[2]]
    if not hps: return None
    hp = 'p:' + hps[0][0]
    mats = 'ABCDEFGH'[:sum(c in 'MmVv' for c in mt[0])]      # the names setup gives to the operands
    lazy = 'LazyTag' in hps[0][2]
    class X(BoundExec):
        tot = [0, 0]
        max_flags = 1 if lazy and nm != 'DynamicPeeling2' else 4      # transposition only changes the geometry (C02)
        lazy_out = hp if lazy else None
        cname = mats[-1]
        helpers = set(); hparams = {'p:' + p[0] for p in hps}
        init_iv = {}
        plain = hp if not lazy and nm in ('fgemv', 'pfgemv', 'fger') else None      # called with reduced operands
        def unknown_in(self, kw): return True
        def contract(self, *a):
            X.tot[0] += 1
            return BoundExec.contract(self, *a)
    if X.plain is None:
        for L, o in zip('ABC', mats):
            X.init_iv[o] = IV(forms(Free(('fld', hp, L + 'min')), True), forms(Free(('fld', hp, L + 'max')), False))
    pre0 = precondition(f, nm, mt[0], mt[1])
    sh = {p[1] for p in mt[1]}
    def pre(I, S, keys):
        if pre0 and pre0(I, S, keys) is False: return False
        for pn, pv, pt in f.params:
            if pv not in sh and tclass(pt) in ('flt', 'int') and pkind(pt) != 'R': S.env[(('t',), pv)] = Free(('fld', 'arg', pn))
        if nm == 'DynamicPeeling2':
            ns = [S.env[k] for c, k in zip(mt[0], keys) if c == 'N']
            m, n, k, mr, nr, kr = ns
            I.init_iv['C'] = IV(forms(Free(('fld', 'arg', 'Cmin')), True), forms(Free(('fld', 'arg', 'Cmax')), False))
            I.put(S, 'C', (ZERO, ZERO, m - mr, n - nr), I.claim(S, hp, 'Out'))
        return True
    X.assumed = [next(iter(forms(FMAX, False))) + next(iter(forms(FMIN, True)))]      # -FieldMin <= FieldMax in both representations
    if not lazy:      # the bounds a caller in delayed mode gives include the reduced elements
        for L in 'ABC':
            X.assumed.append(next(iter(forms(FMIN, True))) - Poly.sym(('bd', hp, L + 'min')))
            X.assumed.append(Poly.sym(('bd', hp, L + 'max')) - next(iter(forms(FMAX, True))))
    r = verify(prog, f, nm, mt[0], mt[1], None, unroll=2, exec_cls=X, pre=pre)
    r.bounded = X.tot[0]; r.cases = 0
    return r
def bounded(f, nm):
    """routines over a prime field whose helper carries bounds"""
    if red_class(f)[0] != 'mod' or nm in RAW or f.name in ('WinogradAcc_3_23', 'fger'): return False
    t = [p[2] for p in f.params if 'MMHelper' in p[2]]
    return bool(t) and ('LazyTag' in t[0] or 'DelayedTag' in t[0] and f.name not in LEAVES)
