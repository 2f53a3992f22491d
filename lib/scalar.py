"""Scalar bound formulas: symbolic evaluation, path by path, of the members that compute delay and output bounds,
as polynomials over non-negative symbols (-Amin, Amax, ..., |beta|, the largest storable value)."""
import random
from fractions import Fraction
from alg import *
from alg import _prove
from core import *

class Und(Exception): pass
class St(object):
    def __init__(self): self.env = {}; self.ge = []; self.gt = []; self.defs = []; self.pred = {}
    def copy(self):
        s = St(); s.env = dict(self.env); s.ge = list(self.ge); s.gt = list(self.gt); s.defs = list(self.defs); s.pred = dict(self.pred)
        return s
def nm(c): return (c or {}).get('q', '').split('::')[-1].split('<')[0]
def strip_(e):
    while e and e[0] in ('cast', 'ic', 'paren', 'tmp', 'bind', 'mat'): e = e[-1]
    return e
class SEval(object):
    def __init__(self, prog, fields, preds=()):
        self.prog = prog; self.fields = fields; self.n = 0; self.depth = 0; self.paths = 0
    # --- expressions: list of (value, state)
    def ev(self, S, e):
        k = e[0]
        if k in ('cast', 'ic', 'paren', 'tmp', 'bind', 'mat'): return self.ev(S, e[-1])
        if k in ('i', 'f'):
            try: return [(P(Fraction(str(e[1]))) if k == 'f' else P(int(e[1])), S)]
            except Exception: raise Und('literal')
        if k == 'ctor' and e[4] and (len(e[4]) == 1 or all(x[0] == 'darg' for x in e[4][1:])): return self.ev(S, e[4][0])
        if k == 'darg': return [(None, S)]
        if k == 'ctor' and not e[4]: return [(None, S)]
        if k in ('init', 'plist') and len(e[-1]) == 1: return self.ev(S, e[-1][0])
        if k == 'v':
            if e[2] in S.env: return [(S.env[e[2]], S)]
            raise Und('variable %s' % e[1])
        if k == 'mem' and e[2][0] == 'this':
            if ('m', e[1]) in S.env: return [(S.env[('m', e[1])], S)]
            raise Und('field %s' % e[1])
        if k == 'mem' and e[1] == 'mOne': return [(P(-1), S)]
        if k == 'mem' and e[1] in ('one', 'zero'): return [(P(int(e[1] == 'one')), S)]
        if k == 'un':
            if e[2] == '!': return [(('not', v), s) for v, s in self.ev(S, e[3])]
            if e[2] == '-': return [(-self.num(v), s) for v, s in self.ev(S, e[3])]
            if e[2] == '+': return self.ev(S, e[3])
            raise Und('operator %s' % e[2])
        if k in ('bin', 'op'):
            o = e[2]; a, b = (e[3], e[4]) if k == 'bin' else (e[4] + [None])[:2]
            if b is None: raise Und('operator')
            if o in ('&&', '||'): return [(('and' if o == '&&' else 'or', a, b), S)]
            r = []
            for x, s in self.ev(S, a):
                for y, t in self.ev(s, b): r += self.arith(t, o, x, y)
            return r
        if k == 'asg' or k == 'casg':
            o = e[2]; r = []
            for v, s in self.ev(S, e[4]):
                if o != '=':
                    old = self.get(s, e[3])
                    for w, t in self.arith(s, o[:-1], old, v): r.append((w, self.put(t, e[3], w)))
                else: r.append((v, self.put(s, e[3], v)))
            return r
        if k == 'cond':
            r = []
            for c, s in self.cond(S, e[2] if len(e) > 4 else e[1]): r += self.ev(s, e[-2] if c else e[-1])
            return r
        if k == 'call': return self.call(S, e[2], e[3], None)
        if k == 'mcall': return self.call(S, e[2], e[4], e[3])
        raise Und('expression %s' % k)
    def num(self, v):
        if isinstance(v, Poly): return v
        raise Und('not a number')
    def get(self, S, l):
        l = strip_(l)
        if l[0] == 'v': return S.env.get(l[2])
        if l[0] == 'mem' and l[2][0] == 'this': return S.env.get(('m', l[1]))
        raise Und('location')
    def put(self, S, l, v):
        l = strip_(l); S = S.copy()
        if l[0] == 'v': S.env[l[2]] = v
        elif l[0] == 'mem' and l[2][0] == 'this': S.env[('m', l[1])] = v
        else: raise Und('location')
        return S
    def arith(self, S, o, x, y):
        if o in ('<', '>', '<=', '>=', '==', '!='): return [(('cmp', o, self.num(x), self.num(y)), S)]
        x, y = self.num(x), self.num(y)
        if o == '+': return [(x + y, S)]
        if o == '-': return [(x - y, S)]
        if o == '*': return [(x * y, S)]
        if o == '<<' and x.isconst() and y.isconst(): return [(x.scale(2 ** int(y.cval())), S)]
        if o in ('/', '>>'):
            if o == '>>':
                if not y.isconst(): raise Und('shift')
                y = P(2 ** int(y.cval()))
            if y.isconst() and y.cval() == 2 and all(c % 2 == 0 for c in x.d.values()): return [(x.scale(Fraction(1, 2)), S)]
            self.n += 1
            q = Poly.sym('q%d' % self.n); S = S.copy()
            S.ge.append(x - q * y); S.defs.append((q, x, y))
            return [(q, S)]
        raise Und('operator %s' % o)
    def split(self, S, a, b):
        """(a >= b?, state)"""
        r = []
        for t in (True, False):
            s = S.copy(); d = a - b if t else b - a
            if d.isconst():
                if d.cval() < 0 or (not t and d.cval() == 0): continue
            else: s.ge.append(d)
            if not t: s.gt.append(d)
            r.append((t, s))
        return r
    def cond(self, S, e):
        r = []
        for v, s in (self.ev(S, e) if not isinstance(e, tuple) else [(e, S)]): r += self.truth(s, v)
        return r
    def truth(self, S, v):
        if isinstance(v, Poly):
            if v.isconst(): return [(v.cval() != 0, S)]
            raise Und('truth value')
        if isinstance(v, tuple):
            if v[0] == 'not': return [(not t, s) for t, s in self.truth(S, v[1])]
            if v[0] in ('and', 'or'):
                r = []
                for t, s in self.cond(S, v[1]):
                    if t == (v[0] == 'or'): r.append((t, s))
                    else: r += self.cond(s, v[2])
                return r
            if v[0] == 'cmp':
                o, a, b = v[1:]
                if o in ('<', '>='): return [(t if o == '>=' else not t, s) for t, s in self.split(S, a, b)]
                if o in ('>', '<='): return [(t if o == '<=' else not t, s) for t, s in self.split(S, b, a)]
                d = a - b
                if d.isconst(): return [((d.cval() == 0) == (o == '=='), S)]
                s1 = S.copy(); s1.ge += [d, -d]
                return [(o == '==', s1), (o != '==', S.copy())]
            if v[0] == 'pred':
                if v in S.pred: return [(S.pred[v], S)]
                r = []
                for t in (True, False):
                    s = S.copy(); s.pred[v] = t
                    r.append((t, s))
                return r
        raise Und('condition')
    def call(self, S, c, args, obj):
        n = nm(c); q = (c or {}).get('q', '')
        if n in ('max', 'min') and len(args) == 2:
            r = []
            for x, s in self.ev(S, args[0]):
                for y, t in self.ev(s, args[1]):
                    for g, u in self.split(t, self.num(x), self.num(y)): r.append(((x if g == (n == 'max') else y), u))
            return r
        if n == 'max' and not args:
            if 'numeric_limits' in q: return [(Poly.sym('INF'), S)]
            if 'limits' in q: return [(Poly.sym('LIM'), S)]
        if n in ('fabs', 'abs') and len(args) == 1:
            r = []
            for x, s in self.ev(S, args[0]):
                for g, u in self.split(s, self.num(x), ZERO): r.append((x if g else -x, u))
            return r
        if n.startswith('operator') and obj is not None and not args: return self.ev(S, obj)      # a conversion
        if n.startswith('operator""') and len(args) == 1: return self.ev(S, args[0])      # a literal
        if n in ('floor', 'move', 'forward') and len(args) == 1: return self.ev(S, args[0])      # the divisions are rounded down already
        while args and args[-1][0] == 'darg': args = args[:-1]
        if n in ('init', 'assign', 'convert', 'characteristic') and obj is not None and args:
            if len(args) == 1 and n == 'characteristic': return [(self.fields['p'], self.put(S, args[0], self.fields['p']))]
            if len(args) == 1: return [(None, S)]
            r = []
            for v, s in self.ev(S, args[1]): r.append((v, self.put(s, args[0], v)))
            return r
        if n == 'characteristic' and obj is not None: return [(self.fields['p'], S)]
        if n in ('isZero', 'isOne', 'isMOne') and obj is not None and len(args) == 1:
            return [(('pred', n, repr(v)), s) for v, s in self.ev(S, args[0])]
        if n == 'areEqual' and len(args) == 2:
            a = strip_(args[1])
            w = {'one': 'isOne', 'zero': 'isZero', 'mOne': 'isMOne'}.get(a[1] if a[0] == 'mem' else '')
            if w: return [(('pred', w, repr(v)), s) for v, s in self.ev(S, args[0])]
        fn = self.prog.by_id.get((c or {}).get('i'))
        if n == 'min_types' and len(args) == 1: return self.ev(S, args[0])
        if fn is not None and not fn.dep and fn.body and self.depth < 4 and (obj is None or obj[0] == 'this') and len(fn.params) <= len(args):
            outs = [(S, [])]
            for a in args:
                nx = []
                for s, vs in outs:
                    try: nx += [(t, vs + [v]) for v, t in self.ev(s, a)]
                    except Und: nx.append((s, vs + [None]))
                outs = nx
            r = []
            self.depth += 1
            for s, vs in outs:
                keep = {k: v for k, v in s.env.items() if not isinstance(k, tuple)}
                t = s.copy(); t.env = {k: v for k, v in s.env.items() if isinstance(k, tuple)}
                for p, v in zip(fn.params, vs):
                    if v is not None: t.env[p[1]] = v
                for rv, u in self.run(fn.body, t):
                    u = u.copy(); u.env = {k: v for k, v in u.env.items() if isinstance(k, tuple)}; u.env.update(keep)
                    r.append((rv, u))
            self.depth -= 1
            return r
        raise Und('call of %s' % n)
    # --- statements
    def run(self, body, S):
        """[(returned value or None, state)]"""
        fall, ret = self.st(body, [S])
        return ret + [(None, s) for s in fall]
    def st(self, b, cur):
        if b is None: return cur, []
        k = b[0]; ret = []
        if k == 'blk':
            for x in b[1]:
                if not cur: break
                cur, r = self.st(x, cur); ret += r
            return cur, ret
        if len(cur) > 4000: raise Und('too many paths')
        nxt = []
        for S in cur:
            if k == 'ds':
                ss = [S]
                for d in b[1]:
                    n2 = []
                    for s in ss:
                        if d[0] != 'decl': n2.append(s); continue
                        if d[6] is None: n2.append(s); continue
                        for v, t in self.ev(s, d[6]):
                            t = t.copy()
                            if v is not None: t.env[d[3]] = v
                            n2.append(t)
                    ss = n2
                nxt += ss
            elif k == 'ex': nxt += [s for _, s in self.ev(S, b[2])]
            elif k == 'ret': ret += self.ev(S, b[2]) if b[2] is not None else [(None, S)]
            elif k == 'if':
                if b[2] is not None: raise Und('declaration in a condition')
                for t, s in self.cond(S, b[3]):
                    f, r = self.st(b[4] if t else b[5], [s])
                    nxt += f; ret += r
            elif k in ('null', 'td', 'nop'): nxt.append(S)
            else: raise Und('statement %s' % k)
        return nxt, ret

def value(p, env):
    r = Fraction(0)
    for m, c in p.d.items():
        t = Fraction(c)
        for a, e in m: t *= Fraction(env[a]) ** e
        r += t
    return r
def decide(S, p, strict=()):
    """True if p >= 0 follows; otherwise an instance (text); raises Und"""
    z = {a for f in S.ge for m in f.d for a, e in m if len(f.d) == 1 and len(m) == 1 and f.d[m] < 0}      # -x >= 0: x is zero
    if z:
        S = S.copy()
        for a in z:
            S.ge = [f.subst(a, ZERO) for f in S.ge]; S.gt = [f.subst(a, ZERO) for f in S.gt]; p = p.subst(a, ZERO)
            S.defs = [(q, x.subst(a, ZERO), y.subst(a, ZERO)) for q, x, y in S.defs]
    atoms = sorted({a for f in S.ge + [p] for a in f.atoms()}, key=repr)
    cand = list(S.ge)
    sy = [Poly({((a, 1),): 1}) for a in atoms]
    for f in S.ge:
        if len(f.d) <= 3: cand += [f * a for a in sy]
    cand += [f * g for f in S.ge for g in S.ge if len(f.d) <= 2 and len(g.d) <= 2]
    for d in (1, 2, 3, 4):
        if _prove(p, cand, d): return True
    rnd = random.Random(5)
    base = [a for a in atoms]
    dq = {next(iter(q.atoms())): (x, y) for q, x, y in S.defs}
    for _ in range(20000):
        env = {}
        big = rnd.choice([30, 100, 1000])
        for a in {b for f in S.ge + [p] + [z for q, x, y in S.defs for z in (x, y)] for b in f.atoms()}:
            if a in dq: continue
            n = atom_of(a)
            env[a] = big if n in ('M', 'LIM') else 10 ** 9 if n == 'INF' else rnd.choice([1, 2, 3, 4, 7, 12])
        ok = True
        for q, x, y in S.defs:
            yv = value(y, env)
            if yv <= 0: ok = False; break
            env[next(iter(q.atoms()))] = value(x, env) // yv
        if not ok or any(env[a] < 0 for a in dq): continue
        if any(value(f, env) < 0 for f in S.ge) or any(value(f, env) <= 0 for f in S.gt) or any(value(f, env) <= 0 for f in strict): continue
        if value(p, env) < 0: return ', '.join('%s=%s' % (atom_of(a), env[a]) for a in sorted(env, key=repr))
    raise Und('no proof and no instance')

A_ = lambda n: Poly.sym(n)
def helper_env(S, o=('m',)):
    for X in 'ABC':
        S.env[o + (X + 'min',)] = -A_('n' + X); S.env[o + (X + 'max',)] = A_('p' + X)
    S.env[o + ('FieldMin',)] = -A_('nF'); S.env[o + ('FieldMax',)] = A_('pF'); S.env[o + ('MaxStorableValue',)] = A_('M')
    S.env[o + ('Outmin',)] = -A_('nO'); S.env[o + ('Outmax',)] = A_('pO')
def feasible(S): return not any(_prove(-f, S.ge + [g * Poly({((a, 1),): 1}) for g in S.ge for a in g.atoms()], 3) for f in S.gt)
class Res(object):
    def __init__(self): self.bad = []; self.und = []; self.paths = 0; self.obl = 0
    def need(self, S, p, what):
        self.obl += 1
        try: w = decide(S, p)
        except Und as e: self.und.append('%s: %s' % (what, e)); return
        if w is not True: self.bad.append('%s [e.g. %s]' % (what, w))
def max_delayed(prog, f, R):
    for sg in (1, -1):
        E = SEval(prog, {}); S = St(); helper_env(S)
        S.env[f.params[0][1]] = A_('b').scale(sg)
        for v, s in E.run(f.body, S):
            R.paths += 1
            if not isinstance(v, Poly): raise Und('returned value')
            if v.iszero() or not feasible(s): continue
            for xa in ('nA', 'pA'):
                for xb in ('nB', 'pB'):
                    for xc in ('nC', 'pC'):
                        R.need(s, A_('M') - v * A_(xa) * A_(xb) - A_('b') * A_(xc), 'with %s the delay %r lets %s*%s products and the output %s exceed the largest storable value' % ('beta >= 0' if sg > 0 else 'beta <= 0', v, xa, xb, xc))
def out_bounds(prog, f, R):
    if len(f.params) != 3: raise Und('signature')
    for sa in (1, -1):
        for sb in (1, -1):
            E = SEval(prog, {}); S = St(); helper_env(S)
            k, al, be = A_('k'), A_('a').scale(sa), A_('b').scale(sb)
            for p, v in zip(f.params, (k, al, be)): S.env[p[1]] = v
            for v, s in E.run(f.body, S):
                if not feasible(s): continue
                R.paths += 1
                lo, hi = s.env[('m', 'Outmin')], s.env[('m', 'Outmax')]
                if not isinstance(lo, Poly) or not isinstance(hi, Poly): raise Und('bounds')
                for c in (-A_('nC'), A_('pC')):
                    for ab in (A_('nA') * A_('nB'), A_('pA') * A_('pB'), -(A_('nA') * A_('pB')), -(A_('pA') * A_('nB'))):
                        x = be * c + k * al * ab
                        t = ' for alpha %s 0 and beta %s 0' % ('>=' if sa > 0 else '<=', '>=' if sb > 0 else '<=')
                        R.need(s, x - lo, 'Outmin is larger than the value %r' % x + t)
                        R.need(s, hi - x, 'Outmax is smaller than the value %r' % x + t)
def init_x(prog, f, R):
    X = f.name[4:]
    E = SEval(prog, {}); S = St(); helper_env(S)
    for v, s in E.run(f.body, S):
        R.paths += 1
        R.need(s, -A_('nF') - s.env[('m', X + 'min')], '%smin does not cover the reduced elements' % X)
        R.need(s, s.env[('m', X + 'max')] - A_('pF'), '%smax does not cover the reduced elements' % X)
        for Y in ('A', 'B', 'C', 'Out'):
            if Y == X: continue
            y = Y if Y != 'Out' else 'O'
            R.need(s, -A_('n' + y) - s.env[('m', Y + 'min')], '%smin changed' % Y); R.need(s, s.env[('m', Y + 'max')] - A_('p' + y), '%smax changed' % Y)
def min_t(prog, f, R):
    E = SEval(prog, {}); S = St(); S.env[f.params[0][1]] = A_('k')
    for v, s in E.run(f.body, S):
        R.paths += 1
        R.need(s, A_('k') - v, 'the result exceeds the argument')
class CEval(SEval):
    """constructors: fields of a source helper, extreme elements of the field"""
    def ev(self, S, e):
        if e[0] == 'mem' and strip_(e[2])[0] == 'v' and ('o', e[1]) in S.env: return [(S.env[('o', e[1])], S)]
        return SEval.ev(self, S, e)
    def call(self, S, c, args, obj):
        n = nm(c)
        if n == 'minElement': return [(-A_('nF'), S)]
        if n == 'maxElement': return [(A_('pF'), S)]
        if n == 'max' and not args and 'numeric_limits' not in c.get('q', ''): return [(A_('M'), S)]
        return SEval.call(self, S, c, args, obj)
def ctor(prog, f, R):
    inits = f.d.get('inits') or []
    names = {i[0] for i in inits}
    if not {'Amin', 'Bmax', 'FieldMin'} <= names: return False
    E = CEval(prog, {}); S = St()
    src = [p for p in f.params if 'MMHelper' in p[2]]
    if src:
        t = St(); helper_env(t, ('o',)); S.env.update(t.env)
    want = {}
    nums = [p for p in f.params if 'Par' not in p[2] and 'Sequential' not in p[2] and not p[2].startswith('const') and 'Helper' not in p[2]]
    if not src and len(nums) == 7:
        for p, n in zip(nums[1:], ('Amin', 'Amax', 'Bmin', 'Bmax', 'Cmin', 'Cmax')):
            S.env[p[1]] = -A_('n' + n[0]) if n.endswith('min') else A_('p' + n[0])
            want[n] = n[0]
    for n in ('Amin', 'Amax', 'Bmin', 'Bmax', 'Cmin', 'Cmax'): want.setdefault(n, n[0] if src else 'F')
    want['FieldMin'] = want['FieldMax'] = 'F'
    if src: want['Outmin'] = want['Outmax'] = 'O'
    cur = [S]
    for i in inits:
        nx = []
        for s in cur:
            if i[0] not in want and i[0] != 'MaxStorableValue': nx.append(s); continue
            for v, t in E.ev(s, i[1]):
                t = t.copy(); t.env[('m', i[0])] = v; nx.append(t)
        cur = nx
    for s in cur:
        for v, u in E.run(f.body or ['blk', []], s):
            R.paths += 1
            for n, x in want.items():
                g = u.env.get(('m', n))
                if not isinstance(g, Poly): raise Und('field %s' % n)
                if n.lower().endswith('min'): R.need(u, -A_('n' + x) - g, '%s is initialised above the lower bound it stands for' % n)
                else: R.need(u, g - A_('p' + x), '%s is initialised below the upper bound it stands for' % n)
            g = u.env.get(('m', 'MaxStorableValue'))
            if not isinstance(g, Poly): raise Und('field MaxStorableValue')
            R.need(u, A_('M') - g, 'MaxStorableValue is initialised above the largest storable value')
def dot_bound(prog, f, R):
    bal = 'ModularBalanced<double' in f.params[0][2] or 'ModularBalanced<float' in f.params[0][2]
    if 'RNS' in f.params[0][2] or 'Givaro::Modular' not in f.params[0][2]: return False
    c = A_('c')
    for sg in (1, -1):
        E = SEval(prog, {'p': c.scale(2) + 1 if bal else c + 1}); S = St()
        S.env[f.params[1][1]] = A_('b').scale(sg)
        S.ge.append(c - 1)
        for v, s in E.run(f.body, S):
            R.paths += 1
            if not isinstance(v, Poly): raise Und('returned value')
            if (v.isconst() and v.cval() <= 1) or not feasible(s) or any(x.d == {((next(iter(A_('INF').atoms())), 1),): 1} for x in [v]): continue
            pr = {k[1]: t for k, t in s.pred.items()}
            cb = ZERO if pr.get('isZero') else P(1) if pr.get('isOne') or pr.get('isMOne') else A_('b')
            R.need(s, A_('LIM') + 1 - v * c * c - cb * c, 'sums of %r products with the output exceed the largest storable value' % v)
SC = {'MaxDelayedDim': max_delayed, 'setOutBounds': out_bounds, 'initA': init_x, 'initB': init_x, 'initC': init_x, 'initOut': init_x, 'min_types': min_t, 'MMHelper': ctor, 'DotProdBoundClassic': dot_bound}
def scalar_checks(prog, per=3):
    """[(function, Res)]"""
    seen = {}; out = []
    for f in prog.fns:
        h = SC.get(f.name)
        if h is None or f.dep or 'fflas_helpers' not in f.file and 'fflas_bounds' not in f.file: continue
        k = (f.file, f.line, f.name)
        if seen.get(k, 0) >= per: continue
        if 'rint' in str(f.params) : continue
        R = Res()
        try:
            if h(prog, f, R) is False: continue
        except Und as e: R.und.append(str(e))
        except Exception as e: R.und.append('internal: %r' % e)
        seen[k] = seen.get(k, 0) + 1
        out.append((f, R))
    return out
