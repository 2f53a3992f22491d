"""Element-wise kernels: dataflow analysis of one generic element.

Every loop of an element-wise routine is summarised by one generic iteration t: the counters are v0 + t*d, the
iteration writes a run of consecutive elements of the output, and the value written is a case-partitioned affine
term over the inputs of the same element, the modulus p, the bounds min and max of the representatives and
quotient symbols.  Obligations: the loops of each path visit 0, 1, 2, ... n-1 in order; each value is congruent
to its definition modulo p and lies between min and max.  Linear facts are decided by elimination with integer
tightening; an obligation that fails is reported only with a small concrete instance, otherwise it is undecided."""
import itertools, re
from math import gcd
from alg import Poly, P, ZERO, ONE, atom_of, aid, Undecided

SMALLW = 1 << 64

class Bad(Exception): pass
class Prune(Exception): pass

# ---------------------------------------------------------------- linear reasoning over monomials
def lin(p): return dict(p.d)
def tighten(c):
    g = 0
    for m, v in c.items():
        if m != (): g = gcd(g, abs(int(v)))
    if g > 1:
        k = c.get((), 0)
        c = {m: v // g for m, v in c.items() if m != ()}
        k2 = k // g          # floor: sum >= -k  ->  sum/g >= ceil(-k/g) = -floor(k/g)
        if k2: c[()] = k2
    return c
def integral(c):
    from fractions import Fraction
    d = 1
    for v in c.values():
        if isinstance(v, Fraction): d = d * v.denominator // gcd(d, v.denominator)
    return {m: int(v * d) for m, v in c.items()}
def infeasible(cons, limit=400):
    """True when the conjunction of p >= 0 has no integer solution (sound, incomplete)"""
    cs = set()
    for p in cons:
        c = tighten(integral(lin(p)))
        if not any(m != () for m in c):
            if c.get((), 0) < 0: return True
            continue
        cs.add(tuple(sorted(c.items())))
    for _ in range(40):
        if not cs: return False
        cnt = {}
        for c in cs:
            for m, v in c:
                if m == (): continue
                a = cnt.setdefault(m, [0, 0]); a[v < 0] += 1
        if not cnt: return False
        m = min(cnt, key=lambda x: cnt[x][0] * cnt[x][1])
        pos = [dict(c) for c in cs if dict(c).get(m, 0) > 0]; neg = [dict(c) for c in cs if dict(c).get(m, 0) < 0]
        rest = {c for c in cs if dict(c).get(m, 0) == 0}
        for a in pos:
            for b in neg:
                x, y = a[m], -b[m]
                r = {}
                for k, v in a.items(): r[k] = r.get(k, 0) + y * v
                for k, v in b.items(): r[k] = r.get(k, 0) + x * v
                r = {k: v for k, v in r.items() if v}
                r = tighten(r)
                if not any(k != () for k in r):
                    if r.get((), 0) < 0: return True
                    continue
                rest.add(tuple(sorted(r.items())))
        if len(rest) > limit: return False
        cs = rest
    return False

def evalp(p, env):
    s = 0
    for m, c in p.d.items():
        v = c
        for a, e in m: v = v * env[a] ** e
        s += v
    return s

# ---------------------------------------------------------------- values
class Cell(object):
    __slots__ = ('v',)
    def __init__(self, v=None): self.v = v
class Mem(object):      # lvalue in an array
    __slots__ = ('b', 'off')
    def __init__(self, b, off): self.b = b; self.off = off
class Ptr(object):
    __slots__ = ('b', 'off')
    def __init__(self, b, off): self.b = b; self.off = off
class Vec(object):      # a vector register: the value of one generic lane
    __slots__ = ('p',)
    def __init__(self, p): self.p = p
class LaneOf(object):   # one particular lane of a vector register
    __slots__ = ('p', 'k')
    def __init__(self, p, k): self.p = p; self.k = k
class Mask(object):
    __slots__ = ('b',)
    def __init__(self, b): self.b = b
class Rec(object):
    __slots__ = ('f', 'tag')
    def __init__(self, tag=''): self.f = {}; self.tag = tag
class Unk(object): pass
UNK = Unk()
class Ret(Exception):
    def __init__(self, v): self.v = v
class Brk(Exception): pass
class Cont(Exception): pass
LANE = 'lane'

class Lane(object):
    def __init__(self, prog, fn, spec):
        self.prog = prog; self.fn = fn; self.spec = spec
        self.line = fn.line
        self.msgs = []; self.nob = 0; self.npath = 0; self.nit = 0; self.depth = 0
        self.kinds = {}         # atom -> sampling kind
        self.fresh_n = 0
    # ---- decisions
    def decide(self, key=None):
        i = self.pos; self.pos += 1
        if i < len(self.dec): return self.dec[i]
        self.dec.append(True); return True
    def explore(self, run):
        """run() under every sequence of decisions"""
        old = getattr(self, 'dec', None), getattr(self, 'pos', 0)
        self.dec = []; n = 0
        try:
            while True:
                self.pos = 0
                n += 1
                if n > 4000: raise Undecided('too many paths')
                try: run()
                except Prune: pass
                del self.dec[self.pos:]
                while self.dec and not self.dec[-1]: self.dec.pop()
                if not self.dec: break
                self.dec[-1] = False
        finally:
            self.dec, self.pos = old
    def sym(self, name, kind):
        self.fresh_n += 1
        a = ('z', name, self.fresh_n)
        self.kinds[aid(a)] = kind
        return Poly.sym(a)
    # ---- facts
    def assume(self, p):
        self.facts.append(p)
    def prove(self, p):
        if p.isconst(): return p.cval() >= 0
        return infeasible(self.facts + [-p - 1])
    def cmp(self, op, a, b):
        """truth of a op b on integers, forking when it is open"""
        if op == '==':
            if (a - b).iszero(): return True
            if self.prove(a - b - 1) or self.prove(b - a - 1): return False
            if self.prove(a - b) and self.prove(b - a): return True
            if self.decide():
                self.assume(a - b); self.assume(b - a)
                self.check_feasible(); self.equate(a, b); return True
            if self.prove(a - b): self.assume(a - b - 1)
            elif self.prove(b - a): self.assume(b - a - 1)
            self.neq.append(a - b)
            return False
        if op == '!=': return not self.cmp('==', a, b)
        if op == '>': return self.cmp('<', b, a)
        if op == '<=': return not self.cmp('<', b, a)
        if op == '>=': return not self.cmp('<', a, b)
        d = b - a - 1           # a < b  <=>  d >= 0
        if self.prove(d): return True
        if self.prove(-d - 1): return False
        if self.decide(): self.assume(d); return True
        self.assume(-d - 1); return False
    def equate(self, a, b):
        for x, y in ((a, b), (b, a)):
            if len(x.d) == 1 and len(x.atoms()) == 1 and list(x.d.values()) == [1] and sum(e for m in x.d for _, e in m) == 1:
                i = next(iter(x.atoms()))
                at = atom_of(i)
                if i in (aid('p'), aid('mx')) or (isinstance(at, tuple) and at[0] != 'z') or i in y.atoms(): continue
                self.eq = [(j, z.subst(i, y)) for j, z in self.eq] + [(i, y)]
                self.facts = [self.norm(f) for f in self.facts]
                self.bounded = set()
                return
    def norm(self, p):
        for i, y in self.eq: p = p.subst(i, y)
        return p
    def nv(self, v):
        if not self.eq: return v
        if isinstance(v, Poly): return self.norm(v)
        if isinstance(v, Ptr): return Ptr(v.b, self.norm(v.off))
        if isinstance(v, Vec): return Vec(self.norm(v.p))
        return v
    def check_feasible(self):
        if infeasible(self.facts): raise Prune()
    # ---- memory
    def load(self, b, off):
        if b in self.view: b, k = self.view[b]; off = off * k
        if b in self.dead: raise Undecided('read of an array overwritten in this iteration')
        for o, v in self.mem.get(b, ()):
            if (o - off).iszero(): return v
        for o, v in self.mem.get(b, ()):
            pass
        return self.initial(b, off)
    def initial(self, b, off):
        off = self.norm(off)
        a = ('x', b, off)
        i = aid(a)
        if i not in self.kinds:
            k = self.spec.inputs.get(b, 'any')
            self.kinds[i] = k
        s = Poly.sym(a)
        if self.kinds[i] == 'canon' and i not in self.bounded:
            self.bounded.add(i)
            self.assume(s - self.mn); self.assume(self.mx - s)
        return s
    def store(self, b, off, v):
        if not isinstance(v, (Poly,)): raise Undecided('value of another kind stored')
        if b in self.view:
            self.pending.add(b); b, k = self.view[b]; off = off * k
        elif b.startswith('tmp'): raise Undecided('write to a temporary')
        l = self.mem.setdefault(b, [])
        for k, (o, w) in enumerate(l):
            if (o - off).iszero(): l[k] = (o, v); return
        l.append((off, v))
    # ---- variables
    def var(self, vid):
        c = self.env.get(vid)
        if c is None:
            c = self.env[vid] = Cell(UNK)
        return c
    def get(self, c):
        if isinstance(c, Cell): return self.nv(c.v)
        if isinstance(c, Mem): return self.load(c.b, c.off)
        raise Undecided('lvalue')
    def put(self, c, v):
        if isinstance(c, Cell):
            self.log.append(c) if self.log is not None else None
            c.v = v
        elif isinstance(c, Mem): self.store(c.b, c.off, v)
        else: raise Undecided('lvalue')
    # ---- expressions
    def lval(self, e):
        k = e[0]
        if k == 'v': 
            c = self.var(e[2])
            return c
        if k == 'idx':
            b, i = self.ev(e[2]), self.ev(e[3])
            if isinstance(b, Ptr) and isinstance(i, Poly): return Mem(b.b, b.off + i)
            if isinstance(b, Vec) and isinstance(i, Poly) and i.isconst(): return Cell(LaneOf(b.p, int(i.cval())))
            raise Undecided('subscript')
        if k == 'un' and e[2] == '*':
            b = self.ev(e[3])
            if isinstance(b, Ptr): return Mem(b.b, b.off)
            raise Undecided('dereference')
        if k == 'un' and e[2] in ('++', '--'):
            c = self.lval(e[3]); self.put(c, self.addi(self.get(c), ONE if e[2] == '++' else -ONE)); return c
        if k == 'mem':
            o = self.obj(e[2])
            if isinstance(o, Rec): return o.f.setdefault(e[1], Cell(UNK))
            raise Undecided('member')
        if k in ('cast', 'ic'): return self.lval(e[-1])
        if k == 'asg':
            self.ev(e); return self.lval(e[3])
        if k == 'par': return self.lval(e[-1])
        if k in ('call', 'mcall', 'op', 'cond', 'ctor', 'darg', 'tmp'):
            return Cell(self.ev(e))
        return Cell(self.ev(e))
    def obj(self, e):
        if e[0] == 'this': return self.this
        v = self.ev(e)
        return v
    def addi(self, a, d):
        if isinstance(a, Ptr): return Ptr(a.b, a.off + d)
        if isinstance(a, Poly): return a + d
        raise Undecided('increment')
    def ev(self, e):
        if e is None: return UNK
        m = getattr(self, 'e_' + e[0], None)
        if m is None: raise Undecided('expression ' + e[0])
        return m(e)
    def e_v(self, e): return self.get(self.var(e[2]))
    def e_i(self, e): return P(e[1])
    def e_kg(self, e): return P(int(e[2]))
    def e_b(self, e): return bool(e[1])
    def e_f(self, e):
        try:
            x = float(e[1])
        except Exception: raise Undecided('literal')
        if x == int(x): return P(int(x))
        raise Undecided('literal')
    def e_szof(self, e): return P(int(e[1]))
    def e_null(self, e): return UNK
    def e_en(self, e): return P(int(e[2]))
    def e_this(self, e): return self.this
    def e_darg(self, e): return self.ev(e[1])
    def e_zero(self, e): return ZERO
    def e_g(self, e): return UNK
    def e_par(self, e): return self.ev(e[-1])
    def e_init(self, e):
        return self.ev(e[-1][0]) if e[-1] else ZERO
    def conv(self, v, t):
        if isinstance(v, bool) and t not in ('bool',): return ONE if v else ZERO
        if t == 'bool' and isinstance(v, Poly): return self.truth(v)
        if isinstance(v, Ptr) and ('long' in t or 'int' in t) and '*' not in t:
            return self.named(('addr', v.b, v.off), 'nat')
        return v
    def named(self, key, kind):
        i = aid(key)
        if i not in self.kinds: self.kinds[i] = kind
        return Poly.sym(key)
    def e_ic(self, e): return self.conv(self.ev(e[3]), e[1])
    def e_cast(self, e): return self.conv(self.ev(e[5]), e[3])
    def truth(self, v):
        if isinstance(v, bool): return v
        if isinstance(v, Poly): return not self.cmp('==', v, ZERO)
        raise Undecided('condition')
    def e_un(self, e):
        op = e[2]
        if op in ('++', '--'):
            c = self.lval(e[3]); v = self.addi(self.get(c), ONE if op == '++' else -ONE); self.put(c, v); return v
        if op in ('++post', '--post'):
            c = self.lval(e[3]); v = self.get(c); self.put(c, self.addi(v, ONE if op[0] == '+' else -ONE)); return v
        if op == '*': return self.get(self.lval(e))
        v = self.ev(e[3])
        if op == '!': return not self.truth(v)
        if op == '-':
            if isinstance(v, Vec): return Vec(-v.p)
            if isinstance(v, Poly): return -v
        if op == '+': return v
        raise Undecided('operator ' + op)
    def e_bin(self, e):
        op = e[2]
        if op == ',': self.ev(e[3]); return self.ev(e[4])
        if op == '&&': return self.truth(self.ev(e[3])) and self.truth(self.ev(e[4]))
        if op == '||': return self.truth(self.ev(e[3])) or self.truth(self.ev(e[4]))
        a, b = self.ev(e[3]), self.ev(e[4])
        return self.arith(op, a, b, e)
    def arith(self, op, a, b, e=None):
        if isinstance(a, bool) and isinstance(b, bool) and op in ('&', '|'): return (a and b) if op == '&' else (a or b)
        if isinstance(a, bool): a = ONE if a else ZERO
        if isinstance(b, bool): b = ONE if b else ZERO
        if isinstance(a, Ptr) and isinstance(b, Poly) and op in '+-': return Ptr(a.b, a.off + (b if op == '+' else -b))
        if isinstance(a, Poly) and isinstance(b, Ptr) and op == '+': return Ptr(b.b, b.off + a)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.b == b.b:
            if op == '-': return a.off - b.off
            return self.cmp_s(op, a.off, b.off)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and op in ('==', '!='):
            return op == '!='          # distinct operands; the aliased case is a specification of its own
        if not (isinstance(a, Poly) and isinstance(b, Poly)): raise Undecided('operands of ' + op)
        if op == '+': return a + b
        if op == '-':
            if e is not None and self.unsigned(e[3]) and self.unsigned(e[4]) and not self.elementy(a - b):
                if not self.cmp('<', a, b): return a - b
                return a - b + P(SMALLW)
            return a - b
        if op == '*': return a * b
        if op == '/':
            if a.isconst() and b.isconst() and b.cval() > 0: return P(int(a.cval()) // int(b.cval()))
            if a == ONE and (b - self.p).iszero(): return self.inv
            raise Undecided('division')
        if op == '%':
            if b.isconst() and b.cval() > 0:
                if a.isconst(): return P(int(a.cval()) % int(b.cval()))
                r = self.named(('mod', a, b), 'nat')
                self.assume(r); self.assume(b - 1 - r)
                return r
            if (b - self.p).iszero(): return self.trem(a)
            raise Undecided('remainder')
        if op in ('<', '>', '<=', '>=', '==', '!='): return self.cmp_s(op, a, b)
        if op == '<<' and a.isconst() and b.isconst(): return P(int(a.cval()) << int(b.cval()))
        if op == '>>' and b.isconst(): return self.sra(a, int(b.cval()))
        if op == '&': return self.andv(a, b)
        raise Undecided('operator ' + op)
    def cmp_s(self, op, a, b):
        d = a - b
        # a common positive factor (increment)
        if not d.iszero():
            for s in self.pos_syms:
                q = divsym(d, s)
                if q is not None: return self.cmp(op, q, ZERO)
        return self.cmp(op, a, b)
    def sra(self, a, k):
        if a.isconst(): return P(int(a.cval()) >> k)
        return self.named(('hi', a, k), 'any')
    def andv(self, a, b):
        for x, y in ((a, b), (b, a)):
            if y.isconst():
                m = int(y.cval())
                if m > 0 and (m & (m + 1)) == 0:
                    k = m.bit_length()
                    return x - P(1 << k) * self.sra(x, k)
        raise Undecided('bitwise and')
    def trem(self, a):
        q = self.sym('q', 'any')
        r = a - q * self.p
        self.assume(self.p - 1 - r); self.assume(r + self.p - 1)
        return r
    def floorq(self, x):
        """floor of a quotient computed in floating point: the remainder may be off by a small amount"""
        for m in x.d:
            if not any(a == self.inv_id for a, ex in m): raise Undecided('floor')
        a = divsym(x, self.inv_id)
        if a is None: raise Undecided('floor')
        q = self.sym('q', 'any')
        self.assume(a - q * self.p + self.slack); self.assume(self.p + self.slack - (a - q * self.p))
        return q
    def elementy(self, p):
        return any(isinstance(atom_of(a), tuple) and atom_of(a)[0] in ('x', 'z') and self.kinds.get(a) in ('any', 'canon') for a in p.atoms())
    def unsigned(self, e):
        t = self.etype(e)
        return t is not None and 'unsigned' in t
    def etype(self, e):
        if e[0] in ('ic',): return e[1]
        if e[0] == 'cast': return e[3]
        if e[0] == 'v': return self.types.get(e[2])
        if e[0] == 'kg': return 'unsigned long'
        if e[0] == 'bin': return self.etype(e[3])
        if e[0] == 'szof': return 'unsigned long'
        if e[0] == 'par': return self.etype(e[-1])
        return None
    def e_asg(self, e):
        op = e[2]
        if op == '=':
            v = self.ev(e[4]); c = self.lval(e[3]); self.put(c, v); return v
        c = self.lval(e[3])
        v = self.ev(e[4]); o = self.get(c)
        if isinstance(o, bool) and isinstance(v, Poly) and v.isconst(): v = not v.iszero()
        r = self.arith(op[:-1], o, v)
        if isinstance(o, bool) and isinstance(r, Poly) and r.isconst(): r = not r.iszero()
        self.put(c, r); return r
    def e_cond(self, e):
        c = self.truth(self.ev(e[3]))
        return self.ev(e[4] if c else e[5])
    def e_idx(self, e): return self.get(self.lval(e))
    def e_mem(self, e):
        o = self.obj(e[2])
        if isinstance(o, Rec):
            if o.tag == 'field':
                return self.field_const(e[1])
            if e[1] == 't' and 'Converter' in o.tag and 'v' in o.f: return self.get(o.f['v'])
            return self.get(o.f.setdefault(e[1], Cell(UNK)))
        raise Undecided('member')
    def field_const(self, n):
        if n == 'one': return ONE
        if n == 'zero': return ZERO
        if n == 'mOne':
            return -ONE if not self.mn.iszero() or not self.modular else self.p - 1
        raise Undecided('field member ' + n)
    def e_ctor(self, e):
        t, args = e[2], e[4]
        if e[5] and args: return self.ev(args[0])
        if len(args) == 1 and re.match(r'^(const )?(double|float|u?int\d*_t|(unsigned )?(long|int))', t): return self.ev(args[0])
        ci = e[3]
        r = Rec(t)
        fn = self.prog.by_id.get((ci or {}).get('i'))
        if fn is not None and fn.body is not None and not fn.dep:
            self.inline(fn, args, r)
        else:
            for a in args: self.ev(a)
        return r
    def e_op(self, e):
        op = e[2]; a = e[4]
        if op == '[]':
            return self.ev(['idx', e[1], a[0], a[1]])
        if op == '=' and len(a) == 2: return self.ev(['asg', e[1], '=', a[0], a[1]])
        if op in ('+=', '-=', '*=') and len(a) == 2: return self.ev(['asg', e[1], op, a[0], a[1]])
        if op in ('+', '-', '*') and len(a) == 2: return self.arith(op, self.ev(a[0]), self.ev(a[1]))
        if op == '-' and len(a) == 1: return self.ev(['un', e[1], '-', a[0]])
        raise Undecided('operator ' + op)
    def e_call(self, e):
        ln = self.line = e[1] or self.line
        ci = e[2] or {}
        q = ci.get('q', ''); name = q.split('::')[-1] if '<' not in q.split('::')[-1] else q.rsplit('::', 1)[-1]
        name = re.sub(r'<.*', '', name)
        args = e[3]
        if re.match(r'^(Simd\d+|NoSimd|SimdChooser|Simd)', q): return self.simd(e, name, args, q)
        if name.startswith('_mm'): return self.intrin(name, args)
        if name in ('floor', 'floorf'): return self.floorq(self.ev(args[0]))
        if name in ('fmod', 'fmodf'):
            a, b = self.ev(args[0]), self.ev(args[1])
            if isinstance(b, Poly) and (b - self.p).iszero(): return self.trem(a)
            raise Undecided('fmod')
        if name in ('move', 'forward'): return self.ev(args[0])
        if name in ('min', 'max') and q.startswith('std::'):
            a, b = self.ev(args[0]), self.ev(args[1])
            lt = self.cmp('<', a, b)
            return (a if lt else b) if name == 'min' else (b if lt else a)
        if name.startswith('__assert') or name in ('abort', 'exit'): raise Prune()
        h = self.spec.calls.get(name)
        if h: return h(self, e, args)
        fn = self.prog.by_id.get(ci.get('i'))
        if fn is None or fn.dep: raise Undecided('call of ' + name)
        return self.inline(fn, args, None)
    def inline(self, fn, args, this):
        if self.depth > 12: raise Undecided('depth')
        ps = fn.params
        env = {}; types = {}
        for i, p in enumerate(ps):
            types[p[1]] = p[2]
            if i < len(args):
                t = p[2]
                if t.rstrip().endswith('&') and not t.startswith('const '):
                    c = self.lval(args[i])
                    env[p[1]] = c
                else:
                    v = self.ev(args[i])
                    if t.rstrip().endswith('&'): env[p[1]] = Cell(v)
                    else: env[p[1]] = Cell(self.conv(v, t))
        sv = self.env, self.types, self.this, self.line
        self.env, self.types = env, types
        self.this = this
        self.depth += 1
        try:
            for nm, x, _ in fn.d.get('inits') or ():
                if nm.startswith('base:'):
                    b = self.prog.by_id.get((x[3] or {}).get('i')) if x[0] == 'ctor' else None
                    if b is not None and not b.dep: self.inline(b, x[4], this)
                    elif x[0] == 'ctor' and x[4]: raise Undecided('base constructor')
                else: this.f.setdefault(nm, Cell()).v = self.ev(x)
            self.st(fn.body)
            r = UNK
        except Ret as x: r = x.v
        finally:
            self.env, self.types, self.this, self.line = sv
            self.depth -= 1
        return r
    # ---- vector wrappers: effect on one lane
    def vp(self, v):
        if isinstance(v, Vec): return v.p
        if isinstance(v, Poly): return v
        raise Undecided('vector operand')
    def simd(self, e, name, args, q):
        if name in ('load', 'loadu'):
            p = self.ev(args[0])
            if not isinstance(p, Ptr): raise Undecided('load')
            self.width_of(q)
            return Vec(self.load(p.b, p.off + self.lane))
        if name in ('store', 'storeu', 'stream'):
            p, v = self.ev(args[0]), self.ev(args[1])
            if not isinstance(p, Ptr): raise Undecided('store')
            self.vec_store = self.width_of(q)
            self.store(p.b, p.off + self.lane, self.vp(v)); return UNK
        if name == 'set1': return Vec(self.vp(self.ev(args[0])))
        if name == 'zero': return Vec(ZERO)
        if name in ('mod', 'fmaddin', 'fnmaddin', 'fmsubin', 'addin', 'subin', 'mulin'):
            fn = self.prog.by_id.get((e[2] or {}).get('i'))
            if fn is not None and not fn.dep: return self.inline(fn, args, None)
        vs = [self.ev(a) for a in args]
        if name in ('add', 'sub', 'mul', 'mullo'):
            a, b = self.vp(vs[0]), self.vp(vs[1])
            return Vec(a + b if name == 'add' else a - b if name == 'sub' else a * b)
        if name in ('fmadd', 'fmaddx'): return Vec(self.vp(vs[0]) + self.vp(vs[1]) * self.vp(vs[2]))
        if name == 'fmsub': return Vec(self.vp(vs[1]) * self.vp(vs[2]) - self.vp(vs[0]))
        if name == 'fnmadd': return Vec(self.vp(vs[0]) - self.vp(vs[1]) * self.vp(vs[2]))
        if name in ('greater', 'lesser', 'greater_eq', 'lesser_eq', 'eq'):
            op = {'greater': '>', 'lesser': '<', 'greater_eq': '>=', 'lesser_eq': '<=', 'eq': '=='}[name]
            return Mask(self.cmp(op, self.vp(vs[0]), self.vp(vs[1])))
        if name == 'vand':
            for x, y in ((vs[0], vs[1]), (vs[1], vs[0])):
                if isinstance(x, Mask):
                    if not x.b: return Vec(ZERO) if not isinstance(y, Mask) else Mask(False)
                    return y
            return Vec(self.andv(self.vp(vs[0]), self.vp(vs[1])))
        if name == 'vandnot':
            # (not a) and b
            if isinstance(vs[0], Mask): return vs[1] if not vs[0].b else Vec(ZERO)
            raise Undecided('vandnot')
        if name == 'vor':
            if all(isinstance(x, Mask) for x in vs): return Mask(vs[0].b or vs[1].b)
            a, b = self.vp(vs[0]), self.vp(vs[1])
            if a.iszero(): return Vec(b)
            if b.iszero(): return Vec(a)
            self.check_feasible()
            raise Undecided('vor')
        if name == 'set': return self.gather(vs)
        if name == 'floor': return Vec(self.floorq(self.vp(vs[0])))
        if name == 'blendv' and isinstance(vs[2], Mask): return vs[1] if vs[2].b else vs[0]
        if name in ('sra',):
            m = re.search(r'\d+', (e[2] or {}).get('t', ''))
            if m: return Vec(self.sra(self.vp(vs[0]), int(m.group(0))))
        fn = self.prog.by_id.get((e[2] or {}).get('i'))
        raise Undecided('vector operation ' + name)
    def intrin(self, name, args):
        if re.search(r'cvt(epi64|epi32|pd|ps)_(epi64|epi32|pd|ps)$', name): return self.ev(args[0])
        m = re.match(r'_mm(\d*)_(set|setr)_(pd|ps|epi64x|epi32|epi64)$', name)
        if m: return self.gather([self.ev(a) for a in args][::(-1 if m.group(2) == 'set' else 1)])
        if re.match(r'_mm\d*_storeu?_(pd|ps)$', name):
            v = self.ev(args[1]); c = self.lval(args[0])
            if isinstance(c, Cell) and isinstance(v, Vec) and not isinstance(c.v, Ptr):
                self.put(c, v); return UNK
        raise Undecided('intrinsic ' + name)
    def gather(self, vs):
        """rebuild a register from its lanes"""
        if vs and all(isinstance(v, LaneOf) for v in vs):
            for k, v in enumerate(vs):
                if v.k != k: raise Bad('line %s: lane %d of the register is filled from lane %d' % (self.line, k, v.k))
                if not (v.p - vs[0].p).iszero(): raise Undecided('lanes of different registers')
            return Vec(vs[0].p)
        raise Undecided('lanes')
    def width_of(self, q):
        m = re.match(r'^Simd(\d+)_impl<[^>]*, (\d+)>', q)
        if not m: raise Undecided('vector width')
        w = int(m.group(1)) // 8 // int(m.group(2))
        self.assume(self.lane); self.assume(P(w - 1) - self.lane)
        self.lane_w = w
        return w
    # ---- field operations
    def e_mcall(self, e):
        self.line = e[1] or self.line
        q = (e[2] or {}).get('q', ''); name = re.sub(r'<.*', '', q.rsplit('::', 1)[-1])
        args = e[4]
        if e[3] is None: raise Undecided('method ' + name)
        o = self.obj(e[3])
        if isinstance(o, Rec) and o.tag == 'field': return self.field(name, args)
        fn = self.prog.by_id.get((e[2] or {}).get('i'))
        if fn is not None and not fn.dep and isinstance(o, Rec): return self.inline(fn, args, o)
        raise Undecided('method ' + name)
    def canon(self, v):
        """a reduced representative congruent to v"""
        q = self.sym('q', 'any')
        r = v - q * self.p
        self.assume(r - self.mn); self.assume(self.mx - r)
        return r
    def field(self, name, args):
        if name in ('characteristic', 'cardinality', 'residu') and not args: return self.p
        if name == 'minElement': return self.mn
        if name == 'maxElement': return self.mx
        if name in ('isZero', 'isOne', 'isMOne'):
            v = self.ev(args[0])
            c = {'isZero': ZERO, 'isOne': ONE, 'isMOne': self.field_const('mOne')}[name]
            return self.feq(v, c)
        if not args: raise Undecided('field method ' + name)
        if name == 'areEqual': return self.feq(self.ev(args[0]), self.ev(args[1]))
        vs = [self.ev(a) for a in args[1:]]
        if not all(isinstance(x, Poly) for x in vs): raise Undecided('field operand')
        c = self.lval(args[0])
        def cur(): return self.get(c)
        if name == 'add': r = vs[0] + vs[1]
        elif name == 'sub': r = vs[0] - vs[1]
        elif name == 'mul': r = vs[0] * vs[1]
        elif name == 'neg': r = -vs[0]
        elif name == 'negin': r = -cur()
        elif name == 'axpy': r = vs[0] * vs[1] + vs[2]
        elif name == 'axpyin': r = cur() + vs[0] * vs[1]
        elif name == 'maxpyin': r = cur() - vs[0] * vs[1]
        elif name == 'axmyin': r = vs[0] * vs[1] - cur()
        elif name == 'addin': r = cur() + vs[0]
        elif name == 'subin': r = cur() - vs[0]
        elif name == 'mulin': r = cur() * vs[0]
        elif name in ('init', 'reduce'): r = vs[0] if vs else (cur() if name == 'reduce' else ZERO)
        elif name == 'assign':
            self.put(c, vs[0]); return vs[0]
        elif name == 'convert':
            self.put(c, vs[0]); return vs[0]
        else: raise Undecided('field operation ' + name)
        if not self.spec.reduced: pass
        r = self.canon(r) if self.modular else r
        self.put(c, r); return r
    def feq(self, a, b):
        d = a - b
        if d.iszero(): return True
        if self.prove(d - 1) or self.prove(-d - 1): return False
        if self.decide():
            self.assume(d); self.assume(-d)
            self.check_feasible(); self.equate(a, b); return True
        self.neq.append(d)
        return False
    # ---- statements
    def st(self, s):
        if s is None: return
        m = getattr(self, 's_' + s[0], None)
        if m is None: raise Undecided('statement ' + s[0])
        m(s)
    def s_nop(self, s): pass
    def s_blk(self, s):
        for x in s[1]: self.st(x)
    def s_ds(self, s):
        for d in s[1]:
            if not d or d[0] != 'decl': continue
            self.line = d[1]
            vid, t, init = d[3], d[4], d[6]
            self.types[vid] = t
            if t.rstrip().endswith('&') and init is not None: self.env[vid] = self.lval(init); continue
            v = UNK if init is None else self.ev(init)
            if init is not None: v = self.conv(v, t)
            if v is UNK and ('HelperMod' in t or 'Converter' in t): v = Rec(t)
            self.env[vid] = Cell(v)
            if self.log is not None: self.local.add(id(self.env[vid])); self.keep.append(self.env[vid])
    def s_ex(self, s):
        self.line = s[1]; self.ev(s[2])
    def s_ret(self, s):
        self.line = s[1]
        raise Ret(self.ev(s[2]) if s[2] is not None else UNK)
    def s_if(self, s):
        self.line = s[1]
        if s[2]: 
            if isinstance(s[2], list): self.st(s[2])
        c = self.truth(self.ev(s[3]))
        if c: self.st(s[4])
        elif s[5] is not None: self.st(s[5])
    def s_brk(self, s): raise Brk()
    def s_cont(self, s): raise Cont()
    def s_for(self, s):
        self.line = s[1]
        if s[2] is not None: self.st(s[2])
        self.loop(s[3], s[4], s[5], s[1])
    def s_while(self, s): self.loop(s[3], None, s[4], s[1])
    def s_omp(self, s): raise Undecided('parallel construct')
    # ---- loops
    def body_once(self, body, inc):
        try: self.st(body)
        except Cont: pass
        if inc is not None: self.ev(inc)
    def loop(self, cond, inc, body, line):
        if self.inloop: raise Undecided('nested loop')
        # counters: cells assigned in the loop and not declared in it
        base_facts = list(self.facts); base_mem = {b: list(l) for b, l in self.mem.items()}
        if any(self.mem.values()): raise Undecided('memory written before a loop')
        cells = {}
        def walk_cells():
            seen = {}
            for c in self.env.values():
                if isinstance(c, Cell): seen[id(c)] = c
            return seen
        pre = walk_cells()
        snap = {i: c.v for i, c in pre.items()}
        eq0 = list(self.eq); envs = dict(self.env); types = dict(self.types); bd = set(self.bounded)
        def restore():
            self.env.clear(); self.env.update(envs); self.types.clear(); self.types.update(types)
            for i, c in pre.items(): c.v = snap[i]
            self.facts = list(base_facts); self.eq = list(eq0); self.mem = {}; self.bounded = set(bd); self.neq = []
        # trial iteration: which cells change, and by how much
        self.inloop = True
        trial = {}
        def run_trial():
            restore()
            self.log = []; self.local = set(); self.keep = []
            fresh = {}
            for i, c in pre.items():
                if isinstance(c.v, Poly): fresh[i] = self.sym('v', 'nat'); c.v = fresh[i]; 
                elif isinstance(c.v, Ptr): fresh[i] = self.sym('v', 'nat'); c.v = Ptr(c.v.b, fresh[i])
            # values not modified by the loop keep their value: second pass below
            self.trialing = True
            raise Prune()
        # modified cells, by a run with the entry values
        mod = set(); flags = set()
        pred = self.spec.pred
        def run_mod():
            restore()
            self.log = []; self.local = set(); self.keep = []
            try:
                if cond is not None and not self.truth(self.ev(cond)): return
                try: self.body_once(body, inc)
                except Ret:
                    if not pred: raise
            finally:
                for c in self.log:
                    if id(c) in pre: mod.add(id(c))
                    if id(c) in pre and snap[id(c)] is True: flags.add(id(c))
        try:
            old_n = self.nob
            self.quiet = True
            self.explore(run_mod)
            deltas = {}
            def run_delta():
                restore()
                self.log = []; self.local = set(); self.keep = []
                fr = {}
                for i in mod:
                    c = pre[i]
                    if isinstance(c.v, Poly) and self.index_cell(c, i): fr[i] = self.sym('v', 'nat'); c.v = fr[i]
                    elif isinstance(c.v, Ptr): fr[i] = self.sym('v', 'nat'); c.v = Ptr(c.v.b, fr[i])
                    elif i in flags: c.v = self.decide()
                    else: c.v = UNK
                if cond is not None and not self.truth(self.ev(cond)): raise Prune()
                try: self.body_once(body, inc)
                except Ret:
                    if pred: raise Prune()
                    raise
                for i, x in fr.items():
                    v = pre[i].v
                    nv = v.off if isinstance(v, Ptr) else v
                    if not isinstance(nv, Poly): deltas[i] = None; continue
                    d = nv - x
                    if any(self.kinds.get(a) == 'nat' and isinstance(atom_of(a), tuple) and atom_of(a)[0] == 'z' and atom_of(a)[1] == 'v' for a in d.atoms()): d = None
                    if i in deltas and (deltas[i] is None or d is None or deltas[i] != d): deltas[i] = None
                    else: deltas[i] = d
            if mod: self.explore(run_delta)
            for i, d in deltas.items():
                if d is None: raise Undecided('counter without a constant step')
        finally:
            self.quiet = False
        t = self.sym('t', 'nat')
        def at(k):
            for i in mod:
                c = pre[i]; v0 = snap[i]
                d = deltas.get(i)
                if d is None: c.v = UNK
                elif isinstance(v0, Ptr): c.v = Ptr(v0.b, v0.off + k * d)
                else: c.v = v0 + k * d
        W = []
        def run_iter():
            restore()
            self.log = []; self.local = set(); self.keep = []
            at(t); self.assume(t)
            self.vec_store = 0; self.lane_w = 0
            b0 = True
            for i in flags:
                pre[i].v = self.decide(); b0 = b0 and pre[i].v
            if cond is not None and not self.truth(self.ev(cond)): raise Prune()
            if infeasible(self.facts): raise Prune()
            try: self.body_once(body, inc)
            except Ret as r:
                if not pred: raise
                if r.v is not False: raise Undecided('value returned within the loop')
                if b0: self.pred_check(t, False, line)
                raise Prune()
            self.nit += 1
            for i, d in deltas.items():
                v = pre[i].v
                nv = v.off if isinstance(v, Ptr) else v
                v0 = snap[i].off if isinstance(snap[i], Ptr) else snap[i]
                if not (nv - v0 - (t + 1) * d).iszero(): raise Undecided('counter step')
            if pred:
                if len(flags) > 1: raise Undecided('several flags')
                for i in flags:
                    if not isinstance(pre[i].v, bool): raise Undecided('flag')
                    if not b0:
                        if pre[i].v: raise Bad('line %s: the answer found so far is forgotten' % line)
                    else: self.pred_check(t, pre[i].v, line)
                if not flags: self.pred_check(t, True, line)
                W.append(1)
            else: W.append(self.iteration(t, line))
        self.explore(run_iter)
        ws = set(w for w in W)
        restore()
        self.inloop = False
        self.log = None
        if len(ws) > 1: raise Undecided('iterations of different width')
        tau = self.sym('n', 'nat')
        at(tau); self.assume(tau)
        for i in flags:
            pre[i].v = self.decide()
            if not pre[i].v: self.failed = True
        w = ws.pop() if ws else 0
        self.done = self.done + tau * w
        if cond is not None and self.truth(self.ev(cond)): raise Prune()
        if infeasible(self.facts): raise Prune()
    def pred_check(self, t, res, line):
        """the outcome of one comparison agrees with the definition"""
        e = self.done + t
        self.nob += 1
        d = self.norm(self.spec.want(self, e))
        if res:
            if d.iszero() or (self.prove(d) and self.prove(-d)): return
            self.fail(line, 'reports equal although %r may differ from 0' % d, 'ne', d)
        else:
            for x in self.neq:
                x = self.norm(x)
                if (x - d).iszero() or (x + d).iszero(): return
            self.assume(d); self.assume(-d)
            self.fail(line, 'reports different although %r may be 0' % d, None, None)
    def stride(self, b): return self.norm(self.spec.strides[b])
    def index_cell(self, c, i):
        return not self.elementy(c.v)
    def iteration(self, t, line):
        """writes of one generic iteration; returns the number of elements processed"""
        out = self.spec.out
        for b in self.mem:
            if b != out and self.mem[b]: raise Undecided('other array written')
        ws = self.mem.get(out, [])
        if not ws: return 0
        s = self.stride(out)
        self.done = self.norm(self.done); t = self.norm(t)
        if self.vec_store:
            if len(ws) != 1: raise Undecided('several vector stores')
            w = self.vec_store
        else: w = len(ws)
        ks = []
        for off, v in ws:
            off = self.norm(off)
            e = off if s == ONE else divpoly(off, s)
            if e is None: self.fail(line, 'written at a place that is not the next element of the vector', 'neq', off - s * (self.done + t * w + (self.lane if self.vec_store else ZERO)))
            k = e - (self.done + t * w)
            if self.vec_store: k = k - self.lane
            if not k.isconst():
                self.facts.append(t - 1)
                if infeasible(self.facts): raise Undecided('position')
                if not (set(off.atoms()) & set(t.atoms())): self.fail(line, 'the loop processes the same element again', None, None)
                if self.prove(-off - 1): self.fail(line, 'the loop leaves the array downwards', None, None)
                raise Undecided('position')
            ks.append(int(k.cval()))
        k0 = min(ks)
        if sorted(ks) != list(range(k0, k0 + len(ks))): raise Undecided('positions')
        if k0 != 0: self.fail(line, 'starts at element %+d relative to the first unprocessed one' % k0, None, None)
        # in bounds
        top = self.done + t * w + P(w)
        self.goal(self.norm(self.n) - top, line, 'writes beyond the last element')
        for (off, v), k in zip(ws, ks):
            e = self.done + t * w + P(k) + (self.lane if self.vec_store else ZERO)
            want = self.spec.want(self, e)
            v = self.norm(v)
            d = v - self.norm(want)
            if self.modular: d = self.modp(d)
            self.nob += 1
            if not d.iszero():
                self.fail(line, 'element value differs from its definition by %r' % d, 'ne', d)
            if self.spec.reduced and self.modular:
                self.goal(v - self.mn, line, 'result below the smallest representative')
                self.goal(self.mx - v, line, 'result above the largest representative')
        return w
    def modp(self, d):
        # p = 0, and 2^50 mod p = 2^50
        d = d.subst(aid('p'), ZERO)
        for a in list(d.atoms()):
            at = atom_of(a)
            if isinstance(at, tuple) and at[0] == 'mod' : pass
        return d
    def goal(self, p, line, text):
        self.nob += 1
        if self.prove(p): return
        if self.prove_prod(p): return
        self.fail(line, text, 'lt', p)
    def prove_prod(self, p):
        """with the products x*(y-1) >= 0 of the non-linear terms x*y of the facts"""
        ex = []
        for f in list(self.facts):
            for m in f.d:
                if len(m) != 2 or any(e != 1 for _, e in m): continue
                for (x, _), (y, _) in (m, m[::-1]):
                    X, Y = Poly({((x, 1),): 1}), Poly({((y, 1),): 1})
                    q = X * (Y - 1)
                    if q not in ex and self.prove(X) and self.prove(Y - 1): ex.append(q)
        if not ex: return False
        save = self.facts
        self.facts = list(save) + ex
        try: return self.prove(p)
        finally: self.facts = save
    def fail(self, line, text, kind, need):
        if infeasible(self.facts): raise Prune()
        w = self.witness(kind, need)
        if w is None: raise Undecided('%s (line %s): no instance found' % (text, line))
        raise Bad('line %s: %s [e.g. %s]' % (line, text, w))
    def witness(self, kind, need):
        """a small assignment satisfying all facts; polynomials in need: """
        ats = set()
        self.wkind = kind
        for p in self.facts + ([need] if need is not None else []): ats |= set(p.atoms())
        ats.discard(aid('p'))
        order = sorted(ats, key=lambda a: (0 if self.kinds.get(a) == 'canon' else 1, a))
        for pv in (3, 5, 2, 7, 11, 4, 9):
            if self.balanced:
                mx = pv // 2; mn = mx - pv + 1
            else: mn, mx = 0, pv - 1
            env = {aid('p'): pv}
            free = []
            for a in order:
                if a == aid('mn'): env[a] = mn
                elif a == aid('mx'): env[a] = mx
                elif a == aid('slack'): env[a] = 0
                else: free.append(a)
            r = self.search(env, free, need, pv, mn, mx, [0])
            if r: return ', '.join('%s=%s' % (self.aname(a), v) for a, v in r.items() if v is not None)[:300]
        return None
    def aname(self, a):
        x = atom_of(a)
        if isinstance(x, tuple):
            if x[0] == 'x': return '%s[%r]' % (x[1], x[2])
            return '%s%s' % (x[1] if isinstance(x[1], str) else x[0], x[2] if isinstance(x[2], int) else '')
        return str(x)
    def search(self, env, free, need, pv, mn, mx, cnt):
        cnt[0] += 1
        if cnt[0] > 60000: return None
        for p in self.facts:
            if p.atoms() <= set(env):
                if evalp(p, env) < 0: return None
        if not free:
            for x in self.neq:
                if x.atoms() <= set(env) and evalp(x, env) == 0: return None
            if need is not None:
                v = evalp(need, env)
                if self.wkind == 'lt':
                    if v >= 0: return None
                elif self.wkind == 'neq':
                    if v == 0: return None
                elif (v % pv == 0) if self.modular else v == 0: return None
            return dict(env)
        a = free[0]
        k = self.kinds.get(a, 'any')
        if k == 'canon': dom = list(range(mn, mx + 1))
        elif k == 'nat': dom = [0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 32, 33, 40]
        elif k == 'pos': dom = [1, 2, 3]
        elif k == 'big': dom = [SMALLW]
        else: dom = sorted(range(-3 * pv, 3 * pv + 1), key=abs)
        for v in dom:
            env[a] = v
            r = self.search(env, free[1:], need, pv, mn, mx, cnt)
            if r: return r
        del env[a]
        return None
    # ---- top level
    def init(self):
        self.facts = []; self.mem = {}; self.dead = set(); self.bounded = set(); self.eq = []
        self.env = {}; self.types = {}; self.this = Rec('this'); self.log = None; self.inloop = False; self.done = ZERO
        self.local = set(); self.keep = []; self.quiet = False; self.view = {}; self.pending = set()
        self.vec_store = 0; self.lane_w = 0; self.depth = 0; self.neq = []; self.failed = False
        self.p = Poly.sym('p'); self.inv = Poly.sym('invp'); self.inv_id = aid('invp')
        self.slack = Poly.sym('slack'); self.kinds[aid('slack')] = 'nat'; self.kinds[self.inv_id] = 'pos'
        self.lane = Poly.sym(LANE); self.kinds[aid(LANE)] = 'nat'
        self.balanced = self.spec.balanced; self.modular = self.spec.modular
        self.assume(self.p - 2); self.assume(self.slack); self.assume(self.p - 1 - self.slack * 2)
        if self.balanced:
            self.mx = Poly.sym('mx'); self.mn = self.mx - self.p + 1
            self.kinds[aid('mx')] = 'any'
            self.assume(self.p - self.mx * 2); self.assume(self.mx * 2 - self.p + 1)
        else:
            self.mn = ZERO; self.mx = self.p - 1
        self.pos_syms = []
        self.spec.bind(self)
    def run(self):
        status = 'ok'
        def path():
            self.init()
            self.npath += 1
            rv = UNK
            try: self.st(self.fn.body)
            except Ret as r: rv = r.v
            if self.spec.pred:
                if infeasible(self.facts): raise Prune()
                self.nob += 1
                if not isinstance(rv, bool): raise Undecided('returned value')
                if rv:
                    if self.failed: raise Bad('line %s: a difference that was found is not reported' % self.line)
                    self.goal(self.norm(self.done) - self.norm(self.n), self.line, 'elements are left uncompared')
                elif not self.failed: raise Bad('line %s: reports a difference without having found one' % self.line)
                return
            if infeasible(self.facts): raise Prune()
            if self.spec.noop(self): return
            if self.pending:
                self.assume(self.n - 1)
                self.fail(self.line, 'the result is left in a temporary copy', None, None)
            self.goal(self.norm(self.done) - self.norm(self.n), self.line, 'elements are left unprocessed')
        und = []
        def guarded():
            try: path()
            except Undecided as x:
                u = 'line %s: %s' % (self.line, x)
                if u not in und: und.append(u)
                raise Prune()
        try: self.explore(guarded)
        except Undecided as x: und.append('line %s: %s' % (self.line, x))
        except Bad as x: return 'viol', [str(x)]
        return ('undec', und[:3]) if und else ('ok', [])

def divsym(p, a):
    """p / symbol when every monomial contains it"""
    r = {}
    for m, c in p.d.items():
        d = dict(m)
        if a not in d: return None
        d[a] -= 1
        if not d[a]: del d[a]
        r[tuple(sorted(d.items()))] = c
    return Poly(r)
def divpoly(p, s):
    if p.iszero(): return ZERO
    a = next(iter(s.atoms()))
    return divsym(p, a)

# ---------------------------------------------------------------- bulk operations on whole vectors
def vecarg(I, p, inc):
    if not isinstance(p, Ptr) or not isinstance(inc, Poly): raise Undecided('vector argument')
    return p, inc
def bulk(I, n, p, inc, value):
    """out[e] <- value(e) for all e < n"""
    if not (n - I.n).iszero(): raise Undecided('length')
    if any(I.mem.values()): raise Undecided('memory')
    if not I.done.iszero(): raise Undecided('second pass')
    b = p.b; k = inc
    if b in I.view:
        I.pending.add(b); b, k2 = I.view[b]; k = k * k2
    if b != I.spec.out or not p.off.iszero(): raise Undecided('destination')
    s = I.stride(b)
    if not (s - k).iszero(): 
        I.fail(I.line, 'the result is written with another increment', None, None)
    fx = list(I.facts)
    t = I.sym('e', 'nat')
    I.assume(t); I.assume(I.n - 1 - t)
    if not infeasible(I.facts):
        I.mem = {b: [(t * s, value(t))]}
        d0 = I.done
        I.done = ZERO
        I.vec_store = 0
        I.iteration(t, I.line)
        I.done = d0
    I.mem = {}; I.facts = fx
    I.done = I.n
def el(I, p, inc, e): return I.load(p.b, p.off + e * inc)
def c_new(I, e, args):
    I.fresh_n += 1
    return Ptr('tmp%d' % I.fresh_n, ZERO)
def c_nop(I, e, args): return UNK
def ns(I, args): return [I.ev(a) for a in args]
def c_assign(I, e, args):
    v = ns(I, args)
    if len(v) != 6: raise Undecided('fassign')
    F, n, X, ix, Y, iy = v
    if not (isinstance(X, Ptr) and isinstance(Y, Ptr) and X.off.iszero() and Y.off.iszero()): raise Undecided('fassign')
    if not (n - I.n).iszero(): raise Undecided('length')
    if Y.b.startswith('tmp') and Y.b not in I.view:
        if iy != ONE: raise Undecided('temporary')
        if X.b.startswith('tmp'): raise Undecided('temporary')
        if not (ix - I.stride(X.b)).iszero(): I.fail(I.line, '%s is copied with another increment' % X.b, None, None)
        I.view[Y.b] = (X.b, ix); return UNK
    if X.b in I.view and I.view[X.b][0] == Y.b:
        if not (iy - I.stride(Y.b)).iszero(): I.fail(I.line, '%s is written with another increment' % Y.b, None, None)
        I.pending.discard(X.b); return UNK
    bulk(I, n, Y, iy, lambda t: el(I, X, ix, t)); return UNK
def c_neg(I, e, args):
    F, n, X, ix, Y, iy = ns(I, args)
    bulk(I, n, Y, iy, lambda t: I.canon(-el(I, X, ix, t)) if I.modular else -el(I, X, ix, t)); return UNK
def c_negin(I, e, args):
    F, n, Y, iy = ns(I, args)
    bulk(I, n, Y, iy, lambda t: I.canon(-el(I, Y, iy, t)) if I.modular else -el(I, Y, iy, t)); return UNK
def c_zero(I, e, args):
    F, n, Y, iy = ns(I, args)
    bulk(I, n, Y, iy, lambda t: ZERO); return UNK
def c_addin(sg):
    def h(I, e, args):
        v = ns(I, args)
        F, n, X, ix, Y, iy = v[:6]
        bulk(I, n, Y, iy, lambda t: (I.canon if I.modular else (lambda z: z))(el(I, Y, iy, t) + el(I, X, ix, t) * P(sg))); return UNK
    return h
def c_equal(I, e, args):
    v = ns(I, args)
    cols = Poly.sym('cols')
    if not I.spec.pred or 'cols' not in I.spec.roles: raise Undecided('fequal')
    F, n, X, ix = v[:4]
    if not (n - cols).iszero() or ix != ONE or (len(v) > 4 and v[5] != ONE): raise Undecided('rows')
    x = I.load(X.b, X.off)
    return I.feq(x, I.load(v[4].b, v[4].off) if len(v) > 4 else ZERO)
def c_copy(I, e, args):
    n, X, ix, Y, iy = ns(I, args)
    bulk(I, n, Y, iy, lambda t: el(I, X, ix, t)); return UNK
def c_scal(I, e, args):
    n, a, Y, iy = ns(I, args)
    bulk(I, n, Y, iy, lambda t: a * el(I, Y, iy, t)); return UNK
def c_axpy(I, e, args):
    n, a, X, ix, Y, iy = ns(I, args)
    bulk(I, n, Y, iy, lambda t: a * el(I, X, ix, t) + el(I, Y, iy, t)); return UNK
CALLS = {'openblas_set_num_threads': c_nop, 'cblas_dcopy': c_copy, 'cblas_scopy': c_copy, 'cblas_dscal': c_scal, 'cblas_sscal': c_scal,
         'cblas_daxpy': c_axpy, 'cblas_saxpy': c_axpy, 'fequal': c_equal, 'fiszero': c_equal,
         'fflas_new': c_new, 'fflas_delete': c_nop, 'fassign': c_assign, 'fneg': c_neg, 'fnegin': c_negin, 'fzero': c_zero, 'faddin': c_addin(1), 'fsubin': c_addin(-1)}

class Spec(object):
    """roles: tuple of parameter roles; want(I, e)"""
    calls = CALLS
    pred = False
    def __init__(self, roles, want, out, balanced, modular, reduced, inputs):
        self.roles = roles; self._want = want; self.out = out; self.balanced = balanced; self.modular = modular; self.reduced = reduced
        self.inputs = inputs; self.strides = {}
    def noop(self, I):
        """nothing was written, and nothing had to be"""
        if not I.done.iszero(): return False
        e = I.sym('e', 'nat')
        d = I.norm(self.want(I, e)) - I.initial(self.out, e * I.stride(self.out))
        return (I.modp(d) if I.modular else d).iszero()
    def bind(self, I):
        I.n = Poly.sym('n'); I.kinds[aid('n')] = 'nat'; I.assume(I.n)
        last = None
        for p, r in zip(I.fn.params, self.roles):
            I.types[p[1]] = p[2]
            if r == 'F': v = Rec('field')
            elif r == 'n': v = I.n
            elif r == 'cols': v = Poly.sym('cols'); I.kinds[aid('cols')] = 'nat'; I.assume(v)
            elif r == 'p': v = I.p
            elif r == 'min': v = I.mn
            elif r == 'max': v = I.mx
            elif r == 'a':
                v = Poly.sym('alpha'); I.kinds[aid('alpha')] = 'canon'
                if I.modular: I.assume(v - I.mn); I.assume(I.mx - v)
            elif r == '_': v = UNK
            elif r.startswith('inc'):
                s = 'inc' + r[3:]
                v = Poly.sym(s); I.kinds[aid(s)] = 'pos'; I.assume(v - 1); I.pos_syms.append(aid(s))
            else:
                v = Ptr(r, ZERO)
            I.env[p[1]] = Cell(v)
        arrs = [r for r in self.roles if r in ('A', 'B', 'C')]
        for r in arrs:
            self.strides[r] = ONE
            for q in self.roles:
                if q.startswith('inc') and r in q[3:]: self.strides[r] = Poly.sym('inc' + q[3:])
    def want(self, I, e):
        def x(b): return I.initial(b, e * I.stride(b))
        return self._want(I, x)
