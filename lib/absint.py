"""Block-value abstract interpretation of routine bodies.

Sizes, strides and offsets are polynomials in symbolic sizes, pointers are (object, offset), the
content of a matrix object is a set of disjoint rectangular cells holding noncommutative polynomials
in blocks of the operands' initial values.  Library routines called from a body are replaced by their
specification; helpers without a specification are inlined.  One abstract run covers all sizes,
strides and operand values; branches on options are enumerated, undecidable branches are both taken
and joined when they leave the same abstract state."""
import re
from alg import *
from witness import *
from core import walk

class Viol(Exception):
    def __init__(self, kind, msg, line=None):
        Exception.__init__(self, msg); self.kind = kind; self.msg = msg; self.line = line
RES = 'rns:residue'       # index of the generic residue of a multi-modular representation
RNSIZE = 'rns:size'
def rstride(o): return Poly.sym(('sgn', 'rns:stride:%s' % (o,)))
class ResScal(object):
    """the residues of a scalar"""
    __slots__ = ('p',)
    def __init__(self, p): self.p = p
class Infeasible(Exception):
    pass

class Top(object):
    def __repr__(self): return 'TOP'
TOP = Top()
class Free(object):
    """a number the analysis does not interpret (bounds, characteristics); equal terms are equal numbers"""
    __slots__ = ('t', 'modp')
    def __init__(self, t, modp=False): self.t = t; self.modp = modp
    def __eq__(self, o): return isinstance(o, Free) and self.t == o.t
    def __hash__(self): return hash(('F', self.t))
    def __repr__(self): return 'Free%r' % (self.t,)
class Scal(object):
    __slots__ = ('p',)
    def __init__(self, p): self.p = P(p)
    def __eq__(self, o): return isinstance(o, Scal) and self.p == o.p
    def __hash__(self): return hash(('S', self.p))
    def __repr__(self): return 'S(%r)' % self.p
class Ptr(object):
    __slots__ = ('o', 'off')
    def __init__(self, o, off): self.o = o; self.off = P(off)
    def __eq__(self, x): return isinstance(x, Ptr) and self.o == x.o and self.off == x.off
    def __hash__(self): return hash(('P', self.o, self.off))
    def __repr__(self): return '&%s+%r' % (self.o, self.off)
class En(object):
    __slots__ = ('n', 'v')
    def __init__(self, n, v): self.n = n.split('::')[-1]; self.v = int(v)
    def __eq__(self, x): return isinstance(x, En) and self.v == x.v
    def __hash__(self): return hash(('E', self.v))
    def __repr__(self): return self.n
class Rec(object):
    __slots__ = ('p',)
    def __init__(self, p): self.p = p
    def __eq__(self, x): return isinstance(x, Rec) and self.p == x.p
    def __hash__(self): return hash(('R', self.p))
    def __repr__(self): return 'Rec(%s)' % (self.p,)
class Ref(object):
    __slots__ = ('l',)
    def __init__(self, l): self.l = l
    def __eq__(self, x): return isinstance(x, Ref) and self.l == x.l
    def __hash__(self): return hash(('ref', self.l))
    def __repr__(self): return 'Ref%r' % (self.l,)
class Lam(object):
    __slots__ = ('node', 'fr')
    def __init__(self, node, fr): self.node = node; self.fr = fr
    def __eq__(self, x): return isinstance(x, Lam) and self.node is x.node and self.fr == x.fr
    def __hash__(self): return hash(('L', id(self.node)))

class Obj(object):
    __slots__ = ('name', 'ld', 'kind', 'dflt', 'cells', 'vec', 'const', 'hint')
    # dflt: 'in' initial value, 'undef', 'zero'
    def __init__(self, name, ld, kind, dflt, cells=(), vec=False, const=False, hint=None):
        self.hint = hint; self.name = name; self.ld = ld; self.kind = kind; self.dflt = dflt; self.cells = cells; self.vec = vec; self.const = const
    def key(self): return (self.name, self.ld, self.dflt, frozenset(self.cells))
    def but(self, **kw):
        d = dict(name=self.name, ld=self.ld, kind=self.kind, dflt=self.dflt, cells=self.cells, vec=self.vec, const=self.const, hint=self.hint)
        d.update(kw); return Obj(**d)

INT = re.compile(r'^(const )?(volatile )?(unsigned|signed|size_t|int|long|short|char|bool|u?int\d+_t|std::size_t|ptrdiff_t|index_t|FFLAS::index_t|uint|Givaro::u?int\d+_t)\b[^*]*$')
FLT = re.compile(r'^(const )?(double|float|long double)\b[^*]*$')
def tclass(t):
    t = t.replace('&', '').strip()
    if re.search(r'\brns_double_elt_(cst)?ptr$', t.replace(' const', '')): return 'ptr'
    if t.endswith('*') or t.endswith('*const') or t.endswith('* const') or t.endswith('*__restrict'): return 'ptr'
    if FLT.match(t): return 'flt'
    if INT.match(t): return 'int'
    return 'rec'
def ptr_elem(t):
    t = t.replace('&', '').replace('const', '').strip()
    return t.rstrip('*').strip()

import itertools as _it
JOIN = _it.count()
ANYF = ('anyfree',)
class State(object):
    __slots__ = ('env', 'objs', 'flds', 'facts', 'neq', 'ret', 'tasks', 'cur', 'log', 'conds', 'taint')
    def __init__(self):
        self.env = {}; self.objs = {}; self.flds = {}; self.facts = Facts(); self.neq = frozenset(); self.ret = None
        self.tasks = (); self.cur = None; self.log = None; self.conds = frozenset(); self.taint = False
    def copy(self):
        s = State()
        s.env = dict(self.env); s.objs = dict(self.objs); s.flds = dict(self.flds); s.facts = self.facts.copy(); s.neq = self.neq
        s.ret = self.ret; s.tasks = self.tasks; s.cur = self.cur; s.log = list(self.log) if self.log is not None else None
        s.conds = self.conds; s.taint = self.taint
        return s
    def become(self, o):
        for a in State.__slots__: setattr(self, a, getattr(o, a))
    def key(self):
        e = frozenset((k, ANYF if type(v) is Free and not v.modp else v) for k, v in self.env.items())
        f = frozenset((k, v) for k, v in self.flds.items() if not (type(v) is Free and not v.modp))
        return (e, frozenset(o.key() for o in self.objs.values()), f, self.ret)
    def join_free(self, o):
        for k, v in o.flds.items():
            if k not in self.flds: self.flds[k] = Free(('join', k, next(JOIN)))
        for a, b in ((self.env, o.env), (self.flds, o.flds)):
            for k, v in a.items():
                if type(v) is Free and not v.modp and v != b.get(k):
                    a[k] = Free(('join', k, next(JOIN)))
    def subst(self, a, p):
        def v(x):
            if isinstance(x, Poly):
                return x.subst(a, p)
            if isinstance(x, Scal): return Scal(x.p.subst(a, p))
            if isinstance(x, Free): return Free(fsub(x.t, a, p), x.modp)
            if isinstance(x, Ptr): return Ptr(x.o, x.off.subst(a, p))
            if isinstance(x, Ref) and x.l[0] == 'mem': return Ref(('mem', v(x.l[1])))
            return x
        self.env = {k: v(x) for k, x in self.env.items()}
        self.flds = {k: v(x) for k, x in self.flds.items()}
        self.ret = v(self.ret)
        no = {}
        for n, o in self.objs.items():
            ld = o.ld.subst(a, p) if o.ld is not None else None
            cells = tuple((r.subst(a, p), c.subst(a, p), nr.subst(a, p), nc.subst(a, p), sub_val(m, a, p)) for r, c, nr, nc, m in o.cells)
            no[n] = o.but(ld=ld, cells=cells, hint=o.hint.subst(a, p) if o.hint is not None else None)
        self.objs = no
        fs = Facts([f.subst(a, p) for f in self.facts.ge]); fs.I = self.facts.I; fs.ns = self.facts.ns; self.facts = fs
        self.neq = frozenset(x.subst(a, p) for x in self.neq)
        for f in self.facts.ge:
            if f.isconst() and f.cval() < 0: raise Infeasible()
        for x in self.neq:
            if x.iszero(): raise Infeasible()
        self.tasks = tuple(t.subst(a, p) for t in self.tasks)
        if self.log is not None: self.log = [(k, o, tuple(x.subst(a, p) for x in rc), ln) for k, o, rc, ln in self.log]

def fsub(t, a, p):
    if isinstance(t, tuple): return tuple(fsub(x, a, p) for x in t)
    if isinstance(t, Poly): return t.subst(a, p)
    if isinstance(t, Scal): return Scal(t.p.subst(a, p))
    if isinstance(t, Free): return Free(fsub(t.t, a, p), t.modp)
    return t

class Packed(object):
    """square cell whose strict upper part, diagonal and strict lower part come from different matrices"""
    __slots__ = ('su', 'd', 'sl')
    def __init__(self, su, d, sl): self.su = su; self.d = d; self.sl = sl
    def __eq__(self, o): return isinstance(o, Packed) and self.su == o.su and self.d == o.d and self.sl == o.sl
    def __hash__(self): return hash((self.su, self.d, self.sl))
    def __repr__(self): return 'Packed(%r|%r|%r)' % (self.su, self.d, self.sl)
def sub_val(m, a, p):
    if isinstance(m, Packed): return Packed(m.su.subst(a, p), m.d.subst(a, p), m.sl.subst(a, p))
    return m.subst(a, p)

class Task(object):
    """outstanding task: footprint, depend clauses"""
    __slots__ = ('id', 'line', 'acc', 'din', 'dout', 'chain', 'shared', 'outer')
    def __init__(self, id, line, acc=(), din=(), dout=(), chain=(), shared=frozenset(), outer=frozenset()):
        self.id = id; self.line = line; self.acc = acc; self.din = din; self.dout = dout
        self.chain = chain      # enclosing tasks, outermost first: (id, din, dout)
        self.shared = shared; self.outer = outer
    def but(self, acc): return Task(self.id, self.line, acc, self.din, self.dout, self.chain, self.shared, self.outer)
    def subst(self, a, p):
        return self.but(tuple((k, o, tuple(x.subst(a, p) for x in rc), ln) for k, o, rc, ln in self.acc))

class Out(object):
    __slots__ = ('n', 'brk', 'cont', 'ret')
    def __init__(self): self.n = []; self.brk = []; self.cont = []; self.ret = []

def strip(e):
    while isinstance(e, list) and e and e[0] in ('ic', 'cast', 'darg'): e = e[-1]
    return e

def cname(ci):
    if not ci: return '?'
    q = ci.get('q', '?')
    if '<' in q: q = re.sub(r'<[^<>]*(<[^<>]*(<[^<>]*>[^<>]*)*>[^<>]*)*>', '', q)
    return q.split('::')[-1]

class Interp(object):
    MAXSTATES = 400
    unroll = 0
    bounded = 0
    in_delayed = False
    MAXDEPTH = 14
    def __init__(self, prog, contracts, noinline=(), on_race=None):
        self.prog = prog; self.C = contracts; self.noinline = set(noinline)
        self.dec = []; self.pos = 0; self.arity = []
        self.fresh = 0
        self.stack = []
        self.line = 0
        self.races = {}
        self.used = set()
        self.nstmt = 0
        self.pure = {}
        self.budget = 10 ** 9
        self.on_race = on_race
    # ---------------------------------------------------------------- decisions
    def choose(self, n=2):
        if self.pos < len(self.dec): v = self.dec[self.pos]
        else:
            v = 0; self.dec.append(0); self.arity.append(n)
        self.pos += 1
        return v
    def variants(self, S, f):
        """run f on copies of S for every decision sequence"""
        save = (self.dec, self.pos, self.arity)
        self.dec = []; self.arity = []
        res = []
        fr = self.fresh
        while True:
            self.pos = 0; self.fresh = fr
            S2 = S.copy()
            try:
                v = f(S2)
                res.append((v, S2))
            except Infeasible:
                pass
            del self.dec[self.pos:]; del self.arity[self.pos:]
            while self.dec and self.dec[-1] + 1 >= self.arity[-1]:
                self.dec.pop(); self.arity.pop()
            if not self.dec: break
            self.dec[-1] += 1
            if len(res) > self.MAXSTATES: raise Undecided('too many variants')
        self.dec, self.pos, self.arity = save
        return res
    # ---------------------------------------------------------------- facts
    def assume_ge(self, S, p):
        if S.facts.nonneg(p): return
        if p.isconst() and p.cval() < 0: raise Infeasible()
        if S.facts.nonneg(-p - 1): raise Infeasible()
        # p >= 0 and -p >= 0 known: equality
        if S.facts.nonneg(-p):
            self.assume_eq(S, p); return
        S.facts.add(p)
    def not_multiple(self, S, d):
        """n is not a multiple of c and n <= c: n < c, the quotient is zero"""
        if len(d.d) != 2: return
        for a in d.atoms():
            at = atom_of(a)
            if isinstance(at, tuple) and at[0] == 'fdiv':
                n, c = P(at[1]), P(at[2])
                if (d == n - c * Poly.sym(at) or d == c * Poly.sym(at) - n) and S.facts.nonneg(c - n):
                    S.facts.add(c - n - 1); S.subst(a, ZERO); return
    def assume_eq(self, S, p):
        if p.isconst():
            if p.cval(): raise Infeasible()
            return
        # a sum of non-negative terms is zero only if every term is
        if len(p.d) > 1:
            for q in (p, -p):
                if all(c > 0 for c in q.d.values()) and not any(is_signed(atom_of(a)) for a in q.atoms()):
                    for m, c in list(q.d.items()):
                        if m == (): raise Infeasible()
                    for m, c in list(q.d.items()):
                        if len(m) == 1 and m[0][1] == 1: self.assume_eq(S, Poly({m: 1}))
                    return
        # n - c*fdiv(n,c) == 0: n is a multiple of c
        if len(p.d) == 2:
            for a in p.atoms():
                at = atom_of(a)
                if isinstance(at, tuple) and at[0] == 'fdiv':
                    n, c = P(at[1]), P(at[2])
                    if p == n - c * Poly.sym(at) or p == c * Poly.sym(at) - n:
                        if len(n.d) == 1 and len(n.atoms()) == 1 and isinstance(atom_of(list(n.atoms())[0]), str) and n == Poly.sym(atom_of(list(n.atoms())[0])):
                            x = list(n.atoms())[0]
                            if not any(contains(y, x) for y in c.atoms()):
                                qn = Poly.sym('quo_' + atom_of(x))
                                S.subst(x, c * qn)
                                if len(c.d) == 1 and S.facts.nonneg(c * qn - 1):
                                    # c quo >= 1: both are positive, and common factors can be removed
                                    S.facts.add(c - 1); S.facts.add(qn - 1)
                                    (cm, cc), = c.d.items()
                                    if cc == 1 and len(cm) == 1 and cm[0][1] == 1:
                                        for g in list(S.facts.ge):
                                            off = g.d.get((), 0)
                                            if off not in (0, -1): continue
                                            r = g - off
                                            if r.isconst() or not all(cm[0] in m for m in r.d): continue
                                            z = Poly({tuple(t for t in m if t != cm[0]): v for m, v in r.d.items()})
                                            S.facts.add(z + off)
                                            if off == 0 and z == ONE - qn:
                                                S.subst(aid('quo_' + atom_of(x)), ONE); return
                                return
        best = None
        for m, c in p.d.items():
            if len(m) == 1 and m[0][1] == 1 and c in (1, -1):
                a = m[0][0]
                if sum(1 for k in p.d if any(contains(x, a) for x, e in k)) > 1: continue
                at = atom_of(a)
                if isinstance(at, tuple) and at[0] not in ('sgn', 'ctr', 'kd', 'fdiv'): continue
                pr = (4 if isinstance(at, tuple) and at[0] == 'fdiv' else 0 if (isinstance(at, str) and at.startswith('ld')) else 1 if isinstance(at, str) and at.startswith('nt') else 2 if isinstance(at, str) else 3, repr(at))
                if best is None or pr < best[0]: best = (pr, a, c)
        if best is None:
            S.facts.add(p); S.facts.add(-p); return
        _, a, c = best
        rest = p - Poly({((a, 1),): c})
        if best[0][0] == 4:
            for f in atom_facts(atom_of(a)): S.facts.add(f)
        S.subst(a, rest.scale(-c))
    splits = 0
    MAXSPLIT = 3
    partial = False
    def split_order(self, facts, d):
        """strict case split d > 0 / d < 0 on a difference of sizes (the case d = 0 is not explored, so
        an analysis that split is never reported as complete)"""
        if not self.splits: return None
        if facts.ns >= self.MAXSPLIT: return None
        for a in d.atoms():
            if not self.plain_atom(a): return None
        if facts.nonneg(d) : r = True
        elif facts.nonneg(-d): r = False
        else: r = not self.choose()
        facts.ns = facts.ns + 1
        self.partial = True
        if facts.nonneg(-d if r else d): raise Infeasible()
        facts.add(d - 1 if r else -d - 1)
        if witness(facts.ge) is None: raise Infeasible()
        return r
    def plain_atom(self, a):
        at = atom_of(a)
        if isinstance(at, str): return not at.startswith('nt')
        if isinstance(at, tuple) and at[0] in ('fdiv', 'min', 'max'):
            return all(self.plain_atom(x) for q in at[1:] for x in P(q).atoms())
        return False
    def viol(self, S, kind, msg, pos=()):
        if S.taint: raise Undecided('tainted')
        w = witness(S.facts.ge, [x for x in S.neq if all(self.plain_atom(a) for a in x.atoms())], pos)
        if w is None: raise Undecided('no witness for: ' + msg)
        raise Viol(kind, msg + ' [e.g. %s]' % wstr_(w), self.line)
    def prove_lt(self, S, a, b): return S.facts.nonneg(b - a - 1)
    def compare(self, S, op, a, b):
        if op == '>': return self.compare(S, '<', b, a)
        if op == '>=':
            r = self.compare(S, '<', a, b); return (not r)
        if op == '<=': return not self.compare(S, '<', b, a)
        if op == '!=': return not self.compare(S, '==', a, b)
        d = b - a
        if op == '<':
            if S.facts.nonneg(d - 1): return True
            if S.facts.nonneg(-d): return False
            if self.choose():
                self.assume_ge(S, -d); return False
            self.assume_ge(S, d - 1); return True
        if op == '==':
            if d.iszero(): return True
            if d.isconst(): return False
            if S.facts.nonneg(d - 1) or S.facts.nonneg(-d - 1): return False
            if d in S.neq or -d in S.neq: return False
            if self.choose():
                S.neq = S.neq | {d}
                if S.facts.nonneg(d): S.facts.add(d - 1)
                elif S.facts.nonneg(-d): S.facts.add(-d - 1)
                self.not_multiple(S, d)
                return False
            self.assume_eq(S, d); return True
        raise Undecided('op ' + op)
    def truth(self, S, v):
        if isinstance(v, bool): return v
        if isinstance(v, Poly): return self.compare(S, '!=', v, ZERO)
        if isinstance(v, En): return v.v != 0
        if isinstance(v, Ptr): return not v.o == 'NULL'
        if isinstance(v, Scal):
            if v.p.isconst(): return v.p.cval() != 0
            return not self.scal_is(S, v, ZERO)
        if isinstance(v, Free): return self.decide(S, ('nz', v))
        S.taint = True
        return bool(self.choose())
    def decide(self, S, key):
        """a condition on uninterpreted numbers: both outcomes, the same one whenever it is asked again"""
        for k, b in S.conds:
            if k == key: return b
        b = bool(self.choose())
        S.conds = S.conds | {(key, b)}
        return b
    def scal_is(self, S, v, c):
        """decide scalar == c, splitting on a symbol"""
        if isinstance(v, Free): return self.decide(S, ('is', v, c))
        if not isinstance(v, Scal):
            S.taint = True
            return bool(self.choose())
        d = v.p - c
        if d.isconst(): return d.iszero()
        if d in S.neq or -d in S.neq: return False
        # linear in a plain symbol?
        for m, k in d.d.items():
            if len(m) == 1 and m[0][1] == 1 and k in (1, -1):
                a = m[0][0]; at = atom_of(a)
                if isinstance(at, tuple) and at[0] == 'el': continue
                if sum(1 for mm in d.d if any(contains(x, a) for x, e in mm)) > 1: continue
                if self.choose():
                    S.neq = S.neq | {d}
                    return False
                S.subst(a, (d - Poly({m: k})).scale(-k))
                return True
        for m, k in d.d.items():
            if len(m) > 1 and k in (1, -1):
                for a, ex in m:
                    if ex != 1 or isinstance(atom_of(a), tuple) and atom_of(a)[0] == 'el': continue
                    if any(e2 > 0 for x, e2 in m if x != a): continue
                    if sum(1 for mm in d.d if any(contains(x, a) for x, e in mm)) > 1: continue
                    if self.choose():
                        S.neq = S.neq | {d}
                        return False
                    inv = Poly({tuple((x, -e2) for x, e2 in m if x != a): 1})
                    S.subst(a, ((d - Poly({m: k})).scale(-k)) * inv)
                    return True
        if len(d.d) == 1:
            # a product with the norm of an operand vanishes when that operand does
            (m, k), = d.d.items()
            ns = [atom_of(a)[1] for a, ex in m if isinstance(atom_of(a), tuple) and atom_of(a)[0] == 'norm']
            if ns:
                i = self.choose(len(ns) + 1)
                if i == 0:
                    S.neq = S.neq | {d}; return False
                o = ns[i - 1]
                S.objs[o] = S.objs[o].but(cells=(), dflt='zero'); S.env[('zero', o)] = True
                return True
        r = self.decide(S, ('is', v, c))
        if r: S.taint = True
        return r
    # ---------------------------------------------------------------- memory
    def new_obj(self, S, name, ld, kind, dflt, **kw):
        S.objs[name] = Obj(name, ld, kind, dflt, **kw)
        return Ptr(name, ZERO)
    def divld(self, S, off, ld):
        """off = row*ld + col"""
        if ld == ONE: return off, ZERO
        if len(ld.d) == 1:
            (m, c), = ld.d.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                qr = off.split(m[0][0])
                if qr is None: raise Undecided('offset')
                return qr
            if m == () :
                q = {}; r = {}
                for mm, cc in off.d.items():
                    if isinstance(cc, int) and cc % c == 0: q[mm] = cc // c
                    elif mm == () and isinstance(cc, int) and isinstance(c, int) and c > 0 and cc > 0:
                        if cc // c: q[mm] = cc // c
                        r[mm] = cc % c
                    else: r[mm] = cc
                return Poly(q), Poly(r)
        # general: divide by the leading monomial (the one of highest degree occurring in off)
        q = ZERO; r = off
        lead = sorted(ld.d.items(), key=lambda x: (-sum(e for a, e in x[0]), repr(x[0])))[0]
        for _ in range(20):
            hit = None
            for mm, cc in r.d.items():
                g = _mdiv_(mm, lead[0])
                if g is not None and lead[0] != () :
                    hit = (g, Fraction(cc) / lead[1]); break
            if hit is None: break
            t = Poly({hit[0]: hit[1] if hit[1].denominator != 1 else int(hit[1])})
            q = q + t; r = r - t * ld
        return q, r
    def rect(self, S, p, ld, nr, nc, write=False, vec=False):
        """rectangle of object accessed through pointer p with row distance ld"""
        if not isinstance(p, Ptr): raise Undecided('unknown pointer')
        if p.o == 'NULL' or p.o not in S.objs:
            if nr.iszero() or nc.iszero(): return None
            raise Undecided('pointer to %s' % p.o)
        o = S.objs[p.o]
        ld = P(ld)
        if nr.iszero() or nc.iszero(): return None
        if o.ld is None:
            S.objs[p.o] = o = o.but(ld=ld, vec=vec)
        elif o.ld != ld:
            if nr == ONE and not (ld.isconst() and o.vec):
                pass
            elif o.kind == 'loc':
                # a work buffer re-used with another layout
                d = 'zero' if (o.dflt == 'zero' and not o.cells) or self.uniform_zero(S, o) else 'undef'
                # trailing rows of a buffer that was never split keep nothing
                S.objs[p.o] = o = o.but(ld=ld, cells=(), dflt=d, vec=vec)
            else:
                if S.facts.nonneg(ONE - nr): pass
                else:
                    self.viol(S, 'stride', 'operand %s (row distance %r) is accessed with row distance %r' % (o.name, o.ld, ld), [nr - 1, nc])
        r, c = self.divld(S, p.off, o.ld)
        if (o.ld.isconst() or (self.splits and o.kind == 'loc')) and not S.facts.nonneg(o.ld - c - nc):
            raise Undecided('rows of %s overlap' % o.name)
        return (r, c, P(nr), P(nc))
    def uniform_zero(self, S, o):
        if not o.cells: return False
        return all((not isinstance(m, Packed)) and m.iszero() for _, _, _, _, m in o.cells)
    def dflt_mat(self, S, o, r, c, nr, nc):
        if o.dflt == 'in': return Mat.atom(At(o.name, r, c, nr, nc))
        if o.dflt == 'zero': return Mat.zero(nr, nc)
        return Mat.atom(At('undef:' + o.name, r, c, nr, nc))
    def cuts_in(self, S, lo, ln, pts):
        """sorted cut positions (absolute) of [lo, lo+ln) among pts; raises if order unknown"""
        hi = lo + ln
        cuts = [lo, hi]
        for p in pts:
            if p in cuts: continue
            if S.facts.nonneg(lo - p) or S.facts.nonneg(p - hi): continue
            if not (S.facts.nonneg(p - lo) and S.facts.nonneg(hi - p)):
                if not S.facts.nonneg(p - lo):
                    if S.facts.split(p - lo) is None: raise Undecided('order of %r in [%r,%r)' % (p, lo, hi))
                    if S.facts.nonneg(lo - p): continue
                if not S.facts.nonneg(hi - p):
                    if S.facts.split(hi - p) is None: raise Undecided('order of %r in [%r,%r)' % (p, lo, hi))
                    if S.facts.nonneg(p - hi): continue
            for i in range(len(cuts) - 1):
                if S.facts.nonneg(p - cuts[i]) and S.facts.nonneg(cuts[i + 1] - p):
                    cuts.insert(i + 1, p); break
            else:
                for q in cuts[1:-1]:
                    if not S.facts.nonneg(p - q) and not S.facts.nonneg(q - p):
                        if S.facts.split(p - q) is None: raise Undecided('order of cuts')
                return self.cuts_in(S, lo, ln, pts)
        return cuts
    def disjoint(self, S, a, b):
        (r, c, nr, nc), (R, Cc, NR, NC) = a, b
        z = S.facts.nonneg
        return z(R - r - nr) or z(r - R - NR) or z(Cc - c - nc) or z(c - Cc - NC) or nr.iszero() or nc.iszero() or NR.iszero() or NC.iszero()
    def read(self, S, p, ld, nr, nc, vec=False, raw=False):
        """content as a Grid (Packed cells become plain when asked raw)"""
        nr = P(nr); nc = P(nc)
        if self.rowvec(S, p, nr, nc): return self.read(S, p, ONE, nc, ONE, vec=True).T()
        rc = self.rect(S, p, ld, nr, nc, vec=vec)
        if rc is None: return Grid.zero(nr, nc)
        r, c, nr, nc = rc
        o = S.objs[p.o]
        self.access(S, 'r', p.o, rc)
        touched = [cell for cell in o.cells if not self.disjoint(S, rc, cell[:4])]
        rows = self.cuts_in(S, r, nr, [x for cell in touched for x in (cell[0], cell[0] + cell[2])])
        cols = self.cuts_in(S, c, nc, [x for cell in touched for x in (cell[1], cell[1] + cell[3])])
        e = []
        for i in range(len(rows) - 1):
            row = []
            for j in range(len(cols) - 1):
                row.append(self.extract(S, o, touched, rows[i], cols[j], rows[i + 1] - rows[i], cols[j + 1] - cols[j], raw))
            e.append(row)
        return Grid([x - r for x in rows], [x - c for x in cols], e)
    def extract(self, S, o, touched, r, c, nr, nc, raw=False):
        z = S.facts.nonneg
        for (R, Cc, NR, NC, m) in touched:
            if z(r - R) and z(R + NR - r - nr) and z(c - Cc) and z(Cc + NC - c - nc):
                if isinstance(m, Packed):
                    if r == R and c == Cc and nr == NR and nc == NC:
                        if raw: return m
                        raise Undecided('packed cell read as a plain matrix')
                    # off-diagonal part of a packed cell
                    i0, j0 = r - R, c - Cc
                    if z(j0 - i0 - nr): m = m.su
                    elif z(i0 - j0 - nc): m = m.sl
                    elif i0 == j0 and nr == nc:
                        q = Packed(self.submat(m.su, i0, j0, nr, nc), self.submat(m.d, i0, j0, nr, nc), self.submat(m.sl, i0, j0, nr, nc))
                        if raw: return q
                        raise Undecided('packed cell')
                    else: raise Undecided('packed cell')
                return self.submat(m, r - R, c - Cc, nr, nc)
        for cell in touched:
            if not self.disjoint(S, (r, c, nr, nc), cell[:4]):
                raise Undecided('cell overlap')
        return self.dflt_mat(S, o, r, c, nr, nc)
    def submat(self, m, i, j, nr, nc):
        if not i.iszero(): m = split(m, 0, i)[1]
        if m.nr != nr: m = split(m, 0, nr)[0]
        if not j.iszero(): m = split(m, 1, j)[1]
        if m.nc != nc: m = split(m, 1, nc)[0]
        return m
    def clear(self, S, o, rc):
        """cells of o outside the rectangle rc"""
        out = []
        r, c, nr, nc = rc
        z = S.facts.nonneg
        for cell in o.cells:
            R, Cc, NR, NC, m = cell
            if self.disjoint(S, rc, cell[:4]): out.append(cell); continue
            if z(R - r) and z(r + nr - R - NR) and z(Cc - c) and z(c + nc - Cc - NC): continue
            rows = self.cuts_in(S, R, NR, [r, r + nr]); cols = self.cuts_in(S, Cc, NC, [c, c + nc])
            for i in range(len(rows) - 1):
                for j in range(len(cols) - 1):
                    s = (rows[i], cols[j], rows[i + 1] - rows[i], cols[j + 1] - cols[j])
                    if z(s[0] - r) and z(r + nr - s[0] - s[2]) and z(s[1] - c) and z(c + nc - s[1] - s[3]): continue
                    out.append(s + (self.extract(S, o, [cell], s[0], s[1], s[2], s[3], True),))
        return out
    def rowvec(self, S, p, nr, nc):
        """one row of a contiguous vector object (stored as a column with distance 1)"""
        o = S.objs.get(p.o) if isinstance(p, Ptr) else None
        return o is not None and o.vec and o.ld == ONE and nr == ONE and nc != ONE
    def write(self, S, p, ld, g, vec=False):
        if self.rowvec(S, p, g.nr, g.nc): return self.write(S, p, ONE, g.T(), True)
        rc = self.rect(S, p, ld, g.nr, g.nc, True, vec)
        if rc is None: return
        o = S.objs[p.o]
        if o.const: self.viol(S, 'const', 'input operand %s is overwritten' % o.name, [rc[2], rc[3]])
        self.access(S, 'w', p.o, rc)
        out = self.clear(S, o, rc)
        r, c = rc[0], rc[1]
        for i, j, m in g.blocks():
            if isinstance(m, Packed): dims = (m.su.nr, m.su.nc)
            else: dims = (m.nr, m.nc)
            if dims[0].iszero() or dims[1].iszero(): continue
            out.append((r + i, c + j, dims[0], dims[1], m))
        S.objs[p.o] = o.but(cells=tuple(sorted(out, key=lambda x: repr(x[:4]))))
    def havoc(self, S, p, ld, nr, nc):
        self.fresh += 1
        self.write(S, p, ld, Grid.of(Mat.atom(At('?h%d' % self.fresh, ZERO, ZERO, P(nr), P(nc)))))
    def elem(self, S, p):
        """1x1 read"""
        o = S.objs.get(p.o) if isinstance(p, Ptr) else None
        if o is None: return TOP
        ld = o.ld if o.ld is not None else ONE
        g = self.read(S, p, ld, ONE, ONE, vec=o.ld is None)
        return Scal(scalar_of(g.e[0][0]))
    def set_elem(self, S, p, v):
        o = S.objs.get(p.o) if isinstance(p, Ptr) else None
        if o is None: return
        ld = o.ld if o.ld is not None else ONE
        if isinstance(v, Poly) and v.isconst(): v = Scal(v)
        if isinstance(v, Scal):
            self.write(S, p, ld, Grid.of(mat_of_scalar(v.p)), vec=o.ld is None)
        else: self.havoc(S, p, ld, ONE, ONE)
    # ---------------------------------------------------------------- accesses (logs, races)
    def access(self, S, kind, o, rc):
        if S.log is not None: S.log.append((kind, o, rc, self.line))
        if S.objs[o].kind == 'priv': return
        if S.cur is not None:
            S.cur = S.cur.but(S.cur.acc + ((kind, o, rc, self.line),))
        for t in S.tasks:
            if self.ordered(t, S.cur): continue
            for k2, o2, rc2, l2 in t.acc:
                if o2 != o or (k2 == 'r' and kind == 'r'): continue
                if self.disjoint(S, rc, rc2): continue
                self.race(S, t, l2, rc2, k2, o, rc, kind)
    def ordered(self, t, u):
        """the created task t completes before the code of task u (None: the initial one) runs"""
        if u is None: return False
        if t.id == u.id: return True
        par = t.chain[-1][0] if t.chain else None
        for i, (id, din, dout) in enumerate(u.chain + ((u.id, u.din, u.dout),)):
            if (u.chain[i - 1][0] if i else None) != par: continue
            if any(x in din or x in dout for x in t.dout) or any(x in dout for x in t.din): return True
        return False
    def at_exit(self, S): pass
    def loop_tasks(self, S, e, fin, a, T): pass
    def race(self, S, t, l2, rc2, k2, o, rc, kind):
        if self.on_race: self.on_race(self, S, t, l2, rc2, k2, o, rc, kind)

def _mdiv_(m, n):
    d = dict(m)
    for a, e in n:
        v = d.get(a, 0) - e
        if v < 0: return None
        if v: d[a] = v
        else: d.pop(a, None)
    return tuple(sorted(d.items()))

# ====================================================================== evaluation
ARITH = {'+', '-', '*', '/', '%', '<<', '>>', '&', '|', '^'}
CMP = {'<', '>', '<=', '>=', '==', '!='}

class Exec(Interp):
    # ---- frames / variables
    def fr(self): return self.stack[-1] if self.stack else 0
    def var_loc(self, S, vid, fr=None):
        fr = self.fr() if fr is None else fr
        return ('var', fr, vid)
    def load(self, S, loc):
        k = loc[0]
        if k == 'var':
            v = S.env.get(loc[1:], TOP)
            if isinstance(v, Ref): return self.load(S, v.l)
            return v
        if k == 'mem': return self.elem(S, loc[1])
        if k == 'fld':
            v = S.flds.get(loc[1:3])
            if v is None: v = self.default_field(S, loc)
            return v
        return TOP
    def store(self, S, loc, v):
        k = loc[0]
        if k == 'var':
            o = S.env.get(loc[1:])
            if isinstance(o, Ref): return self.store(S, o.l, v)
            S.env[loc[1:]] = v
        elif k == 'mem': self.set_elem(S, loc[1], v)
        elif k == 'fld': S.flds[loc[1:3]] = v
    def default_field(self, S, loc):
        path, name = loc[1], loc[2]
        t = loc[3] if len(loc) > 3 else ''
        c = tclass(t) if t else 'rec'
        if c == 'int': return Poly.sym(('sgn', '%s.%s' % (path, name)))
        if c == 'flt': return Free(('fld', path, name))
        if c == 'rec': return Rec('%s.%s' % (path, name))
        return TOP
    # ---- lvalues
    def lval(self, S, e):
        e = strip(e)
        k = e[0]
        if k == 'v':
            loc = self.var_loc(S, e[2])
            v = S.env.get(loc[1:])
            while isinstance(v, Ref):
                loc = v.l
                if loc[0] != 'var': break
                v = S.env.get(loc[1:])
            return loc
        if k == 'un' and e[2] == '*':
            p = self.ev(S, e[3])
            if isinstance(p, Ptr): return ('mem', p)
            return ('none',)
        if k == 'un' and e[2] in ('++', '--'):
            self.ev(S, e); return self.lval(S, e[3])
        if k == 'idx':
            p = self.ev(S, e[2]); i = self.ev(S, e[3])
            if isinstance(p, Ptr) and isinstance(i, Poly): return ('mem', Ptr(p.o, p.off + i))
            return ('none',)
        if k == 'op' and e[2] == '[]':
            b = self.ev(S, e[4][0]); i = self.ev(S, e[4][1])
            if isinstance(b, Ptr) and isinstance(i, Poly): return ('mem', Ptr(b.o, b.off + i))
            return ('none',)
        if k == 'op' and e[2] == '*' and len(e[4]) == 1:
            b = self.ev(S, e[4][0])
            if isinstance(b, Ptr): return ('mem', b)
            return ('none',)
        if k == 'mem':
            b = self.ev(S, e[2])
            if isinstance(b, Rec):
                return ('fld', b.p, e[1], e[4] if len(e) > 4 else '')
            return ('none',)
        if k == 'asg':
            self.ev(S, e); return self.lval(S, e[3])
        if k in ('mcall', 'call', 'op'):
            # a call returning a reference to its first output argument
            v = self.ev(S, e)
            if isinstance(v, Ref): return v.l
            return ('none',)
        if k == 'cond':
            c = self.truth(S, self.ev(S, e[3]))
            return self.lval(S, e[4] if c else e[5])
        return ('none',)
    # ---- expressions
    def ev(self, S, e):
        if e is None: return TOP
        k = e[0]
        m = getattr(self, 'e_' + k, None)
        if m is None: return TOP
        v = m(S, e)
        return v
    def rv(self, S, e):
        v = self.ev(S, e)
        if isinstance(v, Ref): return self.load(S, v.l)
        return v
    def e_v(self, S, e):
        v = S.env.get((self.fr(), e[2]), TOP)
        if isinstance(v, Ref): return self.load(S, v.l)
        return v
    def e_i(self, S, e): return P(e[1])
    def e_kg(self, S, e): return P(int(e[2]))
    def e_b(self, S, e): return bool(e[1])
    def e_f(self, S, e):
        f = float(e[1])
        return Scal(P(int(f))) if f == int(f) and abs(f) < 1e6 else TOP
    def e_en(self, S, e): return En(e[1], e[2])
    def e_g(self, S, e): return Rec('g:' + e[1])
    def e_null(self, S, e): return Ptr('NULL', ZERO)
    def e_this(self, S, e): return S.env.get((self.fr(), 'this'), Rec('this'))
    def e_darg(self, S, e): return self.ev(S, e[1])
    def e_szof(self, S, e): return P(int(e[1])) if e[1] else TOP
    def e_zero(self, S, e):
        c = tclass(e[1])
        return ZERO if c == 'int' else Scal(ZERO) if c == 'flt' else TOP
    def e_init(self, S, e):
        vs = [self.rv(S, x) for x in e[2]]
        if len(vs) == 1: return vs[0]
        return TOP
    def e_plist(self, S, e):
        vs = [self.rv(S, x) for x in e[1]]
        return vs[-1] if vs else TOP
    def e_ic(self, S, e): return self.conv(S, self.rv(S, e[3]), e[1])
    def e_cast(self, S, e): return self.conv(S, self.rv(S, e[5]), e[3])
    def conv(self, S, v, t):
        c = tclass(t)
        if c == 'int':
            if t.replace('const', '').strip() == 'bool':
                return self.truth(S, v) if not isinstance(v, Top) else TOP
            if isinstance(v, bool): return P(1 if v else 0)
            if isinstance(v, Scal):
                return P(v.p.cval()) if v.p.isconst() else v
            return v
        if c == 'flt':
            if isinstance(v, bool): return Scal(P(int(v)))
            if isinstance(v, Poly): return Scal(v) if v.isconst() else Free(('int', v), is_char(v))
        return v
    def e_un(self, S, e):
        op = e[2]
        if op == '&':
            l = self.lval(S, e[3])
            if l[0] == 'mem': return l[1]
            return TOP
        if op == '*':
            p = self.rv(S, e[3])
            return self.elem(S, p) if isinstance(p, Ptr) else TOP
        if op in ('++', '--', '++post', '--post'):
            l = self.lval(S, e[3]); v = self.load(S, l)
            d = 1 if '+' in op else -1
            n = self.arith(S, '+', v, P(d))
            self.store(S, l, n)
            return v if 'post' in op else n
        v = self.rv(S, e[3])
        if op == '!':
            if isinstance(v, Top): return TOP
            return not self.truth(S, v)
        if op == '-':
            if isinstance(v, Poly): return -v
            if isinstance(v, Scal): return Scal(-v.p)
            if isinstance(v, Free): return Free(('-', v), v.modp)
            return TOP
        if op == '+': return v
        return TOP
    def e_bin(self, S, e):
        op = e[2]
        if op == '&&':
            return self.truth(S, self.rv(S, e[3])) and self.truth(S, self.rv(S, e[4]))
        if op == '||':
            return self.truth(S, self.rv(S, e[3])) or self.truth(S, self.rv(S, e[4]))
        if op == ',':
            self.ev(S, e[3]); return self.ev(S, e[4])
        a = self.rv(S, e[3]); b = self.rv(S, e[4])
        if op in CMP: return self.cmp(S, op, a, b)
        return self.arith(S, op, a, b)
    def cmp(self, S, op, a, b):
        if isinstance(a, bool): a = P(int(a))
        if isinstance(b, bool): b = P(int(b))
        if isinstance(a, En): a = P(a.v)
        if isinstance(b, En): b = P(b.v)
        if isinstance(a, Poly) and isinstance(b, Poly): return self.compare(S, op, a, b)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.o == b.o: return self.compare(S, op, a.off, b.off)
            if op == '==': return False
            if op == '!=': return True
            return TOP
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            z = b if isinstance(a, Ptr) else a
            if isinstance(z, Poly) and z.iszero():
                p = a if isinstance(a, Ptr) else b
                if op in ('==', '!='): return (p.o == 'NULL') == (op == '==')
        if isinstance(a, Scal) and isinstance(b, Poly) and b.isconst(): b = Scal(b)
        if isinstance(b, Scal) and isinstance(a, Poly) and a.isconst(): a = Scal(a)
        if isinstance(a, Scal) and isinstance(b, Scal):
            d = a.p - b.p
            if d.isconst() and op in ('==', '!='): return d.iszero() == (op == '==')
            if op in ('==', '!='):
                r = self.scal_is(S, Scal(d), ZERO); return r if op == '==' else not r
        if isinstance(a, (Scal, Free, Poly)) and isinstance(b, (Scal, Free, Poly)):
            x, y = as_int(a), as_int(b)
            if x is not None and y is not None: return self.compare(S, op, x, y)
            if op == '>': return self.decide(S, ('<', b, a))
            if op == '>=': return not self.decide(S, ('<', a, b))
            if op == '<=': return not self.decide(S, ('<', b, a))
            if op == '!=': return not self.decide(S, ('==', a, b))
            return self.decide(S, (op, a, b))
        return TOP
    def arith(self, S, op, a, b):
        if isinstance(a, bool): a = P(int(a))
        if isinstance(b, bool): b = P(int(b))
        if isinstance(a, En): a = P(a.v)
        if isinstance(b, En): b = P(b.v)
        if isinstance(a, Ptr) and isinstance(b, Poly):
            if op == '+': return Ptr(a.o, a.off + b)
            if op == '-': return Ptr(a.o, a.off - b)
            return TOP
        if isinstance(b, Ptr) and isinstance(a, Poly) and op == '+': return Ptr(b.o, b.off + a)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and op == '-' and a.o == b.o: return a.off - b.off
        if isinstance(a, Poly) and isinstance(b, Poly):
            if op == '+': return a + b
            if op == '-': return a - b
            if op == '*': return a * b
            if op == '/':
                if b.iszero(): return TOP
                if not a.isconst() and S.facts.nonneg(a) and S.facts.nonneg(b - a - 1): return ZERO
                return fdiv(a, b)
            if op == '%':
                if b.iszero(): return TOP
                if not a.isconst() and S.facts.nonneg(a) and S.facts.nonneg(b - a - 1): return a
                return nmod(a, b)
            if op == '<<':
                if b.isconst(): return a.scale(2 ** int(b.cval()))
                return a * pow2(b)
            if op == '>>':
                if b.isconst(): return fdiv(a, P(2 ** int(b.cval())))
                return fdiv(a, pow2(b))
            if op == '&':
                if b == ONE: return nmod(a, P(2))
                if a.isconst() and b.isconst(): return P(a.cval() & b.cval())
                return Poly.sym(('and', a, b))
            if op == '|' and a.isconst() and b.isconst(): return P(a.cval() | b.cval())
            return TOP
        if isinstance(a, Scal) and isinstance(b, Poly) and b.isconst(): b = Scal(b)
        if isinstance(b, Scal) and isinstance(a, Poly) and a.isconst(): a = Scal(a)
        if isinstance(a, Scal) and isinstance(b, Scal):
            if op == '+': return Scal(a.p + b.p)
            if op == '-': return Scal(a.p - b.p)
            if op == '*': return Scal(a.p * b.p)
            if op == '/':
                i = b.p.inv()
                if i is not None: return Scal(a.p * i)
        if op in ('+', '-'):
            # values are known modulo the characteristic
            if isinstance(a, Scal) and isinstance(b, Free) and b.modp: return a
            if isinstance(b, Scal) and isinstance(a, Free) and a.modp: return b if op == '+' else Scal(-b.p)
        if isinstance(a, (Scal, Free, Poly)) and isinstance(b, (Scal, Free, Poly)):
            if op in ('+', '-', '*') and (isinstance(a, Free) or isinstance(b, Free)):
                x, y = as_int(a), as_int(b)
                if x is not None and y is not None:
                    r = x + y if op == '+' else x - y if op == '-' else x * y
                    return Free(('int', r), is_char(r))
            mp = isinstance(a, Free) and isinstance(b, Free) and a.modp and b.modp and op in ('+', '-')
            if op == '*': mp = (isinstance(a, Free) and a.modp and isinstance(b, (Scal, Poly)) and integral(b)) or (isinstance(b, Free) and b.modp and isinstance(a, (Scal, Poly)) and integral(a))
            return Free((op, a, b), bool(mp))
        return TOP
    def e_asg(self, S, e):
        self.line = e[1] or self.line
        op = e[2]
        r = self.rv(S, e[4])
        l = self.lval(S, e[3])
        if op != '=':
            v = self.load(S, l) if l[0] != 'none' else TOP
            r = self.arith(S, op[:-1], v, r)
        self.store(S, l, r)
        return Ref(l) if l[0] != 'none' else r
    def e_cond(self, S, e):
        if e[2] is not None: c = bool(e[2])
        else: c = self.truth(S, self.rv(S, e[3]))
        return self.ev(S, e[4] if c else e[5])
    def e_idx(self, S, e):
        b = self.rv(S, e[2])
        if isinstance(b, ResScal): return self.residue(S, b, self.rv(S, e[3]))
        l = self.lval(S, e)
        return self.load(S, l) if l[0] != 'none' else TOP
    def residue(self, S, b, i):
        if not isinstance(i, Poly): return TOP
        if i != Poly.sym(RES) * rstride(b.p): raise Viol('residue', 'a residue of a scalar is taken at index %r' % i, self.line)
        return Scal(b.p)
    def e_mem(self, S, e):
        b = self.rv(S, e[2])
        if e[1] in ('zero', 'one', 'mOne'):
            return Scal(P({'zero': 0, 'one': 1, 'mOne': -1}[e[1]]))
        if isinstance(b, Rec): return self.load(S, ('fld', b.p, e[1], e[4] if len(e) > 4 else ''))
        if e[1] == '_ptr':
            if isinstance(b, Ptr): return Ptr(b.o, b.off - Poly.sym(RES) * rstride(b.o))
            if isinstance(b, Scal): return ResScal(b.p)
        if e[1] == '_stride':
            if isinstance(b, Ptr): return rstride(b.o)
            if isinstance(b, Scal): return rstride(b.p)
        return TOP
    def e_lambda(self, S, e): return Lam(e, self.fr())
    def e_stmtexpr(self, S, e): return TOP
    def e_throw(self, S, e): raise Infeasible()
    def e_new(self, S, e):
        if tclass(e[2]) == 'flt':
            self.fresh += 1
            n = 'new%d' % e[1]
            while n in S.objs: n += "'"
            return self.new_obj(S, n, None, 'loc', 'undef')
        return TOP
    def e_delete(self, S, e): return TOP
    def e_ctor(self, S, e):
        a = e[4]
        if e[5] and a: return self.ev(S, a[0])
        if len(a) == 1 and tclass(e[2]) == 'ptr': return self.ev(S, a[0])
        if len(a) == 1 and re.match(r'^(const )?(Givaro::Integer|RecInt::r[um]?int<[^<>]*>)( const)?$', e[2]):
            v = self.rv(S, a[0])
            if isinstance(v, Scal): return v
        if len(a) == 1 and tclass(e[2]) in ('int', 'flt'): return self.conv(S, self.rv(S, a[0]), e[2])
        for x in a: self.ev(S, x)
        self.fresh += 1
        if 'vector<double' in e[2] or 'vector<float' in e[2]:
            n = 'vec%d' % e[1]
            while n in S.objs: n += "'"
            vs = [self.rv(S, x) for x in a]
            z = len(vs) > 1 and isinstance(vs[1], Scal) and vs[1].p.iszero()
            return self.new_obj(S, n, ONE, 'loc', 'zero' if z else 'undef', vec=True)
        return Rec('c%d' % e[1])
    def e_fn(self, S, e): return Rec('fn:' + e[1].get('q', '?'))
    def e_op(self, S, e):
        op = e[2]; args = e[4]
        if op == '()':
            f = self.rv(S, args[0])
            if isinstance(f, Lam): return self.call_lambda(S, f, args[1:])
            h = self.C.get('()')
            if h:
                r = self.contract(S, '()', h, e, args)
                if r is not None: return r
            return self.call_fn(S, e[3], args[1:], obj=args[0])
        if op == '[]':
            if args[0][0] == 'mem' and args[0][1] == '_field_rns':
                i = self.rv(S, args[1])
                if isinstance(i, Poly) and i != Poly.sym(RES): raise Viol('residue', 'modulus number %r is used for a residue' % i, self.line)
                return Rec('rns:field')
            l = self.lval(S, e)
            return self.load(S, l) if l[0] != 'none' else TOP
        if op in ('=', '+=', '-=', '*=') and len(args) == 2:
            return self.e_asg(S, ['asg', e[1], op, args[0], args[1]])
        if op in ('++', '--'):
            if isinstance(self.rv(S, args[0]), Rec): return TOP
            return self.e_un(S, ['un', e[1], op + ('post' if len(args) == 2 else ''), args[0]])
        if len(args) == 2:
            a = self.rv(S, args[0]); b = self.rv(S, args[1])
            if op in ('==', '!=') and isinstance(a, Free) and isinstance(b, Poly) and b.iszero():
                fs = factors(a)
                ns = [atom_of(x)[1] for f in fs if isinstance(f, Scal) for x in f.p.atoms() if isinstance(atom_of(x), tuple) and atom_of(x)[0] == 'norm']
                if ns:
                    i = self.choose(len(ns) + 1)
                    if i:
                        o = ns[i - 1]
                        S.objs[o] = S.objs[o].but(cells=(), dflt='zero'); S.env[('zero', o)] = True
                    return (i > 0) == (op == '==')
            if op in ('==', '!=') and (a is TOP or isinstance(a, Rec)) and isinstance(b, Poly) and b.isconst():
                # an uninterpreted number: different from a given constant in general
                r = bool(self.choose())
                if r and not (isinstance(a, Rec) and a.p.startswith('p:') and '.' in a.p): S.taint = True
                return r == (op == '==')
            if op in CMP: return self.cmp(S, op, a, b)
            if op in ARITH: return self.arith(S, op, a, b)
        if op == '*' and len(args) == 1:
            p = self.rv(S, args[0])
            return self.elem(S, p) if isinstance(p, Ptr) else TOP
        if op == '-' and len(args) == 1: return self.e_un(S, ['un', e[1], '-', args[0]])
        if op in ('<<', '>>'): return TOP
        return TOP
    # ---- field arithmetic
    FIELD = {'init', 'assign', 'add', 'sub', 'mul', 'neg', 'axpy', 'axpyin', 'axmy', 'axmyin', 'maxpy', 'maxpyin', 'addin', 'subin', 'mulin',
             'negin', 'inv', 'invin', 'div', 'divin', 'isZero', 'isOne', 'isMOne', 'areEqual', 'reduce', 'convert', 'isUnit'}
    def S_(self, v):
        if isinstance(v, Poly) and v.isconst(): return Scal(v)
        if isinstance(v, bool): return Scal(P(int(v)))
        return v
    def field_op(self, S, name, args):
        """args: expressions"""
        if name in ('isZero', 'isOne', 'isMOne'):
            return self.scal_is(S, self.S_(self.rv(S, args[0])), {'isZero': P(0), 'isOne': P(1), 'isMOne': P(-1)}[name])
        if name == 'isUnit': return TOP
        if name == 'areEqual':
            a, b = self.S_(self.rv(S, args[0])), self.S_(self.rv(S, args[1]))
            if isinstance(a, Scal) and isinstance(b, Scal): return self.scal_is(S, Scal(a.p - b.p), ZERO)
            return TOP
        l = self.lval(S, args[0])
        vs = [self.S_(self.rv(S, x)) for x in args[1:]]
        def old(): return self.S_(self.load(S, l))
        ok = all(isinstance(v, Scal) for v in vs)
        r = TOP
        if name in ('init', 'assign', 'convert', 'reduce'):
            if not vs: r = Scal(ZERO) if name == 'init' else old()
            else: r = vs[0]
        elif not ok: r = TOP
        elif name == 'add': r = Scal(vs[0].p + vs[1].p)
        elif name == 'sub': r = Scal(vs[0].p - vs[1].p)
        elif name == 'mul': r = Scal(vs[0].p * vs[1].p)
        elif name == 'neg': r = Scal(-vs[0].p)
        elif name == 'inv': r = self.sinv(S, vs[0])
        elif name == 'div':
            i = self.sinv(S, vs[1]); r = Scal(vs[0].p * i.p) if isinstance(i, Scal) else TOP
        elif name == 'axpy': r = Scal(vs[0].p * vs[1].p + vs[2].p)
        elif name == 'axmy': r = Scal(vs[0].p * vs[1].p - vs[2].p)
        elif name == 'maxpy': r = Scal(vs[2].p - vs[0].p * vs[1].p)
        else:
            o = old()
            if isinstance(o, Scal):
                if name == 'addin': r = Scal(o.p + vs[0].p)
                elif name == 'subin': r = Scal(o.p - vs[0].p)
                elif name == 'mulin': r = Scal(o.p * vs[0].p)
                elif name == 'negin': r = Scal(-o.p)
                elif name == 'invin': r = self.sinv(S, o)
                elif name == 'divin':
                    i = self.sinv(S, vs[0]); r = Scal(o.p * i.p) if isinstance(i, Scal) else TOP
                elif name == 'axpyin': r = Scal(o.p + vs[0].p * vs[1].p)
                elif name == 'maxpyin': r = Scal(o.p - vs[0].p * vs[1].p)
                elif name == 'axmyin': r = Scal(vs[0].p * vs[1].p - o.p)
        if l[0] != 'none': self.store(S, l, r)
        return Ref(l) if l[0] != 'none' else r
    def sinv(self, S, v):
        for a in v.p.atoms():
            at = atom_of(a)
            if isinstance(at, str) and at.startswith('alpha') and self.scal_is(S, Scal(Poly.sym(at)), ZERO):
                return Scal(Poly.sym('div0'))
        q = v.p.inv()
        if q is not None: return Scal(q)
        return Scal(Poly.sym(('sinv', v.p)))
    # ---- calls
    def e_mcall(self, S, e):
        self.line = e[1] or self.line
        name = cname(e[2])
        args = e[4]
        if len(args) > 5 and name in ('init', 'convert') and (e[2] or {}).get('q', '').startswith('FFPACK::rns_double'):
            return self.C['rns.' + name](self, S, e, [self.rv(S, a) for a in args])
        if name in self.FIELD and self.is_field(S, e[3], e[2]): return self.field_op(S, name, args)
        q = (e[2] or {}).get('q', '')
        if name == 'size' and q.startswith('FFPACK::RNSInteger') and not args:
            n = Poly.sym(RNSIZE); S.facts.add(n - 1); return n
        if name in ('rns', 'delayed') and q.startswith('FFPACK::RNSInteger'): return Rec('rns')
        h = self.C.get('.' + name)
        if h:
            self.used.add(name)
            return self.contract(S, '.' + name, h, e, [self.rv(S, a) for a in args])
        obj = self.rv(S, e[3])
        if isinstance(obj, Ptr) and name in ('data', 'begin'): return obj
        if isinstance(obj, Rec) and (obj.p, '%n0') in S.flds:
            k = {'begin': '%b0', 'ibegin': '%b0', 'end': '%e0', 'iend': '%e0', 'jbegin': '%b1', 'jend': '%e1'}.get(name)
            if k:
                v = S.flds.get((obj.p, k))
                if v is None: raise Undecided('iterator used outside its loop')
                return v
            if name in ('initialize', 'isTerminated'): return TOP
        r = self.call_fn(S, e[2], args, obj=e[3])
        return r
    def is_field(self, S, obj, ci):
        q = (ci or {}).get('q', '')
        return not q.startswith('std::')
    def e_call(self, S, e):
        self.line = e[1] or self.line
        name = cname(e[2])
        if name in ('max', 'min') and len(e[3]) == 2:
            a, b = self.rv(S, e[3][0]), self.rv(S, e[3][1])
            if isinstance(a, Poly) and isinstance(b, Poly):
                if S.facts.nonneg(a - b): return a if name == 'max' else b
                if S.facts.nonneg(b - a): return b if name == 'max' else a
                if not any(ctr_in(x) for x in a.atoms() | b.atoms()):
                    lt = self.compare(S, '<', a, b)
                    return (b if lt else a) if name == 'max' else (a if lt else b)
                return nmax(a, b) if name == 'max' else nmin(a, b)
            if isinstance(a, (Free, Poly, Scal)) and isinstance(b, (Free, Poly, Scal)): return Free(('call', name, (a, b)))
            return TOP
        if name in ('move', 'forward'): return self.ev(S, e[3][0])
        if name == 'swap' and len(e[3]) == 2 and e[2].get('q', '').startswith('std::'):
            l1, l2 = self.lval(S, e[3][0]), self.lval(S, e[3][1])
            a, b = self.load(S, l1), self.load(S, l2)
            self.store(S, l1, b); self.store(S, l2, a)
            return TOP
        name = self.rename(e[2], name)
        h = self.C.get(name)
        if h:
            self.used.add(name)
            ln = self.line
            vs = [self.rv(S, a) for a in e[3]]
            self.line = ln
            if name in ('fgemm', 'fgemv') and type(self).check_pre: self.inner_dim(S, name, e, vs)
            return self.contract(S, name, h, e, vs)
        return self.call_fn(S, e[2], e[3])
    check_pre = True
    def inner_dim(self, S, name, e, vs):
        """the delayed-reduction kernels (lazy helper) require a non-empty inner dimension"""
        fn = self.prog.by_id.get((e[2] or {}).get('i'))
        if fn is None or not any('MMHelper' in p[2] and 'Classic' in p[2] and 'LazyTag' in p[2] for p in fn.params): return
        ps = [v for v in vs if isinstance(v, Poly)]; en = [v for v in vs if isinstance(v, En)]
        if name == 'fgemm' and len(ps) >= 3: k, mn = ps[2], ps[:2]
        elif name == 'fgemv' and len(ps) >= 2 and en: k, mn = (ps[1], ps[:1]) if en[0].n == 'FflasNoTrans' else (ps[0], ps[1:2])
        else: return
        if S.taint or S.facts.nonneg(k - 1): return
        if any(not self.plain_atom(a) for x in [k] + mn for a in x.atoms()): return
        w = witness(S.facts.ge + [-k], [x for x in S.neq if all(self.plain_atom(a) for a in x.atoms())], mn)
        if w is None: return
        raise Viol('pre', '%s with delayed reduction is called with an inner dimension %r that can be 0 [e.g. %s]' % (name, k, wstr_(w)), self.line)
    def contract(self, S, name, h, e, vs): return h(self, S, e, vs)
    def rename(self, ci, name):
        ci = ci or {}
        if '::vectorised::' in ci.get('q', '') and 'v_' + name in self.C: return 'v_' + name
        if name == 'fadd' and ci.get('t', '').endswith(',false'): return 'fsub'
        return name
    def e_icall(self, S, e):
        f = self.rv(S, e[2])
        if isinstance(f, Lam): return self.call_lambda(S, f, e[3])
        for a in e[3]: self.ev(S, a)
        return TOP
    def call_lambda(self, S, f, args):
        node = f.node
        vals = [self.rv(S, a) for a in args]
        fr = f.fr
        for p, v in zip(node[3], vals): S.env[(fr, p[1])] = v
        save = self.stack
        self.stack = self.stack + [fr]
        try:
            outs = self.run_body(S, node[4])
        finally: self.stack = save
        return self.adopt(S, outs)
    def adopt(self, S, outs):
        """continue with one of the outcomes"""
        if not outs: raise Infeasible()
        i = self.choose(len(outs)) if len(outs) > 1 else 0
        S.become(outs[i])
        r = S.ret; S.ret = None
        return r if r is not None else TOP
    def run_body(self, S, body):
        o = self.exec(body, [S])
        res = o.ret + o.n
        return res
    def call_fn(self, S, ci, args, obj=None):
        fn = self.prog.by_id.get((ci or {}).get('i'))
        name = cname(ci)
        if fn is None or fn.dep or name in self.noinline or len(self.stack) >= self.MAXDEPTH or not self.worth(S, fn, args):
            return self.opaque_call(S, name, args, fn, obj, ci)
        outs = self.inline(S, fn, args, obj)
        return self.adopt(S, outs)
    def worth(self, S, fn, args):
        if fn.name in ('operator=',): return False
        r = self.pure.get(fn.id)
        if r is None:
            r = False
            if tclass(fn.ret) in ('int', 'flt') and not fn.ret.endswith('&') and all(tclass(t) in ('int', 'flt', 'rec') and (not t.endswith('&') or t.startswith('const ')) for _, _, t in fn.params):
                r = any(n[0] in ('for', 'while', 'do', 'rfor') for n in walk(fn.body))
            self.pure[fn.id] = r
        return not r
    def opaque_call(self, S, name, args, fn, obj=None, ci=None):
        for i, a in enumerate(args):
            v = self.rv(S, a)
            if isinstance(v, Ptr) and v.o in S.objs:
                if fn is not None and i < len(fn.params) and fn.params[i][2].startswith('const ') and fn.params[i][2].rstrip().endswith('*'): continue
                raise Undecided('call of %s with a matrix operand' % name)
            if isinstance(v, Ptr): continue
        # non-const reference parameters may be changed
        if fn is not None:
            for i, a in enumerate(args):
                if i < len(fn.params):
                    t = fn.params[i][2]
                    if t.endswith('&') and not t.startswith('const'):
                        l = self.lval(S, a)
                        if l[0] == 'var':
                            v = self.load(S, l)
                            if not isinstance(v, Rec): self.store(S, l, self.unknown_of(S, v))
                        elif l[0] == 'mem': self.set_elem(S, l[1], TOP)
        ret = fn.ret if fn is not None else (ci or {}).get('r', '')
        if ret and tclass(ret) in ('int', 'flt') and not (ret.endswith('&') and not ret.startswith('const')) and ret != 'bool':
            if name == 'characteristic' and not args and obj is not None:
                o = self.rv(S, obj)
                if isinstance(o, Rec): return Poly.sym(('sgn', 'char:' + o.p))
            vs = tuple(self.rv(S, a) for a in args) + ((self.rv(S, obj),) if obj is not None else ())
            if any(isinstance(v, (Top, Ptr, Lam)) for v in vs):
                self.fresh += 1
                vs = (self.line, self.fresh)
            if tclass(ret) == 'flt': return Free(('call', name, vs))
            return Poly.sym(('sgn', 'call:%s%r' % (name, vs)))
        return TOP
    def unknown_of(self, S, v):
        if isinstance(v, Poly):
            self.fresh += 1
            return Poly.sym(('sgn', 'u%d@%d' % (self.fresh, self.line)))
        return TOP
    def frame_id(self, fn): return (self.stack[-1] if self.stack else ()) + ((fn.line, self.line),) if isinstance(self.stack[-1] if self.stack else (), tuple) else ((fn.line, self.line),)
    def inline(self, S, fn, args, obj=None):
        """list of resulting states (ret set)"""
        fr = self.frame_id(fn)
        bind = {}
        for i, (pn, pv, pt) in enumerate(fn.params):
            if i >= len(args): bind[pv] = TOP; continue
            if pt.endswith('&') and not pt.endswith('&&'):
                if not pt.startswith('const ') or True:
                    l = self.lval(S, args[i])
                    if l[0] == 'var' or l[0] == 'mem' or l[0] == 'fld':
                        bind[pv] = Ref(l); continue
            bind[pv] = self.rv(S, args[i])
        if obj is not None:
            bind['this'] = self.rv(S, obj)
        for k, v in bind.items(): S.env[(fr, k)] = v
        save = self.stack; line = self.line
        self.stack = self.stack + [fr]
        try:
            S.ret = None
            outs = self.run_body(S, fn.body)
        finally:
            self.stack = save; self.line = line
        for o in outs:
            o.env = {k: v for k, v in o.env.items() if k[0] != fr}
        return self.dedupe(outs)
    def canon_kd(self, s):
        """rename the delay bounds that are still used in order of use, and project the others out of the facts, so
        that states which differ only by the place where a bound was computed are joined"""
        def iskd(a):
            at = atom_of(a)
            return isinstance(at, tuple) and at[0] == 'kd'
        inf = set(a for f in s.facts.ge for a in f.atoms() if iskd(a))
        if not inf and not any(isinstance(v, Poly) and any(iskd(a) for a in v.atoms()) for v in s.env.values()): return
        live = []
        def see(v):
            if isinstance(v, Poly):
                for a in sorted(v.atoms(), key=lambda a: repr(atom_of(a))): deep(a)
            elif isinstance(v, Scal): see(v.p)
            elif isinstance(v, Packed): see((v.su, v.d, v.sl))
            elif isinstance(v, At): see((v.r, v.c, v.nr, v.nc))
            elif isinstance(v, Mat):
                for w in sorted(v.d, key=repr): see(w); see(v.d[w])
            elif isinstance(v, Grid):
                for r in v.e: see(tuple(r))
            elif isinstance(v, Free): see(v.t)
            elif isinstance(v, Ptr): see(v.off)
            elif isinstance(v, Ref) and v.l[0] == 'mem': see(v.l[1])
            elif isinstance(v, tuple):
                for x in v: see(x)
        def deep(a):
            if iskd(a):
                if a not in live: live.append(a)
                return
            at = atom_of(a)
            if isinstance(at, tuple):
                for x in at[1:]: see(x)
        for k in sorted(s.env, key=repr):
            see(s.env[k])
        see(s.ret)
        for k in sorted(s.flds, key=repr): see(s.flds[k])
        for n in sorted(s.objs):
            o = s.objs[n]
            see(o.ld); see(o.hint)
            for c in sorted(o.cells, key=repr): see(c)
        if s.tasks or s.log or s.cur is not None: return
        for a in sorted(inf - set(live), key=lambda a: repr(atom_of(a))):
            pos = []; neg = []; keep = []
            for f in s.facts.ge:
                if not any(contains(x, a) for x in f.atoms()): keep.append(f); continue
                c = f.d.get(((a, 1),))
                if c is None or sum(1 for m in f.d if any(contains(x, a) for x, e in m)) != 1: continue
                (pos if c > 0 else neg).append((f, abs(c)))
            for f, c in pos:
                for g, d in neg:
                    h = f.scale(d) + g.scale(c)
                    if not h.isconst() and not allpos(h) and h not in keep: keep.append(h)
            s.facts.ge = keep
            s.neq = frozenset(x for x in s.neq if not any(contains(y, a) for y in x.atoms()))
        if [atom_of(a) for a in live] == [('kd', '#', i) for i in range(len(live))]: return
        for i, a in enumerate(live): s.subst(a, Poly.sym(('kd', '~', i)))
        for i in range(len(live)): s.subst(aid(('kd', '~', i)), Poly.sym(('kd', '#', i)))
    def dedupe(self, states):
        seen = {}
        out = []
        for s in states:
            if len(states) > 1: self.canon_kd(s)
            k = s.key()
            if s.tasks or s.cur is not None: k = (k, tuple(x.id for x in s.tasks))
            t = seen.get(k)
            if t is None:
                seen[k] = s; out.append(s)
            else:
                fs = Facts([f for f in t.facts.ge if f in s.facts.ge]); fs.I = t.facts.I; fs.ns = max(t.facts.ns, s.facts.ns); t.facts = fs
                t.neq = t.neq & s.neq
                t.conds = t.conds & s.conds
                t.taint = t.taint and s.taint
                t.join_free(s)
                if s.tasks != t.tasks:
                    t.tasks = merge_tasks(t.tasks, s.tasks)
                if s.cur is not None and t.cur is not None and s.cur is not t.cur:
                    t.cur = t.cur.but(tuple(dict.fromkeys(t.cur.acc + s.cur.acc)))
                if t.log is not None and s.log is not None and t.log is not s.log:
                    t.log = t.log + [x for x in s.log if x not in t.log]
        if len(out) > self.MAXSTATES: raise Undecided('too many states')
        return out
    # ---------------------------------------------------------------- statements
    def exec(self, st, states):
        out = Out()
        if st is None:
            out.n = states; return out
        k = st[0]
        m = getattr(self, 's_' + k, None)
        if m is None: raise Undecided('statement ' + k)
        for S in states:
            o = m(st, S)
            out.n += o.n; out.brk += o.brk; out.cont += o.cont; out.ret += o.ret
        out.n = self.dedupe(out.n)
        out.ret = self.dedupe(out.ret)
        return out
    def one(self, S):
        o = Out(); o.n = [S]; return o
    def s_nop(self, st, S): return self.one(S)
    def s_blk(self, st, S):
        out = Out(); cur = [S]
        for s in st[1]:
            if not cur: break
            o = self.exec(s, cur)
            cur = o.n; out.brk += o.brk; out.cont += o.cont; out.ret += o.ret
        out.n = cur
        return out
    def tick(self):
        self.nstmt += 1
        if self.nstmt > self.budget: raise Undecided('budget')
    def s_ds(self, st, S):
        cur = [S]
        for d in st[1]:
            nxt = []
            for s in cur: nxt += self.decl(d, s)
            cur = self.dedupe(nxt)
        o = Out(); o.n = cur
        return o
    def decl(self, d, S):
        self.tick()
        self.line = d[1]
        vid, t, init = d[3], d[4], d[6]
        loc = (self.fr(), vid)
        def setv(s, v):
            c = tclass(t)
            if c == 'int' and not t.endswith('&'): v = self.conv(s, v, t)
            elif c == 'flt' and isinstance(v, (bool, Poly)): v = self.conv(s, v, t)
            s.env[loc] = v
        if init is None:
            if t.endswith(']'):
                if len(d) > 8 or tclass(t.split('[')[0].strip()) == 'flt':
                    if tclass(t.split('[')[0].strip()) == 'flt':
                        n = 'arr:%s' % d[2]
                        S.env[loc] = self.new_obj(S, n, ONE, 'loc', 'undef', vec=True)
                        return [S]
                S.env[loc] = TOP; return [S]
            c = tclass(t)
            S.env[loc] = TOP if c != 'rec' else Rec('%s@%d' % (d[2], d[1]))
            return [S]
        if t.endswith(']'):
            if tclass(t.split('[')[0].strip()) == 'flt':
                S.env[loc] = self.new_obj(S, 'arr:%s' % d[2], ONE, 'loc', 'undef', vec=True)
            else: S.env[loc] = TOP
            return [S]
        if t.endswith('&') :
            def f(s):
                l = self.lval(s, init)
                if l[0] != 'none': s.env[loc] = Ref(l)
                else: s.env[loc] = self.rv(s, init)
            return [s for _, s in self.variants(S, f)]
        ie = strip(init)
        if tclass(t) == 'rec' and ie and ie[0] in ('ctor', 'init', 'plist') and 'vector<' not in t:
            def f(s):
                a = ie[4] if ie[0] == 'ctor' else ie[-1]
                for x in a: self.ev(s, x)
                if ie[0] == 'ctor' and ie[5]:
                    v = self.rv(s, a[0]); s.env[loc] = v if not isinstance(v, Rec) else v
                    if isinstance(v, Rec) and 'Helper' in t: s.env[loc] = Rec('%s@%d' % (d[2], d[1]))
                else:
                    path = '%s@%d' % (d[2], d[1])
                    s.env[loc] = Rec(path)
                    for key, n in (('ForStrategy1D', 1), ('ForStrategy2D', 2)):
                        if key in t.split('<')[0]:
                            vs = [self.rv(s, x) for x in a]
                            for i in range(n): s.flds[(path, '%%n%d' % i)] = vs[i] if len(vs) == n + 1 else TOP
            return [s for _, s in self.variants(S, f)]
        r = self.call_stmt(S, ie)
        if r is not None:
            for s in r:
                v = s.ret; s.ret = None
                if isinstance(v, Ref): v = self.load(s, v.l)
                setv(s, TOP if v is None else v)
            return r
        return [s for _, s in self.variants(S, lambda s: setv(s, self.rv(s, init)))]
    def call_stmt(self, S, e):
        """direct inlining of a call in statement position; None if not applicable"""
        if not e or e[0] not in ('call', 'mcall'): return None
        name = cname(e[2])
        name = self.rename(e[2], name)
        args = e[3] if e[0] == 'call' else e[4]
        if name in self.C or '.' + name in self.C or name in self.noinline or name in ('max', 'min', 'move', 'forward', 'swap'): return None
        if e[0] == 'mcall' and name in self.FIELD: return None
        fn = self.prog.by_id.get((e[2] or {}).get('i'))
        if fn is None or fn.dep or len(self.stack) >= self.MAXDEPTH or not self.worth(S, fn, args): return None
        for a in args:
            if any(n[0] in ('call', 'mcall', 'cond') for n in walk(a)):
                return None
        self.line = e[1] or self.line
        return self.inline(S.copy(), fn, args, e[3] if e[0] == 'mcall' else None)
    def s_ex(self, st, S):
        self.tick()
        self.line = st[1] or self.line
        e = st[2]
        o = Out()
        x = strip(e)
        if x and x[0] == 'mcall' and cname(x[2]) == 'set_numthreads':      # a number of threads is never part of a size
            o.n = [S]; return o
        r = self.call_stmt(S, x)
        if r is not None:
            for s in r: s.ret = None
            o.n = r
            return o
        o.n = [s for _, s in self.variants(S, lambda s: self.ev(s, e))]
        return o
    def s_ret(self, st, S):
        self.line = st[1] or self.line
        o = Out()
        if st[2] is None:
            S.ret = None; o.ret = [S]; return o
        r = self.call_stmt(S, strip(st[2]))
        if r is not None: o.ret = r; return o
        def f(s):
            v = self.ev(s, st[2])
            if isinstance(v, Ref) and v.l[0] == 'var': v = self.load(s, v.l)
            return v
        for v, s in self.variants(S, f):
            s.ret = v; o.ret.append(s)
        return o
    def s_brk(self, st, S):
        o = Out(); o.brk = [S]; return o
    def s_cont(self, st, S):
        o = Out(); o.cont = [S]; return o
    def s_if(self, st, S):
        self.line = st[1] or self.line
        if len(st) > 6 and st[6]:
            r = self.decl(st[6], S); S = r[0]
        if st[2] is not None and not has_effect(st[3]):
            return self.exec(st[4] if st[2] else st[5], [S])
        vs = self.variants(S, lambda s: self.truth(s, self.rv(s, st[3])))
        out = Out()
        a = self.dedupe([s for v, s in vs if v]); b = self.dedupe([s for v, s in vs if not v])
        for br, ss in ((st[4], a), (st[5], b)):
            if not ss: continue
            o = self.exec(br, ss)
            out.n += o.n; out.brk += o.brk; out.cont += o.cont; out.ret += o.ret
        return out
    def s_sw(self, st, S):
        self.line = st[1] or self.line
        body = st[3]
        items = body[1] if body and body[0] == 'blk' else [body]
        flat = []      # (labels, stmt)
        for s in items:
            labels = []
            while s and s[0] in ('case', 'default'):
                labels.append(s[2] if s[0] == 'case' else None)
                s = s[3] if s[0] == 'case' else s[2]
            flat.append((labels, s))
        def f(s):
            v = self.rv(s, st[2])
            dflt = None
            for i, (ls, x) in enumerate(flat):
                for l in ls:
                    if l is None: dflt = i; continue
                    if self.truth(s, self.cmp(s, '==', v, self.rv(s, l))): return i
            return dflt
        out = Out()
        for i, s in self.variants(S, f):
            if i is None: out.n.append(s); continue
            cur = [s]
            for ls, x in flat[i:]:
                if not cur: break
                o = self.exec(x, cur)
                cur = o.n; out.n += o.brk; out.cont += o.cont; out.ret += o.ret
            out.n += cur
        return out
    def s_try(self, st, S): return self.exec(st[2], [S])
    def s_for(self, st, S):
        self.line = st[1]
        o = self.exec(st[2], [S]) if st[2] else self.one(S)
        out = Out()
        for s in o.n:
            r = self.loop(s, st[3], st[4], st[5], st[1])
            out.n += r.n; out.ret += r.ret
        return out
    def s_while(self, st, S): return self.loop(S, st[3], None, st[4], st[1])
    def s_do(self, st, S):
        if not self.unroll: raise Undecided('do loop')
        return self.unrolled(S, st[3], None, st[4], st[1], first=False)
    def s_rfor(self, st, S): raise Undecided('range for')
    def s_omp(self, st, S):
        h = getattr(self, 'omp', None)
        return h(st, S)
    def omp(self, st, S):
        return self.exec(st[4], [S]) if st[4] else self.one(S)
    def s_label(self, st, S): return self.exec(st[3], [S])
    # ---------------------------------------------------------------- loops
    def residue_loop(self, S, cond, inc, body, line):
        """for (i = 0; i < number of moduli; ++i): the body handles one residue of every operand"""
        if not (cond is not None and cond[0] == 'bin' and cond[2] == '<' and inc is not None): return None
        c = strip(cond[3])
        if c[0] != 'v': return None
        r = strip(cond[4])
        if r[0] == 'mcall' and not (r[2] or {}).get('q', '').startswith('FFPACK::RNSInteger'): return None
        if r[0] not in ('mcall', 'v'): return None
        if self.rv(S, r) != Poly.sym(RNSIZE): return None
        loc = self.lval(S, c)
        if self.rv(S, c) != ZERO: return None
        res = Poly.sym(RES)
        S.facts.add(res); S.facts.add(Poly.sym(RNSIZE) - 1 - res)
        self.store(S, loc, res)
        o = self.exec(body, [S])
        if o.brk or o.ret: raise Undecided('loop over the residues left early')
        out = Out()
        for s in o.n + o.cont:
            self.ev(s, inc)
            if self.load(s, loc) != res + 1: raise Undecided('loop over the residues')
            self.store(s, loc, Poly.sym(RNSIZE)); out.n.append(s)
        return out
    def loop(self, S, cond, inc, body, line):
        from loops import run_loop
        r = self.residue_loop(S, cond, inc, body, line)
        if r is not None: return r
        if not self.unroll: return run_loop(self, S, cond, inc, body, line)
        try: return run_loop(self, S.copy(), cond, inc, body, line)
        except Undecided as ex:
            if getattr(ex, 'hard', False): raise
            return self.unrolled(S, cond, inc, body, line)
    def unrolled(self, S, cond, inc, body, line, first=True):
        """bounded expansion of a loop that cannot be summarised: executions of more than self.unroll
        iterations are not explored"""
        out = Out()
        cur = [S]
        for k in range(self.unroll + 1):
            nxt = []
            for s in cur:
                if cond is None or (not first and k == 0): nxt.append(s); continue
                for v, x in self.variants(s, lambda z: self.truth(z, self.rv(z, cond))):
                    (nxt if v else out.n).append(x)
            if not nxt: break
            if k == self.unroll:
                self.bounded += 1
                break
            o = self.exec(body, self.dedupe(nxt))
            out.n += o.brk; out.ret += o.ret
            cur = o.n + o.cont
            if inc is not None: cur = [x for s in cur for _, x in self.variants(s, lambda z: self.ev(z, inc))]
            cur = self.dedupe(cur)
        out.n = self.dedupe(out.n)
        return out

def ctr_in(a):
    at = atom_of(a)
    if isinstance(at, tuple):
        if at[0] == 'ctr': return True
        return any(isinstance(x, Poly) and any(ctr_in(y) for y in x.atoms()) for x in at[1:])
    return False
def factors(v):
    if isinstance(v, Free) and isinstance(v.t, tuple) and v.t[0] == '*' and len(v.t) == 3: return factors(v.t[1]) + factors(v.t[2])
    return [v]
def as_int(v):
    if isinstance(v, Poly): return v
    if isinstance(v, Scal) and v.p.isconst(): return v.p
    if isinstance(v, Free) and isinstance(v.t, tuple) and v.t[0] == 'int': return v.t[1]
    return None
def integral(v):
    p = v.p if isinstance(v, Scal) else v
    return all(isinstance(c, int) for c in p.d.values()) and all(e > 0 for m in p.d for _, e in m)
def is_char(p):
    if len(p.d) != 1: return False
    (m, c), = p.d.items()
    if len(m) != 1 or m[0][1] != 1 or not isinstance(c, int): return False
    at = atom_of(m[0][0])
    return isinstance(at, tuple) and at[0] == 'sgn' and isinstance(at[1], str) and at[1].startswith('char:')

def pow2(b):
    """2**b, b a polynomial; constant parts are pulled out"""
    c = b.cval()
    rest = b - c
    if rest.iszero(): return P(2 ** int(c))
    a = Poly.sym(('pow2', rest))
    if c == 0: return a
    if c > 0: return a.scale(2 ** int(c))
    return a.scale(Fraction(1, 2 ** int(-c)))

def merge_tasks(a, b):
    d = {}
    for t in a + b:
        if t.id in d:
            o = d[t.id]
            d[t.id] = t.but(tuple(dict.fromkeys(o.acc + t.acc)))
        else: d[t.id] = t
    return tuple(d.values())

def has_effect(e):
    for n in walk(e):
        if n[0] in ('asg', 'call', 'mcall', 'op') or (n[0] == 'un' and n[2][:2] in ('++', '--')): return True
    return False
