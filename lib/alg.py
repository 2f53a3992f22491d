"""Algebra for the block-value analysis: commutative (Laurent) polynomials for sizes and field
scalars, and noncommutative polynomials in rectangular blocks of the operands for matrix values."""
from fractions import Fraction

# ------------------------------------------------------------------ interned atoms
_ids = {}
_atoms = []
def aid(a):
    i = _ids.get(a)
    if i is None:
        i = len(_atoms); _ids[a] = i; _atoms.append(a)
    return i
def atom_of(i): return _atoms[i]

def _c(x):
    if isinstance(x, Fraction) and x.denominator == 1: return int(x)
    return x

class Poly(object):
    """immutable polynomial: monomial (sorted tuple of (atomid, exp)) -> coefficient"""
    __slots__ = ('d', '_h')
    def __init__(self, d=None):
        self.d = d or {}; self._h = None
    @staticmethod
    def const(c): return Poly({(): c}) if c else ZERO
    @staticmethod
    def sym(a, e=1): return Poly({((aid(a), e),): 1})
    def __hash__(self):
        if self._h is None: self._h = hash(frozenset(self.d.items()))
        return self._h
    def __eq__(self, o): return isinstance(o, Poly) and self.d == o.d
    def __ne__(self, o): return not self == o
    def __add__(self, o):
        o = P(o)
        if not o.d: return self
        if not self.d: return o
        d = dict(self.d)
        for m, c in o.d.items():
            v = d.get(m, 0) + c
            if v: d[m] = _c(v)
            else: d.pop(m, None)
        return Poly(d)
    __radd__ = __add__
    def __neg__(self): return Poly({m: -c for m, c in self.d.items()})
    def __sub__(self, o): return self + (-P(o))
    def __rsub__(self, o): return P(o) - self
    def __mul__(self, o):
        o = P(o)
        d = {}
        for m, c in self.d.items():
            for n, e in o.d.items():
                k = mmul(m, n)
                v = d.get(k, 0) + c * e
                if v: d[k] = _c(v)
                else: d.pop(k, None)
        return Poly(d)
    __rmul__ = __mul__
    def scale(self, c): return Poly({m: _c(v * c) for m, v in self.d.items()}) if c else ZERO
    def iszero(self): return not self.d
    def isconst(self): return not self.d or (len(self.d) == 1 and () in self.d)
    def cval(self): return self.d.get((), 0)
    def inv(self):
        if len(self.d) != 1: return None
        (m, c), = self.d.items()
        return Poly({tuple((a, -e) for a, e in m): _c(Fraction(1) / c)})
    def atoms(self):
        s = set()
        for m in self.d:
            for a, e in m: s.add(a)
        return s
    def subst(self, a, p):
        """replace atom id a by polynomial p, also inside compound atoms"""
        if not any(contains(x, a) for m in self.d for x, e in m): return self
        r = ZERO
        for m, c in self.d.items():
            t = Poly({(): c}); rest = []
            for x, e in m:
                if contains(x, a):
                    px = p if x == a else rebuild(x, a, p)
                    if e < 0:
                        q = px.inv()
                        if q is None: return None
                        for _ in range(-e): t = t * q
                    else:
                        for _ in range(e): t = t * px
                else: rest.append((x, e))
            r = r + t * Poly({tuple(rest): 1})
        return r
    def split(self, a):
        """self = q*a + r, a an atom occurring at most linearly in q's terms; returns (q, r) or None"""
        q = {}; r = {}
        for m, c in self.d.items():
            e = [x for x in m if x[0] == a]
            if e:
                if e[0][1] < 1: return None
                k = []
                for x in m:
                    if x[0] == a:
                        if x[1] > 1: k.append((a, x[1] - 1))
                    else: k.append(x)
                q[tuple(k)] = c
            else: r[m] = c
        return Poly(q), Poly(r)
    def __repr__(self):
        if not self.d: return '0'
        out = []
        for m, c in sorted(self.d.items(), key=lambda x: repr(x[0])):
            s = '*'.join(astr(_atoms[a]) + ('' if e == 1 else '^%d' % e) for a, e in m)
            if not s: out.append(str(c))
            elif c == 1: out.append(s)
            elif c == -1: out.append('-' + s)
            else: out.append('%s*%s' % (c, s))
        return '+'.join(out).replace('+-', '-')

_cont = {}
def contains(x, a):
    """does atom x mention atom a?"""
    if x == a: return True
    at = _atoms[x]
    if not isinstance(at, tuple): return False
    s = _cont.get(x)
    if s is None:
        s = set()
        for y in at[1:]:
            if isinstance(y, Poly):
                for z in y.atoms():
                    s.add(z); contains(z, -1); s |= _cont.get(z, set())
            elif isinstance(y, tuple):
                for w in y:
                    if isinstance(w, At):
                        for q in w.polys():
                            for z in q.atoms():
                                s.add(z); contains(z, -1); s |= _cont.get(z, set())
        _cont[x] = s
    return a in s

def rebuild(x, a, p):
    at = _atoms[x]
    k = at[0]
    if k == 'el': return el(tuple(y.subst(a, p) for y in at[1]))
    args = [y.subst(a, p) if isinstance(y, Poly) else y for y in at[1:]]
    if k == 'fdiv': return fdiv(*args)
    if k == 'max': return nmax(*args)
    if k == 'min': return nmin(*args)
    return Poly.sym((k,) + tuple(args))

def mmul(m, n):
    if not m: return n
    if not n: return m
    d = dict(m)
    for a, e in n:
        v = d.get(a, 0) + e
        if v: d[a] = v
        else: del d[a]
    return tuple(sorted(d.items()))

ZERO = Poly({})
ONE = Poly({(): 1})
def P(x):
    if isinstance(x, Poly): return x
    return Poly({(): x}) if x else ZERO

def astr(a):
    if isinstance(a, str): return a
    if a and a[0] == 'el': return '<' + wstr(a[1]) + '>'
    return '%s(%s)' % (a[0], ','.join(repr(x) if isinstance(x, Poly) else str(x) for x in a[1:]))

# ------------------------------------------------------------------ integer facts
class Facts(object):
    """set of polynomials known to be >= 0; all plain atoms are sizes (>= 0) unless listed in signed"""
    def __init__(self, ge=()):
        self.ge = list(ge); self.I = None; self.ns = 0
    def copy(self):
        f = Facts(self.ge); f.I = self.I; f.ns = self.ns
        return f
    def split(self, d):
        """case split on the strict sign of an undetermined difference; None when not possible"""
        return self.I.split_order(self, d) if self.I is not None else None
    def add(self, p):
        if p.isconst(): return
        if p not in self.ge: self.ge.append(p)
    def nonneg(self, p, depth=3, extra=None):
        """prove p >= 0"""
        if _allpos(p): return True
        cand = list(self.ge)
        for f in self.ge:     # a product of sizes that is positive has positive factors
            if len(f.d) == 2 and f.d.get((), 0) < 0:
                m = [x for x in f.d if x != ()][0]
                if f.d[m] > 0 and len(m) > 1:
                    for a, e in m:
                        if e > 0 and not is_signed(atom_of(a)): cand.append(Poly({((a, 1),): 1}) - 1)
        seen = set()
        # derived facts of compound atoms, transitively
        todo = list(p.atoms())
        for f in cand: todo.extend(f.atoms())
        while todo:
            a = todo.pop()
            if a in seen: continue
            seen.add(a)
            at = atom_of(a)
            for f in atom_facts(at):
                cand.append(f); todo.extend(f.atoms())
            if isinstance(at, tuple) and at[0] == 'fdiv':
                d = P(at[1]) - P(at[2])
                if d in self.ge or _allpos(d) or _prove(d, self.ge, 1): cand.append(Poly.sym(at) - 1)
        return _prove(p, cand, depth)
    def ge0(self, a, b): return self.nonneg(a - b)

def _allpos(p):
    for m, c in p.d.items():
        if c < 0: return False
        for a, e in m:
            if e < 0: return False
            if is_signed(atom_of(a)): return False
    return True

allpos = _allpos

def is_signed(a):
    return isinstance(a, tuple) and a[0] in ('sgn', 'el')

_prove_memo = {}
def _prove(p, cand, depth):
    if _allpos(p): return True
    if depth == 0: return False
    # negative monomials must be cancelled by a fact containing them positively... pick one
    neg = [m for m, c in p.d.items() if c < 0]
    if not neg: return False
    m = min(neg)
    c = p.d[m]
    for f in cand:
        k = f.d.get(m)
        if k is not None and k < 0:
            q = p - f.scale(Fraction(c) / k)
            if _prove(q, cand, depth - 1): return True
        # multiply the fact by a monomial
        elif len(m) >= 1 and k is None:
            if len(f.d) == 2 and f.d.get((), 0) < 0:
                # x >= c times the monomial, when the product x*m is bounded by a known fact
                x = [y for y in f.d if y != ()][0]
                if f.d[x] > 0 and len(x) == 1 and not any(is_signed(atom_of(a)) or e < 0 for a, e in m):
                    xm = f * Poly({m: 1})
                    big = [y for y in xm.d if y != m]
                    if big and (p.d.get(big[0], 0) > 0 or any(h.d.get(big[0], 0) < 0 for h in cand)):
                        q = p - xm.scale(Fraction(c) / f.d[()])
                        if _prove(q, cand, depth - 1): return True
            for fm, fc in f.d.items():
                if fc < 0 and fm and _mdiv(m, fm) is not None:
                    g = _mdiv(m, fm)
                    if any(e < 0 or is_signed(atom_of(a)) for a, e in g): continue
                    q = p - f * Poly({g: Fraction(c) / fc})
                    if _prove(q, cand, depth - 1): return True
    return False

def _mdiv(m, n):
    d = dict(m)
    for a, e in n:
        v = d.get(a, 0) - e
        if v < 0: return None
        if v: d[a] = v
        else: d.pop(a, None)
    return tuple(sorted(d.items()))

def atom_facts(a):
    if not isinstance(a, tuple): return ()
    k = a[0]
    s = Poly.sym(a)
    if k == 'fdiv':
        n, c = a[1], a[2]
        r = [n - c * s]
        r.append(c * s + c - 1 - n)
        return r
    if k == 'mod':
        return [a[2] - 1 - s]
    if k == 'max': return [s - a[1], s - a[2]]
    if k == 'min': return [a[1] - s, a[2] - s]
    return ()

def fdiv(n, c):
    n = P(n); c = P(c)
    if c.isconst() and c.cval():
        cv = c.cval()
        if n.isconst(): return P(n.cval() // cv)
        # pull out exact multiples
        q = {}; r = {}
        for m, v in n.d.items():
            if isinstance(v, int) and v % cv == 0: q[m] = v // cv
            else: r[m] = v
        if not r: return Poly(q)
        # floor((q*c + r)/c) = q + floor(r/c) holds for any integer q
        if q and r:
            return Poly(q) + Poly.sym(('fdiv', Poly(r), c))
        return Poly.sym(('fdiv', n, c))
    if n.iszero(): return ZERO
    if n == c: return ONE
    # exact division by a monomial
    if len(c.d) == 1:
        (cm, cc), = c.d.items()
        q = {}
        for m, v in n.d.items():
            g = _mdiv(m, cm)
            if g is None or Fraction(v) / cc != int(Fraction(v) / cc): q = None; break
            q[g] = int(Fraction(v) / cc)
        if q is not None: return Poly(q)
    return Poly.sym(('fdiv', n, c))
def nmod(n, c): return P(n) - P(c) * fdiv(n, c)
def nmax(a, b):
    a = P(a); b = P(b)
    if a == b: return a
    d = a - b
    if d.isconst(): return a if d.cval() >= 0 else b
    if repr(b) < repr(a): a, b = b, a
    return Poly.sym(('max', a, b))
def nmin(a, b):
    a = P(a); b = P(b)
    if a == b: return a
    d = a - b
    if d.isconst(): return b if d.cval() >= 0 else a
    if repr(b) < repr(a): a, b = b, a
    return Poly.sym(('min', a, b))

# ------------------------------------------------------------------ matrix atoms and words
class At(object):
    """block of a base matrix: rows [r,r+nr), columns [c,c+nc) (coordinates of the stored matrix),
    transposed if t; kind: '' plain, 'UN','UU','LN','LU' triangular part (square diagonal block),
    inv: inverse of it; 'I' identity"""
    __slots__ = ('o', 'r', 'c', 'nr', 'nc', 't', 'k', 'inv', '_h')
    def __init__(self, o, r, c, nr, nc, t=False, k='', inv=False):
        self.o = o; self.r = r; self.c = c; self.nr = nr; self.nc = nc; self.t = t; self.k = k; self.inv = inv
        self._h = hash((o, r, c, nr, nc, t, k, inv))
    def __hash__(self): return self._h
    def __eq__(self, x):
        return isinstance(x, At) and self._h == x._h and self.o == x.o and self.r == x.r and self.c == x.c and \
            self.nr == x.nr and self.nc == x.nc and self.t == x.t and self.k == x.k and self.inv == x.inv
    def T(self):
        if self.k == 'D': return self
        return At(self.o, self.r, self.c, self.nr, self.nc, not self.t, self.k, self.inv)
    def rows(self): return self.nc if self.t else self.nr
    def cols(self): return self.nr if self.t else self.nc
    def with_(self, **kw):
        d = dict(o=self.o, r=self.r, c=self.c, nr=self.nr, nc=self.nc, t=self.t, k=self.k, inv=self.inv)
        d.update(kw); return At(**d)
    def sub(self, i0, n, axis):
        """block of rows (axis 0) / columns (axis 1) [i0, i0+n) of the (possibly transposed) atom; plain atoms"""
        if (axis == 0) != self.t:
            return self.with_(r=self.r + i0, nr=n)
        return self.with_(c=self.c + i0, nc=n)
    def subst(self, a, p):
        return At(self.o, self.r.subst(a, p), self.c.subst(a, p), self.nr.subst(a, p), self.nc.subst(a, p), self.t, self.k, self.inv)
    def key(self): return repr(self)
    def __repr__(self):
        s = '%s%s[%r:+%r,%r:+%r]' % (self.k + '.' if self.k else '', self.o, self.r, self.nr, self.c, self.nc)
        if self.inv: s += "^-1"
        if self.t: s += "'"
        return s
    def polys(self): return (self.r, self.c, self.nr, self.nc)

def wstr(w): return '.'.join(repr(a) for a in w) if w else '1'
def wT(w): return tuple(a.T() for a in reversed(w))

def el(w):
    """scalar symbol for a 1x1 word"""
    t = wT(w)
    if repr(t) < repr(w): w = t
    if not w: return ONE
    if len(w) == 1 and w[0].k:
        x = w[0]
        if x.k in ('UU', 'LU'): return ONE
        if x.k in ('UN', 'LN'):
            s = Poly.sym(('el', (At(x.o, x.r, x.c, x.nr, x.nc, el1(x)),)))
            if not x.inv: return s
            (m, c), = s.d.items()
            return Poly({((m[0][0], -1),): 1})
        if x.k == 'I':
            d = x.r - x.c
            if d.isconst(): return ONE if d.iszero() else ZERO
    return Poly.sym(('el', w))
def el1(x):
    """orientation el() uses for the plain 1x1 block"""
    w = (At(x.o, x.r, x.c, x.nr, x.nc),)
    return repr(wT(w)) < repr(w)

class Mat(object):
    """matrix polynomial: word -> scalar Poly; dims (nr, nc)"""
    __slots__ = ('nr', 'nc', 'd', '_h')
    def __init__(self, nr, nc, d=None):
        self.nr = P(nr); self.nc = P(nc); self.d = d or {}; self._h = None
    @staticmethod
    def atom(a):
        return norm(Mat(a.rows(), a.cols(), {(a,): ONE}))
    @staticmethod
    def zero(nr, nc): return Mat(nr, nc, {})
    def __hash__(self):
        if self._h is None: self._h = hash((self.nr, self.nc, frozenset(self.d.items())))
        return self._h
    def __eq__(self, o): return isinstance(o, Mat) and self.nr == o.nr and self.nc == o.nc and self.d == o.d
    def __add__(self, o):
        d = dict(self.d)
        for w, c in o.d.items():
            v = d[w] + c if w in d else c
            if v.d: d[w] = v
            else: d.pop(w, None)
        return Mat(self.nr, self.nc, d)
    def scale(self, s):
        s = P(s)
        if not s.d: return Mat(self.nr, self.nc)
        return Mat(self.nr, self.nc, {w: c * s for w, c in self.d.items()})
    def __neg__(self): return self.scale(P(-1))
    def __sub__(self, o): return self + (-o)
    def mul(self, o):
        d = {}
        for w, c in self.d.items():
            for v, e in o.d.items():
                k = wmul(w, v)
                if k is None: continue
                x = d.get(k)
                x = x + c * e if x is not None else c * e
                if x.d: d[k] = x
                else: d.pop(k, None)
        return norm(Mat(self.nr, o.nc, d))
    def T(self):
        return Mat(self.nc, self.nr, {wT(w): c for w, c in self.d.items()})
    def iszero(self): return not self.d
    def subst(self, a, p):
        r = Mat(self.nr.subst(a, p), self.nc.subst(a, p))
        d = {}
        for w, c in self.d.items():
            w2 = tuple(x.subst(a, p) for x in w)
            c2 = c.subst(a, p)
            v = d.get(w2)
            v = v + c2 if v is not None else c2
            if v.d: d[w2] = v
            else: d.pop(w2, None)
        r.d = d
        return norm(r)
    def scal_subst(self, a, p):
        d = {}
        for w, c in self.d.items():
            c = c.subst(a, p)
            if c is not None and c.d: d[w] = c
        return Mat(self.nr, self.nc, d)
    def __repr__(self):
        if not self.d: return '0'
        return ' + '.join(('' if c == ONE else '(%r)' % c) + wstr(w) for w, c in sorted(self.d.items(), key=lambda x: repr(x)))

def norm(m):
    """pull 1x1 factors out of words; drop empty blocks"""
    ch = False
    d = {}
    for w, c in m.d.items():
        zero = False
        for x in w:
            if x.nr.iszero() or x.nc.iszero(): zero = True
        if zero:
            ch = True; continue
        if m.nr == ONE or m.nc == ONE or any(x.nr == ONE or x.nc == ONE for x in w):
            w2, c2 = pull(w, c)
        else: w2, c2 = w, c
        if w2 != w: ch = True
        v = d.get(w2)
        v = v + c2 if v is not None else c2
        if v.d: d[w2] = v
        else: d.pop(w2, None); ch = True
    if not ch: return m
    return Mat(m.nr, m.nc, d)

def pull(w, c):
    i = 0
    w = list(w)
    again = True
    while again:
        again = False
        n = len(w)
        for L in range(1, n + 1):
            for i in range(0, n - L + 1):
                if w[i].rows() == ONE and w[i + L - 1].cols() == ONE:
                    s = el(tuple(w[i:i + L]))
                    c = c * s
                    del w[i:i + L]
                    again = True
                    break
            if again: break
    return tuple(w), c

class Undecided(Exception):
    pass

def _is_id(x):
    return x.k == 'I' and x.r == x.c and x.nr == x.nc

def wmul(a, b):
    a = list(a); b = list(b)
    while a and b:
        x, y = a[-1], b[0]
        if _is_id(x): a.pop(); continue
        if _is_id(y): b.pop(0); continue
        if x.k and x.k != 'I' and x.inv != y.inv and x.with_(inv=False) == y.with_(inv=False):
            a.pop(); b.pop(0); continue
        if x.k == 'P' and y.k == 'P' and x.t != y.t and x.with_(t=False) == y.with_(t=False) and x.inv == y.inv:
            a.pop(); b.pop(0); continue
        break
    return tuple(a + b)

# ------------------------------------------------------------------ splitting
def sgn0(p):
    """True if p is syntactically >= 0"""
    return _allpos(p)

def fix_I(m):
    """drop aligned identities and provably zero identity pieces"""
    ch = False; d = {}
    for w, c in m.d.items():
        z = False; out = []
        for x in w:
            if x.k == 'I':
                if _is_id(x): ch = True; continue
                if sgn0(x.c - x.r - x.nr) or sgn0(x.r - x.c - x.nc): z = True; break
            out.append(x)
        if z: ch = True; continue
        out = tuple(out)
        v = d.get(out); v = v + c if v is not None else c
        if v.d: d[out] = v
        else: d.pop(out, None)
    if not ch: return m
    return Mat(m.nr, m.nc, d)

def expand2(x, cut):
    """2x2 block expansion (as matrices) of a square special atom at position cut (0<cut<n)"""
    n = x.rows(); rest = n - cut
    k = x.k
    if k == 'D':
        a = x.with_(r=x.r, nr=cut, nc=cut)
        b = x.with_(c=x.c + cut, nr=rest, nc=rest) if x.t else x.with_(r=x.r + cut, nr=rest, nc=rest)
        a, b = (y.with_(t=False, k='') if y.nr == ONE and not y.inv else y for y in (a, b))
        return [[Mat.atom(a), Mat.zero(cut, rest)], [Mat.zero(rest, cut), Mat.atom(b)]]
    if k not in ('UN', 'UU', 'LN', 'LU', 'S'): return None
    base = x.with_(t=False, inv=False)
    a11 = base.with_(nr=cut, nc=cut)
    a22 = base.with_(r=base.r + cut, c=base.c + cut, nr=rest, nc=rest)
    up = k[0] == 'U'
    if k == 'S':
        if x.inv: return None
        off = At(base.o, base.r, base.c + cut, cut, rest)     # upper off-diagonal block is the reference
        M = [[Mat.atom(a11), Mat.atom(off)], [Mat.atom(off.T()), Mat.atom(a22)]]
        return M
    off = At(base.o, base.r, base.c + cut, cut, rest) if up else At(base.o, base.r + cut, base.c, rest, cut)
    if not x.inv:
        M11, M22, MO = Mat.atom(a11), Mat.atom(a22), Mat.atom(off)
    else:
        M11, M22 = Mat.atom(a11.with_(inv=True)), Mat.atom(a22.with_(inv=True))
        MO = -(M11.mul(Mat.atom(off)).mul(M22)) if up else -(M22.mul(Mat.atom(off)).mul(M11))
    if up: M = [[M11, MO], [Mat.zero(rest, cut), M22]]
    else: M = [[M11, Mat.zero(cut, rest)], [MO, M22]]
    if x.t:
        M = [[M[0][0].T(), M[1][0].T()], [M[0][1].T(), M[1][1].T()]]
    return M

def word_split_rows(w, n, cut):
    """(top, bottom) matrices of word w (n rows) cut at row `cut`"""
    rest = n - cut
    if not w:
        a = At('I', ZERO, ZERO, cut, n, False, 'I'); b = At('I', cut, ZERO, rest, n, False, 'I')
        return Mat(cut, n, {(a,): ONE}), Mat(rest, n, {(b,): ONE})
    x = w[0]; tail = w[1:]
    if x.k in ('', 'I') and not x.inv:
        nc = w[-1].cols()
        m1 = Mat(cut, nc, {(x.sub(ZERO, cut, 0),) + tail: ONE}); m2 = Mat(rest, nc, {(x.sub(cut, rest, 0),) + tail: ONE})
        return fix_I(norm(m1)), fix_I(norm(m2))
    E = expand2(x, cut)
    if E is None: raise Undecided('cannot split %r' % x)
    if tail:
        t1, t2 = word_split_rows(tail, n, cut)
    else:
        t1, t2 = word_split_rows((), n, cut)
    r1 = E[0][0].mul(t1) + E[0][1].mul(t2)
    r2 = E[1][0].mul(t1) + E[1][1].mul(t2)
    return fix_I(r1), fix_I(r2)

def split(m, axis, cut):
    """split matrix m at row (axis 0) / column (axis 1) `cut`"""
    if axis == 1:
        a, b = split(m.T(), 0, cut)
        return a.T(), b.T()
    r1 = Mat(cut, m.nc); r2 = Mat(m.nr - cut, m.nc)
    for w, c in m.d.items():
        if not w and m.nr != m.nc:
            raise Undecided('identity of rectangular shape')
        a, b = word_split_rows(w, m.nr, cut)
        r1 = r1 + a.scale(c); r2 = r2 + b.scale(c)
    return r1, r2

# ------------------------------------------------------------------ grids
class Grid(object):
    """block matrix: row cuts, column cuts (relative, starting at 0), entries Mat"""
    def __init__(self, rc, cc, e):
        self.rc = rc; self.cc = cc; self.e = e
    @staticmethod
    def of(m): return Grid([ZERO, m.nr], [ZERO, m.nc], [[m]])
    @staticmethod
    def zero(nr, nc): return Grid.of(Mat.zero(nr, nc))
    @property
    def nr(self): return self.rc[-1]
    @property
    def nc(self): return self.cc[-1]
    def T(self):
        return Grid(list(self.cc), list(self.rc), [[self.e[i][j].T() for i in range(len(self.rc) - 1)] for j in range(len(self.cc) - 1)])
    def map(self, f): return Grid(list(self.rc), list(self.cc), [[f(x) for x in r] for r in self.e])
    def scale(self, s): return self.map(lambda x: x.scale(s))
    def cut(self, axis, p, facts):
        """ensure p is a cut position"""
        cuts = self.rc if axis == 0 else self.cc
        if p in cuts: return self
        for i in range(len(cuts) - 1):
            if facts.nonneg(p - cuts[i]) and facts.nonneg(cuts[i + 1] - p):
                if axis == 0:
                    a = []; b = []
                    for m in self.e[i]:
                        x, y = split(m, 0, p - cuts[i]); a.append(x); b.append(y)
                    return Grid(cuts[:i + 1] + [p] + cuts[i + 1:], self.cc, self.e[:i] + [a, b] + self.e[i + 1:])
                ne = []
                for row in self.e:
                    x, y = split(row[i], 1, p - cuts[i])
                    ne.append(row[:i] + [x, y] + row[i + 1:])
                return Grid(self.rc, cuts[:i + 1] + [p] + cuts[i + 1:], ne)
        for i in range(len(cuts)):
            for d in (p - cuts[i],):
                if not facts.nonneg(d) and not facts.nonneg(-d) and facts.split(d) is not None:
                    return self.cut(axis, p, facts)
        raise Undecided('cannot place cut %r among %r' % (p, cuts))
    def cuts(self, axis, ps, facts):
        g = self
        for p in ps: g = g.cut(axis, p, facts)
        return g
    def align(self, o, facts):
        a = self.cuts(0, o.rc, facts).cuts(1, o.cc, facts)
        b = o.cuts(0, a.rc, facts).cuts(1, a.cc, facts)
        # cut lists may be ordered differently when two cuts coincide; require identical lists
        if a.rc != b.rc or a.cc != b.cc: raise Undecided('cut order')
        return a, b
    def add(self, o, facts):
        a, b = self.align(o, facts)
        return Grid(a.rc, a.cc, [[x + y for x, y in zip(r, s)] for r, s in zip(a.e, b.e)])
    def mul(self, o, facts):
        a = self.cuts(1, o.rc, facts); b = o.cuts(0, a.cc, facts)
        if a.cc != b.rc: raise Undecided('inner cut order')
        e = []
        for i in range(len(a.rc) - 1):
            row = []
            for j in range(len(b.cc) - 1):
                s = Mat.zero(a.rc[i + 1] - a.rc[i], b.cc[j + 1] - b.cc[j])
                for l in range(len(a.cc) - 1):
                    s = s + a.e[i][l].mul(b.e[l][j])
                row.append(s)
            e.append(row)
        return Grid(a.rc, b.cc, e)
    def blocks(self):
        for i in range(len(self.rc) - 1):
            for j in range(len(self.cc) - 1):
                yield self.rc[i], self.cc[j], self.e[i][j]

def canon(grid, facts, limit=4000):
    """refine until every word uses the finest cuts occurring anywhere in the grid"""
    grid = Grid(list(grid.rc), list(grid.cc), [list(r) for r in grid.e])
    for it in range(limit):
        cuts = {}
        def addc(x):
            if x.k == 'I': return
            cuts.setdefault((x.o, 0), set()).update((x.r, x.r + x.nr))
            cuts.setdefault((x.o, 1), set()).update((x.c, x.c + x.nc))
        for r0, c0, m in grid.blocks():
            for w, c in m.d.items():
                for x in w: addc(x)
                for a in c.atoms():
                    at = atom_of(a)
                    if isinstance(at, tuple) and at[0] == 'el':
                        for x in at[1]: addc(x)
        changed = False
        for bi in range(len(grid.rc) - 1):
            for bj in range(len(grid.cc) - 1):
                m = grid.e[bi][bj]
                for w, c in list(m.d.items()):
                    hit = find_cut(w, cuts, facts)
                    if hit is None: continue
                    pos, p = hit
                    changed = True
                    if pos == 0:
                        grid = grid.cut(0, grid.rc[bi] + p, facts)
                    elif pos == len(w):
                        grid = grid.cut(1, grid.cc[bj] + p, facts)
                    else:
                        left = Mat(w[0].rows(), w[pos - 1].cols(), {w[:pos]: ONE})
                        right = Mat(w[pos].rows(), w[-1].cols(), {w[pos:]: ONE})
                        l1, l2 = split(left, 1, p); q1, q2 = split(right, 0, p)
                        d = dict(m.d); del d[w]
                        nm = Mat(m.nr, m.nc, d) + (l1.mul(q1) + l2.mul(q2)).scale(c)
                        grid.e[bi][bj] = nm
                    break
                if changed: break
                # element symbols (inner products) inside coefficients
                nm = split_els(m, cuts, facts)
                if nm is not None:
                    grid.e[bi][bj] = nm; changed = True; break
            if changed: break
        if not changed: return grid
    raise Undecided('canonicalisation does not terminate')

def find_cut(w, cuts, facts):
    for i, x in enumerate(w):
        if x.k == 'I': continue
        # row coordinate of the stored block
        for axis, st, ln in ((0, x.r, x.nr), (1, x.c, x.nc)):
            if x.k and x.k not in ('D', 'UN', 'UU', 'LN', 'LU', 'S'): continue
            if x.k == 'D' and axis == 1: continue
            for p in sorted(cuts.get((x.o, axis), ()), key=repr):
                if p == st or p == st + ln: continue
                q = p - st
                if facts.nonneg(q) and facts.nonneg(ln - q):
                    # position: rows of x is dim i, columns dim i+1 (swapped if transposed)
                    pos = i if (axis == 0) != x.t else i + 1
                    return pos, q
    return None

def split_els(m, cuts, facts):
    for w, c in m.d.items():
        for mono, k in c.d.items():
            for a, e in mono:
                at = atom_of(a)
                if not (isinstance(at, tuple) and at[0] == 'el') or e != 1: continue
                hit = find_cut(at[1], cuts, facts)
                if hit is None: continue
                pos, p = hit
                ww = at[1]
                if pos == 0 or pos == len(ww): continue
                left = Mat(ww[0].rows(), ww[pos - 1].cols(), {ww[:pos]: ONE})
                right = Mat(ww[pos].rows(), ww[-1].cols(), {ww[pos:]: ONE})
                l1, l2 = split(left, 1, p); q1, q2 = split(right, 0, p)
                s = l1.mul(q1) + l2.mul(q2)           # 1x1
                sc = scalar_of(s)
                rest = Poly({tuple(y for y in mono if y != (a, e)): k})
                nc = c - Poly({mono: k}) + rest * sc
                d = dict(m.d)
                if nc.d: d[w] = nc
                else: del d[w]
                return Mat(m.nr, m.nc, d)
    return None

def scalar_of(m):
    """scalar polynomial of a 1x1 matrix"""
    m = norm(m)
    s = ZERO
    for w, c in m.d.items():
        s = s + (c * el(w) if w else c)
    return s

def mat_of_scalar(s): return Mat(ONE, ONE, {(): P(s)} if P(s).d else {})
