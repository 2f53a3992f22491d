"""Specifications of library routines as effects on block values.  Each handler receives the
interpreter, the state, the call node and the evaluated arguments."""
from alg import *
from absint import *
from absint import _mdiv_

def kinds(vs):
    """drop fields/helpers; keep (kind, value)"""
    out = []
    for v in vs:
        if isinstance(v, bool): out.append(('N', P(int(v))))
        elif isinstance(v, Poly): out.append(('N', v))
        elif isinstance(v, Scal): out.append(('S', v))
        elif isinstance(v, Ptr): out.append(('P', v))
        elif isinstance(v, En): out.append(('E', v))
        elif isinstance(v, Rec): out.append(('R', v))
        else: out.append(('T', v))
    return out
def sig(ks): return ''.join(k for k, v in ks)
def drop_rec(ks):
    """leading field and any trailing helper arguments"""
    return [x for x in ks if x[0] != 'R']

TRANS = {'FflasNoTrans': False, 'FflasTrans': True, 'CblasNoTrans': False, 'CblasTrans': True}
def istrans(e):
    if e.v == 111: return False
    if e.v == 112: return True
    raise Undecided('transpose flag')
def isleft(e):
    if e.v == 141: return True
    if e.v == 142: return False
    raise Undecided('side flag')
def isupper(e):
    if e.v == 121: return True
    if e.v == 122: return False
    raise Undecided('uplo flag')
def isunit(e):
    if e.v == 132: return True
    if e.v == 131: return False
    raise Undecided('diag flag')

def need(ks, pat):
    """match the leading argument kinds; T matches S (unknown scalar)"""
    if len(ks) < len(pat): return None
    out = []
    for (k, v), p in zip(ks, pat):
        if p == 'S' and k == 'N' and v.isconst(): v = Scal(v); k = 'S'
        if k != p:
            if k == 'T': raise Undecided('unknown argument')
            return None
        out.append(v)
    return out

def must(ks, *pats):
    for p in pats:
        r = need(ks, p)
        if r is not None: return p, r
    raise Undecided('call shape %s' % sig(ks))

def rd(I, S, p, ld, nr, nc): return I.read(S, p, ld, nr, nc)
def opread(I, S, p, ld, nr, nc, t):
    """op(X) of shape nr x nc"""
    if t: return I.read(S, p, ld, nc, nr).T()
    return I.read(S, p, ld, nr, nc)

def vec_rect(I, S, p, n, inc):
    """(ld, nr, nc, transposed) describing vector (p, inc) of length n as a rectangle"""
    o = S.objs.get(p.o) if isinstance(p, Ptr) else None
    if o is None:
        if P(n).iszero(): return None
        raise Undecided('vector operand')
    if o.ld is None:
        if P(n).iszero(): return None
        if o.hint is not None and o.hint != ONE and inc in (ONE, o.hint):
            S.objs[p.o] = o = o.but(ld=o.hint)
        else:
            S.objs[p.o] = o.but(ld=inc, vec=True)
            return (inc, n, ONE, False)
    if o.ld == inc and (o.vec or inc != ONE): return (o.ld, n, ONE, False)
    if inc == ONE: return (o.ld, ONE, n, True)
    if o.vec or o.kind == 'in':
        if n == ONE: return (o.ld, ONE, ONE, False)
        if S.facts.nonneg(ONE - n): return (o.ld, ONE, ONE, False)
        if o.kind == 'loc':
            return (inc, n, ONE, False)
        I.viol(S, 'stride', 'vector operand %s (distance %r) is accessed with distance %r' % (o.name, o.ld, inc), [n - 1])
    return (inc, n, ONE, False)
def flat2d(I, S, p, n, inc):
    """rows, ld if a unit-stride access of length n covers whole rows of a matrix object"""
    o = S.objs.get(p.o) if isinstance(p, Ptr) else None
    if o is None or o.ld is None or o.vec or inc != ONE: return None
    if n == o.ld: return None
    q = exact_div(n, o.ld)
    if q is None or q == ONE: return None
    return q, o.ld
def exact_div(n, d):
    if d.isconst(): return None
    if len(d.d) == 1:
        (dm, dc), = d.d.items()
        q = {}
        for m, c in n.d.items():
            g = _mdiv_(m, dm)
            if g is None: return None
            q[g] = Fraction(c) / dc
            if q[g].denominator == 1: q[g] = int(q[g])
        return Poly(q)
    return None
def vread(I, S, p, n, inc):
    """column vector value"""
    n = P(n)
    if n.iszero(): return Grid.zero(ZERO, ONE)
    ld, nr, nc, t = vec_rect(I, S, p, n, inc)
    g = I.read(S, p, ld, nr, nc, vec=True)
    return g.T() if t else g
def vwrite(I, S, p, n, inc, g):
    n = P(n)
    if n.iszero(): return
    ld, nr, nc, t = vec_rect(I, S, p, n, inc)
    I.write(S, p, ld, g.T() if t else g, vec=True)

def geom(I, S, ops, n):
    """common view of several vector operands: returns ('2d', rows, cols) or ('1d', n)"""
    for p, inc in ops:
        f = flat2d(I, S, p, n, inc)
        if f is not None:
            return ('2d',) + f
    return ('1d', n)
def eread(I, S, g, p, inc):
    if g[0] == '2d':
        if inc != ONE: raise Undecided('flattened access with stride')
        return I.read(S, p, g[2], g[1], g[2])
    return vread(I, S, p, g[1], inc)
def ewrite(I, S, g, p, inc, v):
    if g[0] == '2d':
        if inc != ONE: raise Undecided('flattened access with stride')
        I.write(S, p, g[2], v); return
    vwrite(I, S, p, g[1], inc, v)

# ------------------------------------------------------------------ element-wise routines
def ew(I, S, ks, nin, out_is_last, f, scal=0, inplace=False):
    """element-wise routine on nin inputs; scalars first or in the middle"""
    pass

def split_ew(ks, npairs):
    """(dims, scalars, pairs): dims = 1 or 2 sizes, then (P,N) pairs with optional scalars between"""
    i = 0; dims = []
    while i < len(ks) and ks[i][0] == 'N' and len(dims) < 2 and not (i > 0 and False):
        dims.append(ks[i][1]); i += 1
    sc = []; pairs = []
    while i < len(ks) and len(pairs) < npairs:
        k, v = ks[i]
        if k == 'S': sc.append((len(pairs), v)); i += 1
        elif k == 'N' and v.isconst() and i + 1 < len(ks) and ks[i + 1][0] == 'P' and False: i += 1
        elif k == 'P':
            if i + 1 < len(ks) and ks[i + 1][0] == 'N': pairs.append((v, ks[i + 1][1])); i += 2
            else: raise Undecided('pair')
        elif k == 'T': raise Undecided('unknown argument')
        elif k == 'E': raise Undecided('flag')
        else: raise Undecided('call shape %s' % sig(ks))
    if len(pairs) != npairs or not dims: raise Undecided('call shape %s' % sig(ks))
    return dims, sc, pairs

def elementwise(npairs, fn, outs=None):
    """fn(values(list of Grid), scalars, facts) -> Grid written to pair index outs (default last)"""
    def h(I, S, e, vs):
        ks = drop_rec(kinds(vs))
        dims, sc, pairs = split_ew(ks, npairs)
        o = npairs - 1 if outs is None else outs
        if len(dims) == 2:
            m, n = dims
            if m.iszero() or n.iszero(): return TOP
            vals = [(lambda p=p, l=l: I.read(S, p, l, m, n)) for p, l in pairs]
            r = fn(vals, [x.p for _, x in sc], S.facts, (m, n))
            I.write(S, pairs[o][0], pairs[o][1], r)
        else:
            n = dims[0]
            if n.iszero(): return TOP
            g = geom(I, S, pairs, n)
            vals = [(lambda p=p, l=l: eread(I, S, g, p, l)) for p, l in pairs]
            shp = (g[1], g[2]) if g[0] == '2d' else (n, ONE)
            r = fn(vals, [x.p for _, x in sc], S.facts, shp)
            ewrite(I, S, g, pairs[o][0], pairs[o][1], r)
        return TOP
    return h

def _fadd(v, s, f, d):
    a = v[0](); b = v[1]()
    if s: b = b.scale(s[0])
    return a.add(b, f)
def _fsub(v, s, f, d): return v[0]().add(v[1]().scale(P(-1)), f)
def _faddin(v, s, f, d): return v[1]().add(v[0](), f)
def _fsubin(v, s, f, d): return v[1]().add(v[0]().scale(P(-1)), f)
def _fscal(v, s, f, d):
    if s[0].iszero(): return Grid.zero(*d)
    return v[0]().scale(s[0])
def _fassign(v, s, f, d): return v[0]()
def _fneg(v, s, f, d): return v[0]().scale(P(-1))
def _faxpy(v, s, f, d):
    if s[0].iszero(): return v[1]()
    return v[1]().add(v[0]().scale(s[0]), f)
def _id(v, s, f, d): return v[0]()
def _zero(v, s, f, d): return Grid.zero(*d)

def h_fassign(I, S, e, vs):
    ks = drop_rec(kinds(vs))
    # fassign(F, [m,] n, X, incX, Y, incY): X source, Y destination
    return elementwise(2, _fassign)(I, S, e, vs)
def h_reduce(I, S, e, vs):
    """freduce/finit/fconvert: identity modulo the characteristic; in place or copying"""
    ks = drop_rec(kinds(vs))
    np = sum(1 for k, v in ks if k == 'P')
    if np == 1:
        dims, sc, pairs = split_ew(ks, 1)
        # reads and writes its operand, value unchanged
        return elementwise(1, _id)(I, S, e, vs)
    return elementwise(2, _id)(I, S, e, vs)
def h_reduce_co(I, S, e, vs):
    """freduce_constoverride: value-preserving write to a const operand"""
    return TOP
def h_fconvert(I, S, e, vs):
    # fconvert(F, n, Y(other), incy, X(const), incx): destination first
    ks = drop_rec(kinds(vs))
    return elementwise(2, lambda v, s, f, d: v[1](), outs=0)(I, S, e, vs)
def h_finit(I, S, e, vs):
    ks = drop_rec(kinds(vs))
    np = sum(1 for k, v in ks if k == 'P')
    if np == 1: return elementwise(1, _zero)(I, S, e, vs)
    return elementwise(2, lambda v, s, f, d: v[0]())(I, S, e, vs)
def h_fzero(I, S, e, vs):
    ks = drop_rec(kinds(vs))
    if any(k == 'E' for k, v in ks): raise Undecided('triangular fzero')
    return elementwise(1, _zero)(I, S, e, vs)
def h_fidentity(I, S, e, vs):
    ks = drop_rec(kinds(vs))
    pat, a = must(ks, 'NNPNS', 'NNPN')
    m, n, p, ld = a[:4]
    d = a[4].p if len(a) > 4 else ONE
    if m == n:
        I.write(S, p, ld, Grid.of(Mat(m, n, {(): d})))
    else: raise Undecided('rectangular identity')
    return TOP
def h_fswap(I, S, e, vs):
    ks = drop_rec(kinds(vs))
    dims, sc, pairs = split_ew(ks, 2)
    n = dims[0]
    a = vread(I, S, pairs[0][0], n, pairs[0][1]); b = vread(I, S, pairs[1][0], n, pairs[1][1])
    vwrite(I, S, pairs[0][0], n, pairs[0][1], b); vwrite(I, S, pairs[1][0], n, pairs[1][1], a)
    return TOP

# ------------------------------------------------------------------ products
def acc(I, S, alpha, prod, beta, p, ld, m, n):
    r = prod.scale(alpha)
    if not beta.iszero():
        r = I.read(S, p, ld, m, n).scale(beta).add(r, S.facts)
    I.write(S, p, ld, r)

def h_fgemm(I, S, e, vs):
    ks = drop_rec(kinds(vs))
    if ks and ks[0][0] == 'E' and ks[0][1].v in (101, 102) : ks = ks[1:]     # cblas order argument
    pat, a = must(ks, 'EENNNSPNPNSPN')
    ta, tb, m, n, k, al, A, lda, B, ldb, be, C, ldc = a
    ta = istrans(ta); tb = istrans(tb)
    if m.iszero() or n.iszero(): return C
    if k.iszero():
        acc(I, S, ZERO, Grid.zero(m, n), be.p, C, ldc, m, n); return C
    X = opread(I, S, A, lda, m, k, ta); Y = opread(I, S, B, ldb, k, n, tb)
    acc(I, S, al.p, X.mul(Y, S.facts), be.p, C, ldc, m, n)
    return C
def h_fsquare(I, S, e, vs):
    pat, a = must(drop_rec(kinds(vs)), 'ENSPNSPN')
    ta, n, al, A, lda, be, C, ldc = a
    return h_fgemm(I, S, e, [ta, ta, n, n, n, al, A, lda, A, lda, be, C, ldc])
def h_fgemv(I, S, e, vs):
    ks = drop_rec(kinds(vs))
    if ks and ks[0][0] == 'E' and ks[0][1].v in (101, 102): ks = ks[1:]
    pat, a = must(ks, 'ENNSPNPNSPN')
    ta, m, n, al, A, lda, X, ix, be, Y, iy = a
    t = istrans(ta)
    M, N = (n, m) if t else (m, n)      # op(A) is M x N
    if M.iszero(): return Y
    if N.iszero(): r = Grid.zero(M, ONE)
    else: r = opread(I, S, A, lda, M, N, t).mul(vread(I, S, X, N, ix), S.facts).scale(al.p)
    if not be.p.iszero(): r = vread(I, S, Y, M, iy).scale(be.p).add(r, S.facts)
    vwrite(I, S, Y, M, iy, r)
    return Y
def h_fger(I, S, e, vs):
    ks = drop_rec(kinds(vs))
    if ks and ks[0][0] == 'E' and ks[0][1].v in (101, 102): ks = ks[1:]
    pat, a = must(ks, 'NNSPNPNPN')
    m, n, al, X, ix, Y, iy, A, lda = a
    if m.iszero() or n.iszero(): return TOP
    x = vread(I, S, X, m, ix); y = vread(I, S, Y, n, iy)
    r = I.read(S, A, lda, m, n).add(x.mul(y.T(), S.facts).scale(al.p), S.facts)
    I.write(S, A, lda, r)
    return TOP
def h_fdot(I, S, e, vs):
    ks = drop_rec(kinds(vs))
    pat, a = must(ks, 'NPNPN')
    n, X, ix, Y, iy = a
    if n.iszero(): return Scal(ZERO)
    g = vread(I, S, X, n, ix).T().mul(vread(I, S, Y, n, iy), S.facts)
    r = Scal(scalar_of(g.e[0][0]))
    if e is not None and e[0] == 'call' and len(e[3]) >= 7 and not isinstance(vs[6], Rec):
        # d <- d + <x,y>
        l = I.lval(S, e[3][6]); old = I.load(S, l)
        I.store(S, l, Scal(old.p + r.p) if isinstance(old, Scal) else TOP)
        return Ref(l)
    return r
def h_maxcard(I, S, e, vs):
    """fields respect the cardinality limits of the representations they are converted to"""
    v = Poly.sym(('sgn', 'maxCardinality'))
    S.facts.add(v - 1)
    for f in ('p:F',):
        c = Poly.sym(('sgn', 'call:cardinality%r' % ((Rec(f),),)))
        S.facts.add(v - c.scale(16) - 1); S.facts.add(c - 2)
    return v

def tri_grid(I, S, g, up, unit):
    """triangular matrix stored in grid g (square), as Grid"""
    g2 = g.cuts(0, g.cc, S.facts).cuts(1, g.rc, S.facts)
    if g2.rc != g2.cc: raise Undecided('triangular operand cut')
    k = ('U' if up else 'L') + ('U' if unit else 'N')
    e = []
    n = len(g2.rc) - 1
    for i in range(n):
        row = []
        for j in range(n):
            m = g2.e[i][j]
            if i == j: row.append(tri_mat(m, up, unit, k))
            elif (i < j) == up: row.append(m)
            else: row.append(Mat.zero(g2.rc[i + 1] - g2.rc[i], g2.rc[j + 1] - g2.rc[j]))
        e.append(row)
    return Grid(g2.rc, g2.rc, e)
def tri_mat(m, up, unit, k):
    if isinstance(m, Packed):
        p = m.su if up else m.sl
        if unit:
            if is_tri(p, up, True): return p
            if single_plain(p): return tri_mat(p, up, unit, k)
            raise Undecided('triangular part of a packed cell')
        if p == m.d: return tri_mat(p, up, unit, k)
        raise Undecided('triangular part of a packed cell')
    if m.nr == ONE and not unit:
        return m
    if m.nr == ONE and unit:
        return Mat(ONE, ONE, {(): ONE})
    if is_tri(m, up, unit): return m
    if single_plain(m):
        (w, c), = m.d.items()
        x = w[0]
        if x.t: return Mat.atom(x.with_(k=('L' if up else 'U') + k[1]))
        return Mat.atom(x.with_(k=k))
    if not m.d: raise Undecided('triangular part of zero')
    raise Undecided('triangular part of %r' % m)
def single_plain(m):
    if len(m.d) != 1: return False
    (w, c), = m.d.items()
    return len(w) == 1 and c == ONE and w[0].k in ('',) and not w[0].inv
def is_tri(m, up, unit):
    """m is syntactically triangular of that shape (and unit diagonal)"""
    if not m.d: return False
    for w, c in m.d.items():
        for x in w:
            if x.k not in ('UN', 'UU', 'LN', 'LU'): return False
            if (x.k[0] == 'U') == bool(x.t): xu = False
            else: xu = True
            if xu != up: return False
            if unit and x.k[1] != 'U': return False
        if unit and (c != ONE or len(m.d) > 1): return False
    return True
def inv_grid(g, S, up):
    """inverse of a triangular grid by block substitution"""
    n = len(g.rc) - 1
    res = [[Mat.zero(g.rc[i + 1] - g.rc[i], g.rc[j + 1] - g.rc[j]) for j in range(n)] for i in range(n)]
    dinv = [inv_mat(g.e[i][i]) for i in range(n)]
    for i in range(n): res[i][i] = dinv[i]
    order = range(n)
    for d in range(1, n):
        for i in range(n - d):
            j = i + d
            a, b = (i, j) if up else (j, i)
            s = Mat.zero(res[a][b].nr, res[a][b].nc)
            rng = range(i + 1, j + 1) if up else range(i, j)
            for l in range(i, j + 1):
                if l == a: continue
                # sum over l of T[a][l] * inv[l][b]
                s = s + g.e[a][l].mul(res[l][b])
            res[a][b] = -(dinv[a].mul(s))
    return Grid(g.rc, g.cc, res)
def inv_mat(m):
    if len(m.d) != 1: raise Undecided('inverse of a sum')
    (w, c), = m.d.items()
    ci = c.inv()
    if ci is None: raise Undecided('inverse of a scalar sum')
    out = []
    for x in reversed(w):
        if x.k in ('UN', 'UU', 'LN', 'LU', 'P', 'D', 'S'): out.append(x.with_(inv=not x.inv))
        elif x.nr == ONE and x.nc == ONE: out.append(x.with_(inv=not x.inv))
        else: raise Undecided('inverse of a general block')
    return Mat(m.nc, m.nr, {tuple(out): ci})

def h_ftrsm(I, S, e, vs):
    ks = drop_rec(kinds(vs))
    if ks and ks[0][0] == 'E' and ks[0][1].v in (101, 102): ks = ks[1:]
    pat, a = must(ks, 'EEEENNSPNPN')
    side, up, tr, un, m, n, al, A, lda, B, ldb = a
    return trsmm(I, S, side, up, tr, un, m, n, al, A, lda, B, ldb, True)
def h_ftrmm(I, S, e, vs):
    ks = drop_rec(kinds(vs))
    if ks and ks[0][0] == 'E' and ks[0][1].v in (101, 102): ks = ks[1:]
    if need(ks, 'EEEENNSPNPNSPN') is not None:
        side, up, tr, un, m, n, al, A, lda, B, ldb, be, C, ldc = need(ks, 'EEEENNSPNPNSPN')
        if m.iszero() or n.iszero(): return TOP
        L = isleft(side); d = m if L else n
        T = tri_grid(I, S, I.read(S, A, lda, d, d, raw=True), isupper(up), isunit(un))
        if istrans(tr): T = T.T()
        B_ = I.read(S, B, ldb, m, n)
        r = T.mul(B_, S.facts) if L else B_.mul(T, S.facts)
        acc(I, S, al.p, r, be.p, C, ldc, m, n)
        return TOP
    pat, a = must(ks, 'EEEENNSPNPN')
    side, up, tr, un, m, n, al, A, lda, B, ldb = a
    return trsmm(I, S, side, up, tr, un, m, n, al, A, lda, B, ldb, False)
def trsmm(I, S, side, up, tr, un, m, n, al, A, lda, B, ldb, solve):
    if m.iszero() or n.iszero(): return TOP
    L = isleft(side); u = isupper(up)
    d = m if L else n
    T = tri_grid(I, S, I.read(S, A, lda, d, d, raw=True), u, isunit(un))
    if solve: T = inv_grid(T, S, u)
    if istrans(tr): T = T.T()
    X = I.read(S, B, ldb, m, n)
    r = T.mul(X, S.facts) if L else X.mul(T, S.facts)
    I.write(S, B, ldb, r.scale(al.p))
    return TOP

# vectorised kernels: unit stride unless increments are given
def vk(ins, out, f):
    """ins/out: positions of pointers in the pointer list"""
    def h(I, S, e, vs):
        ks = drop_rec(kinds(vs))
        ps = [v for k, v in ks if k == 'P']; ns = [v for k, v in ks if k == 'N']; sc = [v for k, v in ks if k == 'S']
        if len(ps) <= max(ins + [out]) or not ns: raise Undecided('vector kernel')
        n = ns[0]; incs = ns[1:]
        return f(I, S, ps, n, incs, sc)
    return h
def v_bin(sg):
    def f(I, S, ps, n, incs, sc):
        g = geom(I, S, [(p, ONE) for p in ps], n)
        r = eread(I, S, g, ps[1], ONE).add(eread(I, S, g, ps[2], ONE).scale(P(sg)), S.facts)
        ewrite(I, S, g, ps[0], ONE, r); return TOP
    return vk([1, 2], 0, f)
def v_modp(I, S, ps, n, incs, sc):
    # modp(F, U, n[, inc], T)
    inc = incs[0] if incs else ONE
    g = geom(I, S, [(p, inc) for p in ps], n)
    ewrite(I, S, g, ps[1], inc, eread(I, S, g, ps[0], inc)); return TOP
def v_scalp(I, S, ps, n, incs, sc):
    # scalp(F, T, a, U, n[, incU[, incT]])
    iu = incs[0] if incs else ONE
    it = incs[1] if len(incs) > 1 else iu
    if not sc: raise Undecided('vector kernel scalar')
    g = geom(I, S, [(ps[0], it), (ps[1], iu)], n)
    ewrite(I, S, g, ps[0], it, eread(I, S, g, ps[1], iu).scale(sc[0].p)); return TOP
def v_axpyp(I, S, ps, n, incs, sc):
    # axpyp(F, a, X, Y, n[, incX, incY])
    ix = incs[0] if incs else ONE
    iy = incs[1] if len(incs) > 1 else ix
    if not sc: raise Undecided('vector kernel scalar')
    g = geom(I, S, [(ps[0], ix), (ps[1], iy)], n)
    ewrite(I, S, g, ps[1], iy, eread(I, S, g, ps[1], iy).add(eread(I, S, g, ps[0], ix).scale(sc[0].p), S.facts)); return TOP
def h_kd(I, S, e, vs):
    """number of products that can be accumulated without reduction: any value"""
    return Poly.sym(('kd', I.line))
def h_new(I, S, e, vs):
    n = 'loc%d' % e[1]
    while n in S.objs: n += "'"
    ns = [v for v in vs if isinstance(v, Poly)]
    return I.new_obj(S, n, None, 'loc', 'undef', hint=ns[1] if len(ns) > 1 else None)
def h_nop(I, S, e, vs): return TOP
def h_del(I, S, e, vs):
    if getattr(I, 'release', None):
        for v in vs:
            if isinstance(v, Ptr): I.release(S, v)
    return TOP

def h_finit_rns(I, S, e, vs):
    ks = drop_rec(kinds(vs))
    pat, a = must(ks, 'NNNPNP')
    m, n, k, B, ldb, A = a
    if m.iszero() or n.iszero(): return TOP
    I.write(S, A, n, I.read(S, B, ldb, m, n)); return TOP
def h_fconvert_rns(I, S, e, vs):
    ks = drop_rec(kinds(vs))
    pat, a = must(ks, 'NNSPNP')
    m, n, al, B, ldb, A = a
    if m.iszero() or n.iszero(): return TOP
    r = I.read(S, A, n, m, n)
    if not al.p.iszero(): r = I.read(S, B, ldb, m, n).scale(al.p).add(r, S.facts)
    I.write(S, B, ldb, r); return TOP
def h_finit_trans_rns(I, S, e, vs):
    ks = drop_rec(kinds(vs))
    pat, a = must(ks, 'NNNPNP')
    m, n, k, B, ldb, A = a
    if m.iszero() or n.iszero(): return TOP
    I.write(S, A, m, I.read(S, B, ldb, m, n).T()); return TOP
def h_fconvert_trans_rns(I, S, e, vs):
    ks = drop_rec(kinds(vs))
    pat, a = must(ks, 'NNSPNP')
    m, n, al, B, ldb, A = a
    if m.iszero() or n.iszero(): return TOP
    r = I.read(S, A, m, n, m).T()
    if not al.p.iszero(): r = I.read(S, B, ldb, m, n).scale(al.p).add(r, S.facts)
    I.write(S, B, ldb, r); return TOP
def plane(I, p, st):
    """(pointer to the first residue, distance between residues) -> the operand"""
    from absint import RES, rstride
    if not isinstance(p, Ptr) or not isinstance(st, Poly): raise Undecided('residues')
    if st != rstride(p.o): raise Viol('residue', 'the residues of %s are addressed with the distance of another operand' % p.o, I.line)
    return Ptr(p.o, p.off + Poly.sym(RES) * st)
def h_rns_init(I, S, e, vs):
    m, n, A, st, B, ldb = vs[:6]
    if not all(isinstance(x, Poly) for x in (m, n, ldb)): raise Undecided('residues')
    if not isinstance(B, Ptr): raise Undecided('residues')
    if m.iszero() or n.iszero(): return TOP
    I.write(S, plane(I, A, st), n, I.read(S, B, ldb, m, n)); return TOP
def h_rns_convert(I, S, e, vs):
    m, n, al, B, ldb, A, st = vs[:7]
    if isinstance(al, Poly) and al.isconst(): al = Scal(al)
    if not (isinstance(al, Scal) and isinstance(B, Ptr) and all(isinstance(x, Poly) for x in (m, n, ldb))): raise Undecided('residues')
    if m.iszero() or n.iszero(): return TOP
    r = I.read(S, plane(I, A, st), n, m, n)
    if not al.p.iszero(): r = I.read(S, B, ldb, m, n).scale(al.p).add(r, S.facts)
    I.write(S, B, ldb, r); return TOP
def h_infnorm(I, S, e, vs):
    ks = drop_rec(kinds(vs))
    pat, a = must(ks, 'NNPN')
    m, n, A, lda = a
    ob = S.objs[A.o]
    if A.off.iszero() and ob.kind == 'in' and not ob.cells and ob.dflt == 'in' and ob.ld == lda: return Scal(Poly.sym(('norm', A.o)))
    return TOP
def h_abs(I, S, e, vs):
    if len(vs) == 1 and isinstance(vs[0], Scal):
        return vs[0] if vs[0].p.isconst() and vs[0].p.cval() >= 0 else Scal(Poly.sym(('abs', vs[0].p)))
    return TOP
def h_reduce_modp(I, S, e, vs): return TOP

import re
FUNCTOR = re.compile(r'\bftr(sm|mm)(Left|Right)(Upper|Lower)(NoTrans|Trans)(Unit|NonUnit)\b')
def functor_flags(q):
    m = FUNCTOR.search(q)
    if not m: return None
    kind, sd, up, tr, un = m.groups()
    return kind, (En('FflasLeft', 141) if sd == 'Left' else En('FflasRight', 142), En('FflasUpper', 121) if up == 'Upper' else En('FflasLower', 122),
                  En('FflasNoTrans', 111) if tr == 'NoTrans' else En('FflasTrans', 112), En('FflasUnit', 132) if un == 'Unit' else En('FflasNonUnit', 131))
def functor(I, S, q, vs):
    f = functor_flags(q)
    if not f: return None
    kind, (sd, up, tr, un) = f
    ks = drop_rec(kinds(vs))
    pat, a = must(ks, 'NNPNPNSPN', 'NNPNPN')
    if len(a) == 9:
        m, n, A, lda, B, ldb, be, C, ldc = a
        return h_ftrmm(I, S, None, [sd, up, tr, un, m, n, Scal(ONE), A, lda, B, ldb, be, C, ldc])
    m, n, A, lda, B, ldb = a
    return trsmm(I, S, sd, up, tr, un, m, n, Scal(ONE), A, lda, B, ldb, kind == 'sm')
def h_functor(I, S, e, args):
    q = (e[3] or {}).get('q', '')
    if not FUNCTOR.search(q): return None
    I.used.add(FUNCTOR.search(q).group(0))
    return functor(I, S, q, [I.rv(S, a) for a in args[1:]])
def h_delayed(I, S, e, vs):
    q = (e[2] or {}).get('q', '')
    if not FUNCTOR.search(q): return TOP
    nb = drop_rec(kinds(vs))[6:7]
    # TRSMBound<Field> resolves to the generic overload (1): the delayed solver is specified for it only
    if nb and nb[0][0] == 'N' and nb[0] != ('N', ONE) and e is not None and not I.in_delayed: raise Undecided('delayed solver with a block size other than 1')
    r = functor(I, S, q, vs)
    if r is None: raise Undecided('delayed')
    return r
def h_functor_m(I, S, e, vs):
    r = functor(I, S, (e[2] or {}).get('q', ''), vs)
    if r is None: raise Undecided('call of an operator() with a matrix operand')
    return r
def h_wino(I, S, e, vs):
    """one recursion level on 2m x 2n x 2k operands"""
    ks = drop_rec(kinds(vs))
    pat, a = must(ks, 'EENNNSPNPNSPN')
    ta, tb, m, n, k = a[:5]
    return h_fgemm(I, S, None, [ta, tb, m * 2, n * 2, k * 2] + a[5:])
def h_peel2(I, S, e, vs):
    """completes a product whose leading (m-mr) x (n-nr) x (k-kr) part has been accumulated"""
    ks = drop_rec(kinds(vs))
    pat, a = must(ks, 'EENNNNNNSPNPNSPN')
    ta, tb, m, n, k, mr, nr, kr, al, A, lda, B, ldb, be, C, ldc = a
    m0, n0, k0 = m - mr, n - nr, k - kr
    def sub(P_, ld, t, r, c): return Ptr(P_.o, P_.off + (r + c * ld if t else r * ld + c))
    tA, tB = istrans(ta), istrans(tb)
    h_fgemm(I, S, None, [ta, tb, m0, n0, kr, al, sub(A, lda, tA, ZERO, k0), lda, sub(B, ldb, tB, k0, ZERO), ldb, Scal(ONE), C, ldc])
    h_fgemm(I, S, None, [ta, tb, m0, nr, k, al, A, lda, sub(B, ldb, tB, ZERO, n0), ldb, be, sub(C, ldc, False, ZERO, n0), ldc])
    h_fgemm(I, S, None, [ta, tb, mr, n, k, al, sub(A, lda, tA, m0, ZERO), lda, B, ldb, be, sub(C, ldc, False, m0, ZERO), ldc])
    return TOP
def h_dotbound(I, S, e, vs):
    p = Poly.sym(('kd', 'dot', I.line)); S.facts.add(p - 1)
    return p
CONTRACTS = {
    'DotProdBoundClassic': h_dotbound,
    '()': h_functor, '.delayed': h_delayed, '.operator()': h_functor_m,
    'WinogradCalc': h_wino, 'Winograd': h_wino, 'WinoPar': h_wino, 'WinogradAcc_3_21': h_wino, 'WinogradAcc_3_23': h_wino, 'DynamicPeeling2': h_peel2,
    'fadd': elementwise(3, _fadd), 'fsub': elementwise(3, _fsub), 'faddin': elementwise(2, _faddin), 'fsubin': elementwise(2, _fsubin),
    'pfadd': elementwise(3, _fadd), 'pfsub': elementwise(3, _fsub), 'pfaddin': elementwise(2, _faddin), 'pfsubin': elementwise(2, _fsubin),
    'fscal': elementwise(2, _fscal), 'fscalin': elementwise(1, _fscal), 'fassign': h_fassign, 'fneg': elementwise(2, _fneg), 'fnegin': elementwise(1, _fneg),
    'faxpy': elementwise(2, _faxpy), 'freduce': h_reduce, 'pfreduce': h_reduce, 'freduce_constoverride': h_reduce_co, 'finit': h_finit, 'fconvert': h_fconvert,
    'fzero': h_fzero, 'pfzero': h_fzero, 'fidentity': h_fidentity, 'fswap': h_fswap,
    'fgemm': h_fgemm, 'cblas_dgemm': h_fgemm, 'cblas_sgemm': h_fgemm, 'cblas_dgemv': h_fgemv, 'cblas_sgemv': h_fgemv, 'cblas_dger': h_fger, 'cblas_sger': h_fger,
    'fsquare': h_fsquare, 'fsquareCommon': h_fsquare, 'fgemv': h_fgemv, 'fger': h_fger, 'fdot': h_fdot,
    'ftrsm': h_ftrsm, 'ftrmm': h_ftrmm, 'cblas_dtrsm': h_ftrsm, 'cblas_strsm': h_ftrsm, 'cblas_dtrmm': h_ftrmm, 'cblas_strmm': h_ftrmm,
    'cblas_dcopy': elementwise(2, _fassign), 'cblas_scopy': elementwise(2, _fassign), 'cblas_daxpy': elementwise(2, _faxpy), 'cblas_saxpy': elementwise(2, _faxpy),
    'cblas_dscal': elementwise(1, _fscal), 'cblas_sscal': elementwise(1, _fscal), 'cblas_ddot': h_fdot, 'cblas_sdot': h_fdot,
    'cblas_dswap': h_fswap, 'cblas_sswap': h_fswap,
    'pfgemm': h_fgemm, 'pfgemv': h_fgemv, 'igemm_': h_fgemm,
    'v_addp': v_bin(1), 'v_subp': v_bin(-1), 'v_add': v_bin(1), 'v_sub': v_bin(-1), 'v_modp': vk([0], 1, v_modp), 'v_scalp': vk([1], 0, v_scalp), 'v_axpyp': vk([0], 1, v_axpyp),
    'InfNorm': h_infnorm, 'abs': h_abs,
    'finit_trans_rns': h_finit_trans_rns, 'fconvert_trans_rns': h_fconvert_trans_rns, 'finit_rns': h_finit_rns, 'fconvert_rns': h_fconvert_rns, 'rns.init': h_rns_init, 'rns.convert': h_rns_convert, '.reduce_modp': h_reduce_modp,
    '.MaxDelayedDim': h_kd, 'min_types': h_kd,
    'maxCardinality': h_maxcard,
    'fflas_new': h_new, 'fflas_delete': h_del,
    '.checkA': h_nop, '.checkB': h_nop, '.checkOut': h_nop, '.initC': h_nop, '.initA': h_nop, '.initB': h_nop, '.initOut': h_nop, '.setOutBounds': h_nop, '.setNorm': h_nop,
}
