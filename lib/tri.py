"""Routines on triangles (symmetric updates, triangular inverses and products): the block interpreter with packed
cells, i.e. square cells whose strict upper part, diagonal and strict lower part come from different matrices.
The triangle a routine does not own is left unspecified."""
from specs import *
import specs, alg
from loops import read_rc

TSHAPES = {
    'fsyrk': ['EENNSMLSmL', 'EENNSmLVLSmL'], 'fsyr2k': ['EENNSMLMLSmL'],
    'ftrsv': ['EEENMLvL'], 'trinv_left': ['NMLmL'], 'ftrtri': ['EENmL'], 'ftrtrm': ['EENmL'], 'ftrstr': ['EEEENMLmL'],
}
def parts(m): return (m.su, m.d, m.sl) if isinstance(m, Packed) else (m, m, m)
def pk(su, d, sl):
    if su.nr == ONE: return d
    return su if su == d and d == sl else Packed(su, d, sl)
def unknown(I, nr, nc):
    I.fresh += 1
    return Mat.atom(At('?t%d' % I.fresh, ZERO, ZERO, nr, nc))
def is_undef(m): return any('undef:' in repr(w) for w in m.d) or 'undef:' in repr(m)
def is_unk(m): return not isinstance(m, Packed) and (has_q(m) or any(x.o.startswith('?') for w in m.d for x in w))
def read_tri(I, S, p, ld, n, more=()):
    """square operand cut symmetrically: (cuts, entries), entries may be packed on the diagonal"""
    rc = I.rect(S, p, ld, n, n)
    if rc is None: return None
    r, c, nr, nc = rc
    o = S.objs[p.o]
    I.access(S, 'r', p.o, rc)
    touched = [x for x in o.cells if not I.disjoint(S, rc, x[:4])]
    pts = [x - r for cell in touched for x in (cell[0], cell[0] + cell[2])] + [x - c for cell in touched for x in (cell[1], cell[1] + cell[3])] + list(more)
    h = getattr(I, 'hint', None)
    if h is not None and p.o in h.objs:
        pts += [x - r for cell in h.objs[p.o].cells for x in (cell[0], cell[0] + cell[2])] + [x - c for cell in h.objs[p.o].cells for x in (cell[1], cell[1] + cell[3])]
    if n.isconst() and n.cval() < 9: pts += [P(i) for i in range(1, int(n.cval()))]
    cuts = I.cuts_in(S, ZERO, n, pts)
    k = len(cuts) - 1
    e = [[I.extract(S, o, touched, r + cuts[i], c + cuts[j], cuts[i + 1] - cuts[i], cuts[j + 1] - cuts[j], True) for j in range(k)] for i in range(k)]
    return cuts, e
def write_tri(I, S, p, ld, cuts, e): I.write(S, p, ld, Grid(cuts, cuts, e))
def update(I, S, up, n, G, beta, C, ldc):
    """triangle of C <- G + beta C; the other strict triangle becomes unspecified"""
    more = []
    if G is not None: more = list(G.rc[1:-1]) + list(G.cc[1:-1])
    t = read_tri(I, S, C, ldc, n, more)
    if t is None: return
    cuts, e = t
    if G is None: G = Grid.zero(n, n)
    G = G.cuts(0, cuts[1:-1], S.facts).cuts(1, cuts[1:-1], S.facts)
    if G.rc != cuts or G.cc != cuts: raise Undecided('cuts of a symmetric update')
    k = len(cuts) - 1
    f = (lambda g, x: g + x.scale(beta)) if not beta.iszero() else (lambda g, x: g)
    out = []
    for i in range(k):
        row = []
        for j in range(k):
            m, g = e[i][j], G.e[i][j]
            if i == j:
                su, d, sl = parts(m)
                q = unknown(I, d.nr, d.nc)
                row.append(pk(f(g, su), f(g, d), q) if up else pk(q, f(g, d), f(g, sl)))
            elif (i < j) == up:
                if isinstance(m, Packed): raise Undecided('packed')
                row.append(f(g, m))
            else: row.append(unknown(I, cuts[i + 1] - cuts[i], cuts[j + 1] - cuts[j]))
        out.append(row)
    write_tri(I, S, C, ldc, cuts, out)
def h_fsyrk(I, S, e, vs):
    ks = drop_rec(kinds(vs))
    if ks and ks[0][0] == 'E' and ks[0][1].v in (101, 102): ks = ks[1:]
    d = need(ks, 'EENNSPNPNSPN')
    if d is not None: return syrk_diag(I, S, d)
    pat, a = must(ks, 'EENNSPNSPN')
    up, tr, n, k, al, A, lda, be, C, ldc = a
    if n.iszero(): return C
    G = None
    if not k.iszero() and not al.p.iszero():
        X = opread(I, S, A, lda, n, k, istrans(tr))
        G = X.mul(X.T(), S.facts).scale(al.p)
    update(I, S, isupper(up), n, G, be.p, C, ldc)
    return C
def syrk_diag(I, S, a):
    """C <- alpha A D A^T + beta C and A <- A D, for a constant inner dimension"""
    up, tr, n, k, al, A, lda, D, incd, be, C, ldc = a
    if n.iszero(): return C
    G = None
    if not k.isconst(): raise Undecided('diagonal scaling of symbolic length')
    kk = int(k.cval())
    if kk:
        X = opread(I, S, A, lda, n, k, istrans(tr)).cuts(1, [P(i) for i in range(1, kk)], S.facts)
        cols = list(X.cc)
        if len(cols) != kk + 1: raise Undecided('cuts of a scaled operand')
        ds = [scalar_of(I.read(S, Ptr(D.o, D.off + incd * i), incd, ONE, ONE, vec=True).e[0][0]) for i in range(kk)]
        Y = Grid(X.rc, X.cc, [[m.scale(ds[j]) for j, m in enumerate(row)] for row in X.e])
        if not al.p.iszero(): G = Y.mul(X.T(), S.facts).scale(al.p)
        I.write(S, A, lda, Y.T() if istrans(tr) else Y)
    update(I, S, isupper(up), n, G, be.p, C, ldc)
    return C
def h_fsyrk_strassen(I, S, e, vs):
    ks = drop_rec(kinds(vs))
    pat, a = must(ks, 'EENNSSSPNSPN')
    return h_fsyrk(I, S, e, [v for i, v in enumerate([x[1] for x in ks]) if i not in (4, 5)])
def h_fsyr2k(I, S, e, vs):
    ks = drop_rec(kinds(vs))
    if ks and ks[0][0] == 'E' and ks[0][1].v in (101, 102): ks = ks[1:]
    pat, a = must(ks, 'EENNSPNPNSPN')
    up, tr, n, k, al, A, lda, B, ldb, be, C, ldc = a
    if n.iszero(): return C
    G = None
    if not k.iszero() and not al.p.iszero():
        X = opread(I, S, A, lda, n, k, istrans(tr)); Y = opread(I, S, B, ldb, n, k, istrans(tr))
        G = X.mul(Y.T(), S.facts).add(Y.mul(X.T(), S.facts), S.facts).scale(al.p)
    update(I, S, isupper(up), n, G, be.p, C, ldc)
    return C
def tri_of(I, cuts, e, up, unit):
    k = len(cuts) - 1
    t = ('U' if up else 'L') + ('U' if unit else 'N')
    return Grid(cuts, cuts, [[tri_mat(e[i][j], up, unit, t) if i == j else e[i][j] if (i < j) == up else Mat.zero(cuts[i + 1] - cuts[i], cuts[j + 1] - cuts[j]) for j in range(k)] for i in range(k)])
def store_tri(I, S, p, ld, cuts, e, g, up, unit, keep=True):
    """write the triangle g (a Grid with the same cuts) over the triangle of the operand; a unit diagonal and the other triangle are kept"""
    if g.rc != cuts or g.cc != cuts: raise Undecided('cuts of a triangle')
    k = len(cuts) - 1
    out = []
    for i in range(k):
        row = []
        for j in range(k):
            if i == j:
                su, d, sl = parts(e[i][j]); m = g.e[i][j]
                dd = d if unit else m
                row.append(pk(m, dd, sl) if up else pk(su, dd, m))
            else: row.append(g.e[i][j] if (i < j) == up else e[i][j])
        out.append(row)
    write_tri(I, S, p, ld, cuts, out)
def h_ftrtri(I, S, e, vs):
    pat, a = must(drop_rec(kinds(vs)), 'EENPN')
    up, un, n, A, lda = a
    if n.iszero(): return TOP
    cuts, x = read_tri(I, S, A, lda, n)
    u, w = isupper(up), isunit(un)
    T = inv_grid(tri_of(I, cuts, x, u, w), S, u)
    store_tri(I, S, A, lda, cuts, x, T, u, w)
    return TOP
def h_ftrtrm(I, S, e, vs):
    pat, a = must(drop_rec(kinds(vs)), 'EENPN')
    side, dg, n, A, lda = a
    if n.iszero(): return TOP
    cuts, x = read_tri(I, S, A, lda, n)
    u = isunit(dg)
    U = tri_of(I, cuts, x, True, u); L = tri_of(I, cuts, x, False, not u)
    r = U.mul(L, S.facts) if isleft(side) else L.mul(U, S.facts)
    I.write(S, A, lda, r)
    return TOP
def h_ftrstr(I, S, e, vs):
    pat, a = must(drop_rec(kinds(vs)), 'EEEENPNPN')
    side, up, dA, dB, n, A, lda, B, ldb = a
    if n.iszero(): return TOP
    u = isupper(up); ua, ub = isunit(dA), isunit(dB)
    ca, xa = read_tri(I, S, A, lda, n)
    cb, xb = read_tri(I, S, B, ldb, n, ca[1:-1])
    T = tri_of(I, ca, xa, u, ua).cuts(0, cb[1:-1], S.facts).cuts(1, cb[1:-1], S.facts)
    if T.rc != cb: raise Undecided('cuts')
    T = inv_grid(T, S, u)
    X = tri_of(I, cb, xb, u, ub)
    r = T.mul(X, S.facts) if isleft(side) else X.mul(T, S.facts)
    store_tri(I, S, B, ldb, cb, xb, r, u, ua and ub)
    return TOP
def h_ftrsv(I, S, e, vs):
    pat, a = must(drop_rec(kinds(vs)), 'EEENPNPN')
    up, tr, dg, n, A, lda, X, inc = a
    if n.iszero(): return TOP
    u = isupper(up)
    cuts, x = read_tri(I, S, A, lda, n)
    T = inv_grid(tri_of(I, cuts, x, u, isunit(dg)), S, u)
    if istrans(tr): T = T.T()
    vwrite(I, S, X, n, inc, T.mul(vread(I, S, X, n, inc), S.facts))
    return TOP
def h_trinv_left(I, S, e, vs):
    pat, a = must(drop_rec(kinds(vs)), 'NPNPN')
    n, L, ldl, X, ldx = a
    if n.iszero(): return TOP
    I.write(S, X, ldx, I.read(S, L, ldl, n, n))
    return h_ftrtri(I, S, e, [En('FflasLower', 122), En('FflasUnit', 132), n, X, ldx])
def h_fscalin(I, S, e, vs):
    ks = drop_rec(kinds(vs))
    r = need(ks, 'NNSPN')
    if r is not None:
        m, n, al, A, lda = r
        if not (m.iszero() or n.iszero()) and m == n and isinstance(A, Ptr) and A.o in S.objs and any(isinstance(c[4], Packed) for c in S.objs[A.o].cells):
            t = read_tri(I, S, A, lda, n)
            if t is None: return TOP
            cuts, x = t
            f = lambda q: Packed(q.su.scale(al.p), q.d.scale(al.p), q.sl.scale(al.p)) if isinstance(q, Packed) else q.scale(al.p)
            write_tri(I, S, A, lda, cuts, [[f(q) for q in row] for row in x])
            return TOP
    return CONTRACTS['fscalin'](I, S, e, vs)
def h_freduce(I, S, e, vs):
    ks = drop_rec(kinds(vs))
    if ks and ks[0][0] == 'E': return TOP      # values modulo p do not change
    return CONTRACTS['freduce'](I, S, e, vs)
TC = dict(CONTRACTS)
TC.pop('ScalAndReduce', None)
TC.update(ftrsv=h_ftrsv, trinv_left=h_trinv_left, fsyrk=h_fsyrk, fsyrk_strassen=h_fsyrk_strassen, fsyr2k=h_fsyr2k, ftrtri=h_ftrtri, ftrtrm=h_ftrtrm, ftrstr=h_ftrstr, fscalin=h_fscalin, freduce=h_freduce, cblas_ssyrk=h_fsyrk, cblas_dsyrk=h_fsyrk)

def tri_compare(I, s, T, objs, facts):
    bad = []
    for o in objs:
        a, b = s.objs[o], T.objs[o]
        if not any(isinstance(x[4], Packed) for x in list(a.cells) + list(b.cells)) and not any(is_unk(x[4]) for x in b.cells):
            bad += specs.compare_plain(I, s, T, [o], facts); continue
        if b.cells == () : bad += specs.compare_plain(I, s, T, [o], facts); continue
        for rc in sorted({x[:4] for x in b.cells}, key=repr):
            if rc[2].iszero() or rc[3].iszero(): continue
            r, c, nr, nc = rc
            ta = [x for x in a.cells if not I.disjoint(s, rc, x[:4])]; tb = [x for x in b.cells if not I.disjoint(T, rc, x[:4])]
            pts = [z - r for q in ta + tb for z in (q[0], q[0] + q[2])]; ptc = [z - c for q in ta + tb for z in (q[1], q[1] + q[3])]
            if nr == nc and r == c: pts = ptc = pts + ptc
            rows = I.cuts_in(T, ZERO, nr, pts); cols = I.cuts_in(T, ZERO, nc, ptc)
            for i in range(len(rows) - 1):
                for j in range(len(cols) - 1):
                    q = (r + rows[i], c + cols[j], rows[i + 1] - rows[i], cols[j + 1] - cols[j])
                    ma = I.extract(s, a, ta, *q, True); mb = I.extract(T, b, tb, *q, True)
                    one = q[2] == ONE
                    if isinstance(ma, Packed) or isinstance(mb, Packed):
                        for nm_, x, y in zip(('strict upper', 'diagonal', 'strict lower'), parts(ma), parts(mb)):
                            if one and nm_ != 'diagonal' or is_unk(y): continue
                            d = canon(Grid.of(x).add(Grid.of(y).scale(P(-1)), facts), facts)
                            for _, _, m in d.blocks():
                                if I.char == 2: m = drop_even(m)
                                if m.iszero(): continue
                                if is_unk(m) or has_q(m): raise Undecided('unknown content')
                                if any(w_.k for w in m.d for w_ in w): raise Undecided('difference of triangular expressions')
                                bad.append((o + ' (%s part)' % nm_, q[:2] + ((q[2], q[3]) if nm_ == 'diagonal' else (q[2] - 1, q[3] - 1)), m)); break
                    else:
                        if is_unk(mb): continue
                        d = canon(Grid.of(ma).add(Grid.of(mb).scale(P(-1)), facts), facts)
                        for i2, j2, m in d.blocks():
                            if I.char == 2: m = drop_even(m)
                            if m.iszero(): continue
                            if is_unk(m) or has_q(m): raise Undecided('unknown content')
                            bad.append((o, (q[0] + i2, q[1] + j2, m.nr, m.nc), m))
        # nothing outside the operand is written
        for x in a.cells:
            if any(not I.disjoint(s, y[:4], x[:4]) for y in b.cells): continue
            bad += specs.compare_plain(I, s, T, [o], facts)
    if I.fixed is not None and any(is_undef(m) for o, rc, m in bad): raise Undecided('layout of a work buffer')
    if I.char == 2: bad = [(o, rc, m) for o, rc, m in bad if not drop_even(m).iszero()]
    return bad
def diagonal(h):
    """level 1 routine on a diagonal (distance ld+1) of constant length: element by element"""
    def run(I, S, e, vs):
        ks = kinds(vs)
        hit = False
        for i in range(len(ks) - 1):
            if ks[i][0] == 'P' and ks[i + 1][0] == 'N':
                o = S.objs.get(ks[i][1].o) if isinstance(ks[i][1], Ptr) else None
                if o is not None and o.ld is not None and ks[i + 1][1] == o.ld + 1: hit = True
        n = [i for i, v in enumerate(vs) if isinstance(v, Poly)]
        if not hit or not n: return h(I, S, e, vs)
        if n[1:] and n[1] == n[0] + 1: return h(I, S, e, vs)
        cnt = vs[n[0]]
        if not cnt.isconst(): raise Undecided('diagonal of a matrix')
        r = TOP
        for t in range(int(cnt.cval())):
            w = list(vs); w[n[0]] = ONE
            for i in range(len(w) - 1):
                if isinstance(w[i], Ptr) and isinstance(w[i + 1], Poly):
                    w[i] = Ptr(w[i].o, w[i].off + w[i + 1] * t)
                    o = S.objs.get(w[i].o)
                    if o is not None and o.ld is not None and w[i + 1] == o.ld + 1: w[i + 1] = o.ld
            r = h(I, S, e, w)
        return r
    return run
for nm_ in ('fscalin', 'fscal', 'fassign', 'fzero', 'faddin', 'fsubin', 'faxpy', 'freduce', 'fneg', 'fnegin'):
    if nm_ in TC: TC[nm_] = diagonal(TC[nm_])
def drop_even(m):
    return Mat(m.nr, m.nc, {w: q for w, q in ((w, Poly({k: v for k, v in c.d.items() if v % 2})) for w, c in m.d.items()) if q.d})
class TriExec(Exec):
    fixed = None
    MAXSTATES = 600
    least = False
    inner = None
    char = 101
    def opaque_call(self, S, name, args, fn, obj=None, ci=None):
        if name == 'characteristic' and not args: return P(self.char)
        return Exec.opaque_call(self, S, name, args, fn, obj, ci)
def tri_fn(prog, f, small=(2, 3, 4, 5)):
    mt = match(f, TSHAPES[f.name])
    if not mt: return None
    old = specs.compare_states
    specs.compare_states = tri_compare
    try:
        def pre(I, S, keys):
            ns = [S.env[k] for c, k in zip(mt[0], keys) if c == 'N']
            if I.fixed is not None: I.assume_eq(S, ns[0] - I.fixed)
            if I.inner is not None: I.assume_eq(S, ns[1] - I.inner)
            elif 'mLVL' in mt[0]: I.assume_eq(S, ns[1] - 2)
            if I.fixed is not None: pass
            elif I.least: S.facts.add(ns[0] - 2)
            return True
        def run(n, ch=101, lo=True):
            class X(TriExec): fixed = n; char = ch; least = lo
            return verify(prog, f, f.name, mt[0], mt[1], TC[f.name], contracts=TC, unroll=2, exec_cls=X, pre=pre)
        R = run(None, lo=False)
        if R.status == 'ok' and f.name != 'fsyr2k': return R
        R = None
        for n in (0, 1, None):
            q = run(n)
            if R is None: R = q
            else:
                R.paths += q.paths; R.stmts += q.stmts; R.cases += q.cases; R.used |= q.used; R.bounded += q.bounded; R.msgs += q.msgs
                if q.status == 'viol' or R.status == 'ok': R.status = q.status
            if R.status == 'viol': return R
            gen = q.status
        if R.status == 'undec' and gen == 'undec':
            oks = 0
            for n in small:
                q = run(n)
                if q.status == 'viol': return q
                oks += q.status == 'ok'
                R.paths += q.paths; R.stmts += q.stmts
                if q.status != 'ok': R.msgs.append('N=%d: %s' % (n, q.msgs[:1]))
            if oks >= 2: R.status = 'ok'; R.bounded = 1
        if R.status != 'viol' and f.name == 'fsyr2k':
            for n in (1,) + small:
                q = run(n, 2)
                if q.status == 'viol': return q
                if q.status == 'undec' and R.status == 'ok': R.status = 'undec'; R.msgs += q.msgs
                R.paths += q.paths; R.stmts += q.stmts
        return R
    finally: specs.compare_states = old
def tri_groups(prog, per):
    seen = {}; out = []
    for f in prog.fns:
        if f.dep or f.name not in TSHAPES or not match(f, TSHAPES[f.name]) or any('vector<bool' in p[2] for p in f.params): continue
        k = (f.file, f.line)
        tag = ptypes_(f)
        if tag in seen.setdefault(k, set()) or len(seen[k]) >= per: continue
        seen[k].add(tag); out.append((k, f))
    return sorted(out, key=lambda x: (x[0], x[1].t))
def ptypes_(f): return tuple(p[2] for p in f.params if pkind(p[2]) in 'PS')[:2]
