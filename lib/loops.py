"""Summaries of counted loops: independent iterations are lifted to whole blocks, accumulations to
products.  Anything else is Undecided."""
from alg import *
from absint import *

class Dom(object):
    """iteration domain of a counted loop: t = 0..T-1"""
    part = False
    def __init__(self, a, T): self.ids = (a,); self.a = a; self.T = T
    def has(self, p): return any(contains(x, self.a) for x in p.atoms())
    def slope(self, p):
        """p = c0 + c1*t with t-free c0, c1: (c0, c1), or None"""
        q = p.split(self.a)
        if q is None: return None
        c1, c0 = q
        if self.has(c1) or self.has(c0): return None
        return c0, c1
    def range(self, st, ln):
        """union of [st(t), +ln) when contiguous"""
        l = self.slope(st)
        if l is None or self.has(ln): return None
        c0, c1 = l
        if c1 == ln: return c0, ln * self.T
        if -c1 == ln: return c0 - ln * (self.T - 1), ln * self.T
        return None
    def full(self, b): return b * self.T
class Part(object):
    """iteration over the blocks [b, b+s) of a partition of [0, n)"""
    part = True
    def __init__(self, b, s, n): self.b = b; self.s = s; self.ids = (b, s); self.n = n; self.T = None
    def has(self, p): return any(contains(x, self.b) or contains(x, self.s) for x in p.atoms())
    def slope(self, p):
        q = p.split(self.b)
        if q is None: return None
        c1, c0 = q
        if self.has(c1) or self.has(c0): return None
        return c0, c1
    def range(self, st, ln):
        l = self.slope(st)
        if l is None or l[1] != ONE: return None
        if ln == Poly({((self.s, 1),): 1}): return l[0], self.n
        return None
    def full(self, b): return self.n
def has_t(p, a): return a.has(p)
def lin(p, a): return a.slope(p)
def at_has(x, a): return any(has_t(q, a) for q in x.polys())
def lift_range(st, ln, a, T): return a.range(st, ln)

def lift_first(x, a, T):
    """lift the row coordinate of (possibly transposed) atom x; all other coordinates t-free"""
    if x.k not in ('', 'I') or x.inv: return None
    if x.k == 'I': return None
    if not x.t:
        if has_t(x.c, a) or has_t(x.nc, a): return None
        r = lift_range(x.r, x.nr, a, T)
        return x.with_(r=r[0], nr=r[1]) if r else None
    if has_t(x.r, a) or has_t(x.nr, a): return None
    r = lift_range(x.c, x.nc, a, T)
    return x.with_(c=r[0], nc=r[1]) if r else None
def lift_last(x, a, T):
    y = lift_first(x.T(), a, T)
    return y.T() if y else None
def dir_of(x, a):
    """sign/slope of the t-dependence of the row coordinate"""
    st = x.c if x.t else x.r
    l = lin(st, a)
    return l[1] if l else None

def factors(c, w):
    """terms of coefficient polynomial c: (constant Poly, [el words])"""
    for mono, k in c.d.items():
        els = []; rest = {}
        for x, e in mono:
            at = atom_of(x)
            if isinstance(at, tuple) and at[0] == 'el' and e > 0: els += [at[1]] * e
            else: rest[x] = e
        yield Poly({tuple(sorted(rest.items())): k}), els

def word_has(w, a): return any(at_has(x, a) for x in w)

def lift_map(m, a, T, slope):
    """rows of m depend on t (row block number t); result has all rows"""
    b = m.nr
    full = a.full(b)
    res = Mat(full, m.nc)
    for w, c in m.d.items():
        for k, els in factors(c, w):
            if has_t(k, a): raise Undecided('loop: coefficient varies')
            tels = [u for u in els if word_has(u, a)]
            oels = [u for u in els if not word_has(u, a)]
            coef = k
            for u in oels: coef = coef * el(u)
            if word_has(w[1:], a): raise Undecided('loop: value varies')
            ww = w
            if w and at_has(w[0], a):
                if len(tels) > 1: raise Undecided('loop: product of varying scalars')
                x = lift_first(w[0], a, T)
                if x is None: raise Undecided('loop: cannot lift %r' % w[0])
                if dir_of(w[0], a) != slope: raise Undecided('loop: reversed order')
                ww = (x,) + w[1:]
                if tels:
                    d = diag_atom(tels[0], a, T, slope)
                    ww = (d,) + ww
            else:
                # value of one row: needs a column vector from the element symbols
                if not tels: raise Undecided('loop: constant rows')
                if b != ONE: raise Undecided('loop: constant block')
                col = None
                for i, u in enumerate(tels):
                    v = lift_el(u, a, T, slope)
                    if v is None: raise Undecided('loop: element %s' % wstr(u))
                    if col is None: col = v
                    else: col = (diag_atom(u, a, T, slope),) + col
                ww = col + w
            res = res + Mat(full, m.nc, {ww: coef})
    return norm(res)

def lift_el(u, a, T, slope):
    """column vector (word) whose t-th entry is the scalar u(t)"""
    for v in (u, wT(u)):
        if word_has(v[1:], a): continue
        if dir_of(v[0], a) != slope: continue
        x = lift_first(v[0], a, T)
        if x is not None: return (x,) + v[1:]
    return None
def diag_atom(u, a, T, slope):
    v = lift_el(u, a, T, slope)
    if v is None or len(v) != 1 or a.part: raise Undecided('loop: diagonal scaling')
    x = v[0]
    if x.t: return At(x.o, x.r, x.c, T, T, True, 'D')
    return At(x.o, x.r, x.c, T, T, False, 'D')

def lift_sum(m, a, T):
    """sum over t of m(t)"""
    res = Mat(m.nr, m.nc)
    for w, c in m.d.items():
        for k, els in factors(c, w):
            if has_t(k, a): raise Undecided('loop: coefficient varies')
            tels = [u for u in els if word_has(u, a)]
            oels = [u for u in els if not word_has(u, a)]
            coef = k
            for u in oels: coef = coef * el(u)
            idx = [i for i, x in enumerate(w) if at_has(x, a)]
            if not tels and len(idx) == 2 and idx[1] == idx[0] + 1:
                i = idx[0]
                x = lift_last(w[i], a, T); y = lift_first(w[i + 1], a, T)
                if x is None or y is None or dir_of(w[i].T(), a) != dir_of(w[i + 1], a): raise Undecided('loop: sum')
                res = res + Mat(m.nr, m.nc, {w[:i] + (x, y) + w[i + 2:]: coef}); continue
            if len(tels) == 1 and len(idx) == 1:
                i = idx[0]
                if i == 0 and w[0].rows() == ONE:
                    y = lift_first(w[0], a, T)
                    u = lift_el(tels[0], a, T, dir_of(w[0], a))
                    if y is not None and u is not None:
                        res = res + Mat(m.nr, m.nc, {wT(u) + (y,) + w[1:]: coef}); continue
                if i == len(w) - 1 and w[-1].cols() == ONE:
                    y = lift_last(w[-1], a, T)
                    u = lift_el(tels[0], a, T, dir_of(w[-1].T(), a))
                    if y is not None and u is not None:
                        res = res + Mat(m.nr, m.nc, {w[:-1] + (y,) + u: coef}); continue
                raise Undecided('loop: sum')
            if len(tels) == 2 and not idx:
                for sl in (ONE, P(-1)):
                    u = lift_el(tels[0], a, T, sl); v = lift_el(tels[1], a, T, sl)
                    if u is not None and v is not None: break
                else: raise Undecided('loop: sum')
                s = el(wT(u) + v)
                res = res + Mat(m.nr, m.nc, {w: coef * s}); continue
            raise Undecided('loop: sum')
    return norm(res)

def trip(I, S, cond, a):
    """trip count polynomial from the condition evaluated at iteration t; (T, needs_nonneg)"""
    c = strip(cond)
    if c is None: raise Undecided('loop without condition')
    neg = False
    while c[0] == 'un' and c[2] == '!': c = strip(c[3]); neg = not neg
    if c[0] == 'op' and len(c[4]) == 2: L, R, op = c[4][0], c[4][1], c[2]
    elif c[0] == 'bin': L, R, op = c[3], c[4], c[2]
    else:
        L, R, op = c, ['i', 0], '!='
    if op not in CMP: raise Undecided('loop condition')
    if neg: op = {'<': '>=', '>=': '<', '>': '<=', '<=': '>', '==': '!=', '!=': '=='}[op]
    l = I.rv(S, L); r = I.rv(S, R)
    if isinstance(l, Ptr) and isinstance(r, Ptr) and l.o == r.o: l, r = l.off, r.off
    if not (isinstance(l, Poly) and isinstance(r, Poly)): raise Undecided('loop condition')
    if op in ('>', '>='): l, r, op = r, l, {'>': '<', '>=': '<='}[op]
    D = r - l
    if op == '<=': D = D + 1
    x = lin(D, a)
    if x is None: raise Undecided('loop condition')
    d0, d1 = x
    d1 = -d1
    if op == '!=':
        if d1.iszero(): raise Undecided('loop condition')
        if S.facts.nonneg(-d1): d0, d1 = -d0, -d1
    elif op == '==': raise Undecided('loop condition')
    if not S.facts.nonneg(d1 - 1):
        if len(d1.d) == 1 and all(c > 0 for c in d1.d.values()): pass
        else: raise Undecided('loop step')
    if d1 == ONE: return d0, d0
    from contracts import exact_div
    q = exact_div(d0, d1)
    if q is not None: return q, q
    if d1.isconst():
        cq = {m: Fraction(c) / d1.cval() for m, c in d0.d.items()}
        if all(x.denominator == 1 for x in cq.values()): return Poly({m: int(x) for m, x in cq.items()}), d0
        return fdiv(d0 + d1 - 1, d1), d0
    return fdiv(d0 + d1 - 1, d1), d0

def scan_assigned(I, nodes):
    """vids assigned as scalars anywhere in the loop (current frame)"""
    s = set()
    for nd in nodes:
        if nd is None: continue
        for n in walk(nd):
            if n[0] == 'asg':
                l = strip(n[3])
                if l and l[0] == 'v': s.add(l[2])
            elif n[0] == 'un' and n[2][:2] in ('++', '--'):
                l = strip(n[3])
                if l and l[0] == 'v': s.add(l[2])
            elif n[0] == 'op' and n[2] in ('=', '+=', '-=', '*=', '++', '--'):
                l = strip(n[4][0])
                if l and l[0] == 'v': s.add(l[2])
            elif n[0] in ('mcall', 'call'):
                for x in (n[4] if n[0] == 'mcall' else n[3]):
                    l = strip(x)
                    if l and l[0] == 'v': s.add(l[2])
    return s

def run_loop(I, S, cond, inc, body, line):
    loop_body = ['blk', [body] + ([['ex', line, inc]] if inc is not None else []), line]
    I.tick()
    fr = I.fr()
    assigned = {v for v in scan_assigned(I, [cond, inc, body]) if (fr, v) in S.env}
    depth = len(I.stack)
    it = partition_of(I, S, cond)
    if it is not None:
        path, dims = it
        def level(i, S):
            if i == len(dims): return one_iter(I, S, loop_body)
            bs = ('ctr', line, depth, 'b%d' % i); ss = ('ctr', line, depth, 's%d' % i)
            b, sz = Poly.sym(bs), Poly.sym(ss)
            dom = Part(aid(bs), aid(ss), dims[i])
            def init(s):
                s.flds[(path, '%%b%d' % i)] = b; s.flds[(path, '%%e%d' % i)] = b + sz
                I.assume_ge(s, sz - 1); I.assume_ge(s, dims[i] - b - sz)
            def clean(s):
                s.flds.pop((path, '%%b%d' % i), None); s.flds.pop((path, '%%e%d' % i), None)
            return run_dom(I, S, dom, init, lambda s: level(i + 1, s), {}, assigned, line, clean)
        out = Out(); out.n = level(0, S)
        return out
    # while (n--) style conditions change state: not summarised
    if cond is not None and any(n[0] == 'asg' or (n[0] == 'un' and n[2][:2] in ('++', '--')) for n in walk(cond)):
        raise Undecided('loop condition with effects')
    out = Out()
    # does the loop start?
    starts = []
    for v, s in I.variants(S, lambda s: I.truth(s, I.rv(s, cond)) if cond is not None else True):
        if v: starts.append(s)
        else: out.n.append(s)
    if len(starts) == 1 and len(out.n) == 1 and not S.taint and not starts[0].taint:
        # when the trip count cannot be negative the zero-trip case is the T = 0 instance
        try:
            out.n = counted(I, S, cond, loop_body, assigned, line, depth, starts[0])
            return out
        except LoopBound: pass
    for s in starts:
        out.n += counted(I, s, cond, loop_body, assigned, line, depth, s)
    out.n = I.dedupe(out.n)
    return out

def partition_of(I, S, cond):
    c = strip(cond) if cond is not None else None
    if not c or c[0] != 'un' or c[2] != '!': return None
    c = strip(c[3])
    if c[0] != 'mcall' or cname(c[2]) != 'isTerminated': return None
    o = I.rv(S, c[3])
    if not isinstance(o, Rec): return None
    d = [S.flds[(o.p, k)] for k in ('%n0', '%n1') if (o.p, k) in S.flds]
    if not d or not all(isinstance(x, Poly) for x in d): return None
    return o.p, d

class LoopBound(Undecided): pass
def counted(I, S, cond, loop_body, assigned, line, depth, first):
    fr = I.fr()
    a_sym = ('ctr', line, depth)
    t = Poly.sym(a_sym); a = aid(a_sym)
    # induction variables: from one trial iteration on a copy
    trial = first.copy(); trial.log = []
    save_races = I.on_race; I.on_race = None
    try: o = one_iter(I, trial, loop_body)
    finally: I.on_race = save_races
    if len(o) < 1: raise Undecided('loop body never completes')
    tr = o[0]
    deltas = {}; temps = set()
    for v in assigned:
        k = (fr, v)
        old = first.env.get(k)
        if isinstance(old, Ref): continue
        new = tr.env.get(k)
        if isinstance(old, Poly) and isinstance(new, Poly):
            d = new - old
            if not d.iszero(): deltas[k] = d
        elif isinstance(old, Ptr) and isinstance(new, Ptr) and old.o == new.o:
            d = new.off - old.off
            if not d.iszero(): deltas[k] = d
    for attempt in range(4):
        def adv(s, n):
            for k, d in deltas.items():
                v = s.env[k]
                s.env[k] = Ptr(v.o, v.off + d * n) if isinstance(v, Ptr) else v + d * n
        s0 = S.copy(); s0.log = []
        adv(s0, t)
        for k in temps: s0.env[k] = TOP
        try:
            T, d0 = trip(I, s0, cond, Dom(a, ZERO))
            if not S.facts.nonneg(d0): raise LoopBound('loop bound')
            dom = Dom(a, T)
            def init(s):
                adv(s, t)
                for k in temps: s.env[k] = TOP
                I.assume_ge(s, T - 1 - t)
            return run_dom(I, S, dom, init, lambda s: one_iter(I, s, loop_body), deltas, assigned, line, None, t, temps)
        except NotLinear as ex:
            deltas.pop(ex.k, None); temps.add(ex.k)
        except Infeasible: raise Undecided('loop')
    raise Undecided('loop: induction')

class NotLinear(Exception):
    def __init__(self, k): self.k = k

def run_dom(I, S, a, init, body, deltas, assigned, line, clean=None, t=None, temps0=()):
    """states after running body for every point of the domain a"""
    fr = I.fr()
    T = a.T
    temps = set(temps0)
    accs = {}
    pre = 'acc:%d:%d:%s' % (line, len(I.stack), a.ids[0])
    def run(extra=()):
        s = S.copy(); s.log = []
        init(s)
        for k in accs: s.env[k] = Scal(Poly.sym(('acc', pre, repr(k))))
        for i, (oname, rc) in enumerate(extra):
            # content of a fixed rectangle at iteration t
            ob = s.objs[oname]
            cells = I.clear(s, ob, rc)
            cells.append(rc + (Mat.atom(At('%s:%s:%d' % (pre, oname, i), ZERO, ZERO, rc[2], rc[3])),))
            s.objs[oname] = ob.but(cells=tuple(cells))
        o = body(s)
        if len(o) != 1: raise Undecided('loop body with %d outcomes' % len(o))
        return o[0]
    e = run()
    for v in assigned:
        k = (fr, v); old = S.env.get(k)
        if k in deltas or k in temps: continue
        if isinstance(old, Scal) and e.env.get(k) != old: accs[k] = old
    if accs: e = run()
    # fixed rectangles written: accumulation
    extra = []
    for k, on, rc, ln in e.log:
        if k == 'w' and not any(has_t(x, a) for x in rc) and S.objs.get(on) is not None:
            if (on, rc) not in extra: extra.append((on, rc))
    if extra: e = run(tuple(extra))
    if clean: clean(e)
    # induction check
    for k, d in deltas.items():
        v0 = S.env[k]; v1 = e.env.get(k)
        want = Ptr(v0.o, v0.off + d * (t + 1)) if isinstance(v0, Ptr) else v0 + d * (t + 1)
        if v1 != want: raise NotLinear(k)
    tval = {}
    for k in list(S.env):
        if k in deltas or k in accs: continue
        v1 = e.env.get(k)
        if k in temps or v1 != S.env[k]:
            if k[0] == fr and k[1] in assigned:
                if k not in temps and t is not None: raise NotLinear(k)
                temps.add(k); tval[k] = v1
                continue
            raise Undecided('loop changes a variable')
    for k, v in e.flds.items():
        if S.flds.get(k) != v and not isinstance(v, (Free, Top)) and k in S.flds: raise Undecided('loop changes a field')
    if e.taint and not S.taint: S.taint = True
    # ---- dependences
    writes = [(on, rc, ln) for k, on, rc, ln in e.log if k == 'w' and on in S.objs]
    reads = [(on, rc, ln) for k, on, rc, ln in e.log if k == 'r' and on in S.objs]
    todo = []
    seen = set()
    for on, rc, ln in writes:
        if (on, rc) in seen: continue
        seen.add((on, rc))
        axis = [i for i in (0, 1) if has_t(rc[i], a) or has_t(rc[i + 2], a)]
        if not axis:
            todo.append(('sum', on, rc)); continue
        if len(axis) == 2: raise Undecided('loop: diagonal access')
        ax = axis[0]
        l = lin(rc[ax], a)
        if l is None: raise Undecided('loop: access')
        c0, b = l
        n = rc[ax + 2]
        lift = list(rc)
        r2 = lift_range(rc[ax], n, a, T)
        if r2 is None: raise Undecided('loop: strided blocks')
        todo.append(('map', on, rc, ax, b))
        lift[ax], lift[ax + 2] = r2
        for on2, rc2, ln2 in writes + reads:
            if on2 != on: continue
            if rc2 == rc: continue
            l2 = lin(rc2[ax], a)
            if l2 is not None and l2[1] == b:
                dlt = rc2[ax] - rc[ax]
                if I_nonneg(e, dlt) and I_nonneg(e, n - dlt - rc2[ax + 2]): continue
            # another part of the object, untouched by any iteration
            oth = ax ^ 1
            if not has_t(rc2[oth], a) and not has_t(rc2[oth + 2], a):
                if I_nonneg(e, rc2[oth] - rc[oth] - rc[oth + 2]) or I_nonneg(e, rc[oth] - rc2[oth] - rc2[oth + 2]): continue
            if not has_t(rc2[ax], a):
                if I_nonneg(e, rc2[ax] - lift[ax] - lift[ax + 2]) or I_nonneg(e, lift[ax] - rc2[ax] - rc2[ax + 2]): continue
            elif l2 is not None:
                r3 = lift_range(rc2[ax], rc2[ax + 2], a, T)
                if r3 is not None and (I_nonneg(e, r3[0] - lift[ax] - lift[ax + 2]) or I_nonneg(e, lift[ax] - r3[0] - r3[1])): continue
            raise Undecided('loop-carried dependence through %s' % on)
    # fixed accumulators must not be read by anything else: their atom may occur only linearly in themselves
    fin = S.copy()
    res = []
    for it in todo:
        if it[0] == 'map':
            _, on, rc, ax, b = it
            g = read_rc(I, e, on, rc)
            if len(g.rc) != 2 or len(g.cc) != 2: raise Undecided('loop: composite value')
            m = g.e[0][0]
            if isinstance(m, Packed): raise Undecided('loop: packed')
            if uses_acc(m, pre): raise Undecided('loop: uses a partial result')
            if ax == 1: v = lift_map(m.T(), a, T, b).T()
            else: v = lift_map(m, a, T, b)
            r2 = lift_range(rc[ax], rc[ax + 2], a, T)
            rc2 = list(rc); rc2[ax], rc2[ax + 2] = r2
            res.append((on, tuple(rc2), v))
        else:
            _, on, rc = it
            i = extra.index((on, rc))
            g = read_rc(I, e, on, rc)
            if len(g.rc) != 2 or len(g.cc) != 2: raise Undecided('loop: composite value')
            m = g.e[0][0]
            me = Mat.atom(At('%s:%s:%d' % (pre, on, i), ZERO, ZERO, rc[2], rc[3]))
            if isinstance(m, Packed):
                old = read_rc(I, fin, on, rc)
                if len(old.rc) != 2 or len(old.cc) != 2: raise Undecided('loop: composite value')
                om = old.e[0][0]
                ps = []
                for x, y in zip((m.su, m.d, m.sl), (om.su, om.d, om.sl) if isinstance(om, Packed) else (om,) * 3):
                    if mat_has(x, me) and not uses_acc(x - me, pre): ps.append(y + lift_sum(x - me, a, T))
                    else: ps.append(Mat.atom(At('?loop%d' % line, ZERO, ZERO, rc[2], rc[3])))
                res.append((on, rc, Packed(*ps))); continue
            d = m - me
            if uses_acc(d, pre):
                # a temporary overwritten in every iteration
                raise Undecided('loop: recurrence')
            if not mat_has(m, me) :
                # overwritten each time: last value; only fine if unused afterwards
                if S.objs[on].kind == 'loc':
                    res.append((on, rc, Mat.atom(At('?loop%d' % line, ZERO, ZERO, rc[2], rc[3])))); continue
                raise Undecided('loop: overwritten in every iteration')
            old = read_rc(I, fin, on, rc)
            res.append((on, rc, (old, lift_sum(d, a, T))))
    # layouts established inside the loop
    for on, ob in e.objs.items():
        if on in fin.objs and fin.objs[on].ld is None and ob.ld is not None and not has_t(ob.ld, a):
            fin.objs[on] = fin.objs[on].but(ld=ob.ld, vec=ob.vec)
    for on, rc, v in res:
        g = v[0].add(Grid.of(v[1]), fin.facts) if isinstance(v, tuple) else Grid([ZERO, v.d.nr], [ZERO, v.d.nc], [[v]]) if isinstance(v, Packed) else Grid.of(v)
        write_rc(I, fin, on, rc, g)
    # tasks created by the iterations, accesses of the current one
    I.loop_tasks(S, e, fin, a, T)
    # log the lifted accesses for enclosing loops
    if fin.log is not None:
        for k, on, rc, ln in e.log:
            if on not in fin.objs: continue
            r = lift_rect(rc, a, T)
            if r is None: raise Undecided('loop: nested access')
            fin.log.append((k, on, r, ln))
    for k, d in deltas.items():
        v = fin.env[k]
        fin.env[k] = Ptr(v.o, v.off + d * T) if isinstance(v, Ptr) else v + d * T
    for k, old in accs.items():
        v = e.env.get(k)
        sy = Poly.sym(('acc', pre, repr(k)))
        r = TOP
        if isinstance(v, Scal):
            d = v.p - sy
            if aid(('acc', pre, repr(k))) not in d.atoms() and not any('acc' == atom_of(x)[0] and atom_of(x)[1] == pre for x in d.atoms() if isinstance(atom_of(x), tuple)):
                m = lift_sum(Mat(ONE, ONE, {(): d} if d.d else {}), a, T)
                r = Scal(old.p + scalar_of(m))
        fin.env[k] = r
    for k in temps: fin.env[k] = TOP
    for k, v in e.flds.items():
        if S.flds.get(k) != v: fin.flds[k] = TOP
    fin.taint = S.taint
    return [fin]

def raise_if_ref(r): raise Undecided('loop modifies a reference')
def I_nonneg(S, p): return S.facts.nonneg(p)
def uses_acc(m, pre):
    for w, c in m.d.items():
        for x in w:
            if x.o.startswith(pre): return True
        for y in c.atoms():
            at = atom_of(y)
            if isinstance(at, tuple):
                if at[0] == 'acc' and at[1] == pre: return True
                if at[0] == 'el' and any(x.o.startswith(pre) for x in at[1]): return True
    return False
def mat_has(m, me):
    for w, c in me.d.items():
        if w in m.d and (m.d[w] - c).iszero(): return True
        if w in m.d:
            return all(x in m.d[w].d and m.d[w].d[x] == y for x, y in c.d.items())
    return False
def lift_rect(rc, a, T):
    rc = list(rc)
    for ax in (0, 1):
        if has_t(rc[ax], a) or has_t(rc[ax + 2], a):
            r = lift_range(rc[ax], rc[ax + 2], a, T)
            if r is None: return None
            rc[ax], rc[ax + 2] = r
    return tuple(rc)
def one_iter(I, s, body):
    o = I.exec(body, [s])
    if o.brk or o.ret: raise Undecided('loop with break or return')
    return I.dedupe(o.n + o.cont) if o.cont else o.n
def ptr_rc(S, on, rc):
    ob = S.objs[on]
    return Ptr(on, rc[0] * ob.ld + rc[1])
def read_rc(I, S, on, rc):
    log = S.log; S.log = None
    cur, tk = S.cur, S.tasks; S.cur = None; S.tasks = ()
    ob = S.objs[on]
    touched = [c for c in ob.cells if not I.disjoint(S, rc, c[:4])]
    r, c, nr, nc = rc
    rows = I.cuts_in(S, r, nr, [x for cell in touched for x in (cell[0], cell[0] + cell[2])])
    cols = I.cuts_in(S, c, nc, [x for cell in touched for x in (cell[1], cell[1] + cell[3])])
    e = [[I.extract(S, ob, touched, rows[i], cols[j], rows[i + 1] - rows[i], cols[j + 1] - cols[j], True) for j in range(len(cols) - 1)] for i in range(len(rows) - 1)]
    S.log = log; S.cur = cur; S.tasks = tk
    return Grid([x - r for x in rows], [x - c for x in cols], e)
def write_rc(I, S, on, rc, g):
    ob = S.objs[on]
    out = I.clear(S, ob, rc)
    for i, j, m in g.blocks():
        dims = (m.su.nr, m.su.nc) if isinstance(m, Packed) else (m.nr, m.nc)
        if dims[0].iszero() or dims[1].iszero(): continue
        out.append((rc[0] + i, rc[1] + j, dims[0], dims[1], m))
    S.objs[on] = ob.but(cells=tuple(sorted(out, key=lambda x: repr(x[:4]))))
