"""Completion of delayed reductions: typestate of every block (reduced / possibly unreduced), tracked by
the block interpreter in a shadow object per operand (zero: reduced; the shadow's own content: unreduced)."""
from specs import *
from loops import lift_rect, read_rc, write_rc, has_t
from witness import *

MODT = re.compile(r'Modular(Balanced)?<|RNSIntegerMod<')
RINGT = re.compile(r'ZRing<|UnparametricRing<|DoubleDomain|FloatDomain|UnparamRing|RNSInteger<')
def field_class(t):
    if RINGT.search(t.split('MMHelper')[0]): return 'ring'
    if MODT.search(t): return 'mod'
    return None
LEAVES = {'fger', 'Winograd', 'WinoPar', 'WinogradAcc_3_21', 'WinogradAcc_3_23', 'WinogradCalc', 'DynamicPeeling2'}
COPY = {'fassign', 'cblas_dcopy', 'cblas_scopy'}
SWAP = {'fswap', 'cblas_dswap', 'cblas_sswap'}
CLEAN = {'freduce', 'pfreduce', 'finit', 'fzero', 'pfzero', 'fidentity', 'frand', 'finit_rns', 'finit_trans_rns'}
ADD = {'fadd', 'fsub', 'faddin', 'fsubin', 'pfadd', 'pfsub', 'pfaddin', 'pfsubin', 'fneg', 'fnegin'}
SOLVE = {'cblas_dtrsm', 'cblas_strsm', '.operator()', '.delayed', 'ftrsm'}
RAW = {'fconvert', 'fconvert_rns', 'fconvert_trans_rns'}
SKIP = {'fflas_new', 'fflas_delete', 'DotProdBoundClassic', 'InfNorm', 'abs', 'maxCardinality', 'min_types', 'fdot'}

CLAIMED = {'fgemm', 'fgemv', 'fger', 'pfgemm', 'pfgemv'}
class RedExec(Exec):
    trace = None
    MAXSTATES = 1200
    nops = 0; nuse = 0
    def new_obj(self, S, name, ld, kind, dflt, **kw):
        p = Exec.new_obj(self, S, name, ld, kind, dflt, **kw)
        S.objs[name + '~'] = Obj(name + '~', ld, 'shadow', 'in' if kind == 'in' and self.unknown_in(kw) else 'zero')
        return p
    def unknown_in(self, kw): return False
    def access(self, S, kind, o, rc):
        Exec.access(self, S, kind, o, rc)
        if self.trace is not None: self.trace.append((kind, o, rc))
    # ---- shadows
    def mark(self, S, o, rc, dirty):
        n = o + '~'
        if n not in S.objs: return
        if S.objs[n].ld is None: S.objs[n] = S.objs[n].but(ld=S.objs[o].ld)
        m = Mat.atom(At(n + 'm', rc[0], rc[1], rc[2], rc[3])) if dirty else Mat.zero(rc[2], rc[3])
        write_rc(self, S, n, rc, Grid.of(m))
        if S.log is not None: S.log.append(('W', n, rc, self.line))
    def dirty(self, S, o, rc, any_=False):
        n = o + '~'
        if n not in S.objs or (not S.objs[n].cells and not (any_ and S.objs[n].dflt == 'in')): return None
        for i, j, m in read_rc(self, S, n, rc).blocks():
            if not m.iszero() and (any_ or any(x.o.endswith('~m') for w in m.d for x in w)): return (rc[0] + i, rc[1] + j, m.nr, m.nc)
        return None
    def cls_of(self, S, name, e, vs):
        """('mod' | 'ring' | None, lazy) of a call"""
        fn = None
        if e is not None and e[0] in ('call', 'mcall', 'op', 'icall'):
            ci = e[3] if e[0] == 'op' else e[2]
            fn = self.prog.by_id.get((ci or {}).get('i'))
        if name.startswith('cblas_') or name == 'igemm_': return 'ring', False
        if fn is None: return None, False
        return red_class(fn)
    def bounded_call(self, e):
        ci = e[3] if e[0] == 'op' else e[2]
        fn = self.prog.by_id.get((ci or {}).get('i'))
        return fn is not None and any('MMHelper' in p[2] for p in fn.params)
    # ---- what a helper states about the bounds of its operands
    def is_helper(self, v): return isinstance(v, Rec) and (v.p in self.hparams or v.p in self.helpers)
    def claims(self, S, p):
        v = S.flds.get((p, '%claim'))
        return v.t[1] if isinstance(v, Free) and v.t[0] == 'claim' else frozenset()
    def set_claims(self, S, p, c): S.flds[(p, '%claim')] = Free(('claim', frozenset(c)), True)
    def decl(self, d, S):
        r = Exec.decl(self, d, S)
        if 'Helper' in d[4] and 'TRSM' not in d[4] and 'ParSeq' not in d[4].split('<')[0] and not d[4].rstrip().endswith('&') and d[6] is not None:
            ie = strip(d[6])
            if ie and ie[0] in ('ctor', 'init', 'plist'):
                a = ie[4] if ie[0] == 'ctor' else ie[-1]
                for s in r:
                    v = s.env.get((self.fr(), d[3]))
                    if not isinstance(v, Rec): continue
                    self.helpers.add(v.p)
                    vs = [self.rv(s, x) for x in a]
                    src = [x for x in vs if self.is_helper(x)]
                    if src:
                        self.set_claims(s, v.p, self.claims(s, src[0].p))
                    elif len(a) <= 4 and self.fresh_mode(d[4]): self.set_claims(s, v.p, 'ABC')
                    else: self.set_claims(s, v.p, '')
        return r
    def fresh_mode(self, t): return True
    def store(self, S, loc, v):
        if loc[0] == 'fld' and loc[2] in ('Amin', 'Amax', 'Bmin', 'Bmax', 'Cmin', 'Cmax'):
            self.set_claims(S, loc[1], self.claims(S, loc[1]) - {loc[2][0], 'stale'})
        return Exec.store(self, S, loc, v)
    def method(self, S, name, e):
        obj = self.rv(S, e[3])
        if not self.is_helper(obj): return
        c = self.claims(S, obj.p)
        if name in ('.initA', '.initB', '.initC'): self.set_claims(S, obj.p, (c | {name[-1]}) - ({'stale'} if name == '.initC' else set()))
    def check_claims(self, S, name, vs, ws, rs):
        if name not in CLAIMED: return
        hs = [v for v in vs if self.is_helper(v)]
        ps = [v for v in vs if isinstance(v, Ptr)]
        if not hs or len(ps) != 3: return
        c = self.claims(S, hs[0].p)
        out = [x for x in ws if x[0] == ps[2].o]
        for X, p in zip('ABC', ps):
            for o, rc in rs:
                if o != p.o or (X == 'C') != ((o, rc) in out): continue
                self.nuse += 1
                if X in c: d = self.dirty(S, o, rc, True)
                elif X == 'C' and 'stale' in c: d = self.dirty(S, o, rc)
                else: d = None
                if d is None: continue
                w = witness(S.facts.ge, [x for x in S.neq if all(self.plain_atom(a) for a in x.atoms())], list(d[2:]))
                if w is None: raise Undecided('no witness')
                raise Viol('unreduced', '%s is told that operand %s is %s but rows %r:+%r columns %r:+%r may be unreduced [e.g. %s]' % (
                    name, o, 'reduced' if X in c else 'as it was before it was accumulated into', d[0], d[2], d[1], d[3], wstr_(w)), self.line)
        if out: self.set_claims(S, hs[0].p, c | {'stale'})
    def contract(self, S, name, h, e, vs):
        if name in ('.initA', '.initB', '.initC'): self.method(S, name, e)
        if self.trace is not None or name in SKIP or (name.startswith('.') and name not in ('.delayed', '.operator()')): return h(self, S, e, vs)
        c, lazy = self.cls_of(S, name, e, vs)
        self.trace = tr = []
        try: r = h(self, S, e, vs)
        finally: self.trace = None
        ws = [(o, rc) for k, o, rc in tr if k == 'w']; rs = [(o, rc) for k, o, rc in tr if k == 'r']
        self.check_claims(S, name, vs, ws, rs)
        self.nops += 1
        if name in SWAP:
            if len(ws) == 2:
                d = [self.dirty(S, o, rc) for o, rc in ws]
                for (o, rc), x in zip(ws, reversed(d)): self.mark(S, o, rc, x is not None)
            return r
        if name == 'freduce_constoverride': self.clean_arg(S, vs); return r
        if name in COPY or (name in ADD and c == 'mod'):      # sums of unreduced elements stay congruent, and unreduced
            d = any(self.dirty(S, o, rc) for o, rc in rs)
            for o, rc in ws: self.mark(S, o, rc, d)
        elif name in CLEAN:
            for o, rc in ws: self.mark(S, o, rc, False)
        elif name in RAW:
            for o, rc in ws: self.mark(S, o, rc, True)
        elif c == 'mod' and not lazy:
            for o, rc in (rs if name != '.delayed' and not self.bounded_call(e) else ()):      # the delayed solver reduces its right-hand side itself; a helper carries the bounds of its operands
                self.nuse += 1
                d = self.dirty(S, o, rc)
                if d is not None:
                    w = witness(S.facts.ge, [x for x in S.neq if all(self.plain_atom(a) for a in x.atoms())], list(d[2:]))
                    if w is None: raise Undecided('no witness')
                    raise Viol('unreduced', '%s over the field is given %s rows %r:+%r columns %r:+%r whose reduction was delayed and not completed [e.g. %s]' % (name, o, d[0], d[2], d[1], d[3], wstr_(w)), self.line)
            for o, rc in ws: self.mark(S, o, rc, False)
        elif c == 'ring' or lazy:
            if name in SOLVE:      # the bound on the order of an exact solve over the integers assumes reduced operands
                for o, rc in rs:
                    self.nuse += 1
                    d = self.dirty(S, o, rc, True)
                    if d is None: continue
                    w = witness(S.facts.ge, [x for x in S.neq if all(self.plain_atom(a) for a in x.atoms())], list(d[2:]))
                    if w is None: raise Undecided('no witness')
                    raise Viol('unreduced', '%s over the integers is given %s rows %r:+%r columns %r:+%r that may be unreduced [e.g. %s]' % (name, o, d[0], d[2], d[1], d[3], wstr_(w)), self.line)
            for o, rc in ws: self.mark(S, o, rc, True)
        else:
            for o, rc in ws: self.mark(S, o, rc, False)
        return r
    def clean_arg(self, S, vs):
        for v in vs:
            if isinstance(v, Ptr) and v.o + '~' in S.objs:
                S.objs[v.o + '~'] = S.objs[v.o + '~'].but(cells=(), dflt='zero')
    def loop_tasks(self, S, e, fin, a, T):
        for n in S.objs:
            if not n.endswith('~') or n not in e.objs or e.objs[n].cells == S.objs[n].cells: continue
            done = set()
            for k, on, rc, ln in e.log:
                if k != 'W' or on != n or rc in done: continue
                done.add(rc)
                o = n[:-1]
                d = self.dirty(e, o, rc) is not None
                fixed = not any(has_t(x, a) for x in rc)
                r = lift_rect(rc, a, T)
                if r is None: raise Undecided('loop: unreduced part')
                if fixed and not d and not S.facts.nonneg(T - 1) and self.dirty(S, o, rc): d = True
                if fin.objs[n].ld is None: fin.objs[n] = fin.objs[n].but(ld=e.objs[n].ld)
                m = Mat.atom(At(n + 'm', r[0], r[1], r[2], r[3])) if d else Mat.zero(r[2], r[3])
                write_rc(self, fin, n, r, Grid.of(m))
    def at_exit(self, S):
        if not self.check_out: return
        for n, ob in S.objs.items():
            if ob.kind != 'shadow' or S.objs[n[:-1]].kind != 'in': continue
            for cell in ob.cells:
                if not any(x.o.endswith('~m') for w in cell[4].d for x in w) or cell[2].iszero() or cell[3].iszero(): continue
                w = witness(S.facts.ge, [x for x in S.neq if all(self.plain_atom(a) for a in x.atoms())], [cell[2], cell[3]])
                if w is None: raise Undecided('no witness')
                if S.taint: self.tainted = True; continue
                raise Viol('unreduced', 'returns %s rows %r:+%r columns %r:+%r unreduced [e.g. %s]' % (n[:-1], cell[0], cell[2], cell[1], cell[3], wstr_(w)), self.line)

def red_class(f):
    c = None; lazy = False
    for pn, pv, pt in f.params:
        if 'MMHelper' in pt or 'TRSMHelper' in pt:
            # these leave the reduction to their caller
            if 'LazyTag' in pt or 'DefaultBoundedTag' in pt or (f.name in LEAVES and 'DelayedTag' in pt): lazy = True
            continue
        if c is None and pkind(pt) == 'R': c = field_class(pt)
    return c, lazy
def red_fn(prog, f):
    nm = spec_name(f)
    mt = match(f, SHAPES[nm])
    if not mt: return None
    c, lazy = red_class(f)
    class X(RedExec):
        check_out = c == 'mod' and not lazy
        tot = [0, 0]
        helpers = set(); hparams = set('p:' + p[0] for p in f.params if 'MMHelper' in p[2])
        def unknown_in(self, kw): return lazy or (nm == 'delayed' and not kw.get('const'))
        def contract(self, *a):
            X.tot[0] += 1
            return RedExec.contract(self, *a)
    r = verify(prog, f, nm, mt[0], mt[1], None, unroll=2, exec_cls=X)
    r.bounded = X.tot[0]; r.cases = 0
    return r
