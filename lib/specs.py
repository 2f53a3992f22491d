"""Verification targets: every definition whose name has a specification and whose parameters match
one of its shapes is analysed against that specification."""
import itertools
from absint import *
from contracts import *

E3 = [En('FflasNoTrans', 111), En('FflasTrans', 112)]
ENUMS = {
    'FFLAS_TRANSPOSE': E3,
    'FFLAS_SIDE': [En('FflasLeft', 141), En('FflasRight', 142)],
    'FFLAS_UPLO': [En('FflasUpper', 121), En('FflasLower', 122)],
    'FFLAS_DIAG': [En('FflasNonUnit', 131), En('FflasUnit', 132)],
}
# E enum, N size, S scalar, M matrix, V vector, L its row distance, m/v: in/out (writable) operand
SHAPES = {
    'fgemm': ['EENNNSMLMLSmL'], 'pfgemm': ['EENNNSMLMLSmL'],
    'fsquare': ['ENSMLSmL'], 'fsquareCommon': ['ENSMLSmL'], 'fgemv': ['ENNSMLVLSvL'], 'pfgemv': ['ENNSMLVLSvL'], 'fger': ['NNSVLVLmL'],
    'WinogradCalc': ['EENNNSMLMLSmL'], 'Winograd': ['EENNNSMLMLSmL'], 'WinoPar': ['EENNNSMLMLSmL'], 'WinogradAcc_3_21': ['EENNNSMLMLSmL'], 'WinogradAcc_3_23': ['EENNNSMLMLSmL'],
    'DynamicPeeling2': ['EENNNNNNSMLMLSmL'],
    'functor': ['NNMLmL', 'NNMLMLSmL'], 'delayed': ['NNMLmLNN', 'NNMLmL', 'NNMLMLSmL'],
    'fadd': ['NVLVLvL', 'NNMLMLmL', 'NVLSVLvL', 'NNMLSMLmL'], 'fsub': ['NVLVLvL', 'NNMLMLmL'],
    'pfadd': ['NNMLMLmL'], 'pfsub': ['NNMLMLmL'], 'pfaddin': ['NNMLmL'], 'pfsubin': ['NNMLmL'],
    'faddin': ['NVLvL', 'NNMLmL'], 'fsubin': ['NVLvL', 'NNMLmL'],
    'fscal': ['NSVLvL', 'NNSMLmL'], 'fscalin': ['NSvL', 'NNSmL'],
    'fassign': ['NVLvL', 'NNMLmL'], 'fneg': ['NVLvL', 'NNMLmL'], 'fnegin': ['NvL', 'NNmL'],
    'faxpy': ['NSVLvL', 'NNSMLmL'], 'fzero': ['NvL', 'NNmL'], 'fdot': ['NVLVL'], 'fswap': ['NvLvL'],
    'freduce': ['NvL', 'NVLvL', 'NNmL', 'NNMLmL'], 'finit': ['NvL', 'NVLvL', 'NNmL', 'NNMLmL'], 'pfreduce': ['NNmL'], 'pfzero': ['NNc'],
    'fconvert': ['NvLVL', 'NNmLML'],
    'ftrsm': ['EEEENNSMLmL'], 'ftrmm': ['EEEENNSMLmL', 'EEEENNSMLMLSmL'],
}
def precondition(fn, name, shape, ps):
    """documented preconditions of an overload: list of (kind, parameter index); None if there is none"""
    hs = [p[2] for p in fn.params if 'MMHelper' in p[2]]
    if name in ('fgemm', 'fgemv') and any('LazyTag' in t for t in hs):
        # the delayed-reduction kernels are entered with a non-empty inner dimension (their callers
        # handle the empty one by scaling), and with alpha != 0 (FFLASFFPACK_check)
        def pre(I, S, keys):
            f = I.flags
            k = S.env[keys[4]] if name == 'fgemm' else S.env[keys[2 if f[0].n == 'FflasNoTrans' else 1]]
            I.assume_ge(S, k - 1)
            return not I.scal_is(S, S.env[keys[5 if name == 'fgemm' else 3]], ZERO)
        return pre
    if name == 'fgemv' and any('RNSInteger' in t for t in hs):       # the public fgemv scales Y itself when the inner dimension is 0
        def pre(I, S, keys):
            I.assume_ge(S, S.env[keys[2 if I.flags[0].n == 'FflasNoTrans' else 1]] - 1)
            return not I.scal_is(S, S.env[keys[3]], ZERO)
        return pre
    if name == 'fgemv' and any('DefaultTag' in t for t in hs):      # FFLASFFPACK_check (!F.isZero (alpha)); the callers scale when alpha = 0
        return lambda I, S, keys: not I.scal_is(S, S.env[keys[3]], ZERO)
    if name == 'DynamicPeeling2':
        def pre(I, S, keys):
            for i in (2, 3, 4): I.assume_ge(S, S.env[keys[i]] - S.env[keys[i + 3]])
            return True
        return pre
    if name == 'delayed' and shape == 'NNMLmLNN':
        kind, fl = functor_flags(fn.q)
        def pre(I, S, keys):
            d = S.env[keys[0]] if fl[0].n == 'FflasLeft' else S.env[keys[1]]
            nb, q = S.env[keys[6]], S.env[keys[7]]
            I.assume_eq(S, nb - 1)
            I.assume_ge(S, q - 1)
            I.assume_eq(S, d - S.env[keys[7]])
            I.in_delayed = True
            return True
        return pre
    if name in ('Winograd', 'WinoPar'):
        def pre(I, S, keys): return I.scal_is(S, S.env[keys[10]], 0)
        return pre
    if name == 'fgemm' and any('WinogradPar' in t for t in hs):
        def pre(I, S, keys):     # FFLASFFPACK_check (F.isZero (beta)) in the schedule
            if not I.scal_is(S, S.env[keys[10]], 0): return False
            return True
        return pre
    return None

import re
SCALT = re.compile(r'^(const )?(Givaro::Integer|FFPACK::rns_double_elt|RecInt::r[um]?int<[^<>]*>)( const)?( ?&)?$')
def pkind(t):
    for k in ENUMS:
        if k in t: return 'E'
    c = tclass(t)
    if c == 'ptr':
        el_ = ptr_elem(t)
        return 'P'
    if c == 'int': return 'N'
    if c == 'flt' or SCALT.match(t): return 'S'
    return 'R'

def match(fn, shapes):
    ps = [(p, pkind(p[2])) for p in fn.params]
    ks = [(p, k) for p, k in ps if k != 'R']
    for sh in shapes:
        flat = ''.join({'E': 'E', 'N': 'N', 'S': 'S', 'M': 'P', 'm': 'P', 'V': 'P', 'v': 'P', 'L': 'N', 'c': 'P'}[c] for c in sh)
        got = ''.join(k for p, k in ks)
        if len(got) < len(flat): continue
        if 'L' not in sh and 'c' not in sh: continue
        ok = all(g == f or (f == 'S' and g in 'NR') for g, f in zip(got, flat))
        if ok and 'P' not in got[len(flat):] and 'E' not in got[len(flat):]:
            return sh, [p for p, k in ks][:len(sh)]
    return None

class Result(object):
    __slots__ = ('status', 'msgs', 'paths', 'stmts', 'line', 'cases', 'used', 'bounded')
    def __init__(self):
        self.status = 'ok'; self.msgs = []; self.paths = 0; self.stmts = 0; self.cases = 0; self.bounded = 0; self.used = set()

def setup(I, fn, shape, ps, flags, top):
    """initial state; returns (S, values for the specification as keys)"""
    S = State()
    I.stack = [top]
    for pn, pv, pt in fn.params:
        c = tclass(pt)
        if pkind(pt) == 'R': S.env[(top, pv)] = Rec('p:' + pn)
        elif c == 'int': S.env[(top, pv)] = Poly.sym(('sgn', 'p:' + pn))
        elif c == 'flt': S.env[(top, pv)] = TOP
        else: S.env[(top, pv)] = TOP
    fi = 0
    no = 0
    last = None
    sizes = iter('mnkpqr')
    onames = iter('ABCDE')
    keys = []
    for c, p in zip(shape, ps):
        vid = p[1]
        if c == 'E': v = flags[fi]; fi += 1
        elif c == 'N': v = Poly.sym(next(sizes))
        elif c == 'S':
            no += 1; v = Scal(Poly.sym('alpha%d' % no))
        elif c in 'MmVv':
            o = next(onames)
            last = o
            v = I.new_obj(S, o, Poly.sym('ld' + o), 'in', 'in', vec=c in 'Vv', const=c in 'MV')
        elif c == 'c':      # contiguous m x n matrix
            o = next(onames); last = o
            S.facts.add(Poly.sym('n') - 1)
            v = I.new_obj(S, o, Poly.sym('n'), 'in', 'in')
        elif c == 'L':
            v = Poly.sym('ld' + last)
            S.facts.add(v - 1)
        S.env[(top, vid)] = v
        k = ('spec', len(keys))
        S.env[k] = v
        keys.append(k)
        if c == 'c':
            k = ('spec', len(keys)); S.env[k] = Poly.sym('n'); keys.append(k)
    return S, keys

def compare_states(I, s, T, objs, facts):
    """differences between the memory computed by the body and by the specification"""
    bad = []
    undec = None
    for o in objs:
        a, b = s.objs[o], T.objs[o]
        rects = []
        for cell in list(b.cells) + list(a.cells):
            if cell[:4] not in rects: rects.append(cell[:4])
        for rc in rects:
            if rc[2].iszero() or rc[3].iszero(): continue
            from loops import read_rc
            ga = read_rc(I, s, o, rc); gb = read_rc(I, T, o, rc)
            if any(isinstance(m, Packed) for g in (ga, gb) for _, _, m in g.blocks()):
                d = packed_diff(I, s, ga, gb)
            else:
                d = canon(ga.add(gb.scale(P(-1)), facts), facts)
            for i, j, m in d.blocks():
                if not m.iszero():
                    if any(x.o.startswith('?') for w in m.d for x in w) or has_q(m): raise Undecided('unknown content')
                    bad.append((o, (rc[0] + i, rc[1] + j, m.nr, m.nc), m))
    return bad
compare_plain = compare_states
def has_q(m):
    for w, c in m.d.items():
        for y in c.atoms():
            at = atom_of(y)
            if isinstance(at, tuple) and at[0] == 'el' and any(x.o.startswith('?') for x in at[1]): return True
    return False
def packed_diff(I, s, ga, gb):
    raise Undecided('packed comparison')

def verify(prog, fn, name, shape, ps, handler, flagsets=None, pre=None, contracts=None, drop=(), on_race=None, budget=60000, ret=False, exec_cls=Exec, unroll=0):
    R = verify1(prog, fn, name, shape, ps, handler, flagsets, pre, contracts, drop, on_race, budget, ret, exec_cls, unroll, 0)
    if R.status == 'undec':
        R2 = verify1(prog, fn, name, shape, ps, handler, flagsets, pre, contracts, drop, on_race, budget, ret, exec_cls, unroll, 1)
        R2.used |= R.used; R2.stmts += R.stmts
        if R2.status == 'viol': return R2
    return R

def verify1(prog, fn, name, shape, ps, handler, flagsets, pre, contracts, drop, on_race, budget, ret, exec_cls, unroll, splits):
    """analyse one definition; returns Result"""
    R = Result()
    enums = []
    for c, p in zip(shape, ps):
        if c == 'E':
            for k in ENUMS:
                if k in p[2]: enums.append(ENUMS[k])
    combos = list(itertools.product(*enums))[:getattr(exec_cls, 'max_flags', None)]
    if pre is None: pre = precondition(fn, name, shape, ps)
    for flags in combos:
        C = dict(contracts or CONTRACTS)
        for x in drop: C.pop(x, None)
        I = exec_cls(prog, C, on_race=on_race)
        I.budget = budget; I.unroll = unroll; I.splits = splits
        top = ('t',)
        tainted = []
        try:
            S, keys = setup(I, fn, shape, ps, flags, top)
            R.cases += 1
            I.line = fn.line
            I.flags = flags
            S.facts.I = I
            states = [S]
            if pre:
                states = [x for v, x in I.variants(S, lambda z: pre(I, z, keys)) if v is not False]
            for S in states:
                outs = I.run_body(S, fn.body)
                for s in outs:
                    R.paths += 1
                    I.at_exit(s)
                    if handler is None: continue
                    T = State(); T.facts = s.facts.copy()
                    for o in S.objs:
                        T.objs[o] = s.objs[o].but(cells=(), dflt='zero' if ('zero', o) in s.env else 'in', const=False)
                    s.log = None; s.tasks = (); s.cur = None
                    vals = [s.env[k] for k in keys]
                    I2 = exec_cls(prog, C); I2.budget = budget; I2.splits = splits; I2.hint = s
                    T.facts.I = I2
                    def final(z):
                        v = handler(I2, z, None, vals)
                        s2 = s.copy(); s2.facts = z.facts
                        bad = compare_states(I2, s2, z, list(S.objs), z.facts)
                        if ret and s.ret is not None:
                            rv_ = s.ret
                            if isinstance(rv_, Ref): rv_ = I.load(s, rv_.l)
                            if not isinstance(rv_, Scal): raise Undecided('unknown return value')
                            g = Grid.of(mat_of_scalar(rv_.p - v.p))
                            d = canon(g, z.facts)
                            for i, j, m in d.blocks():
                                if not m.iszero():
                                    if has_q(m): raise Undecided('unknown content')
                                    bad.append(('return value', (), m))
                        if bad and s.taint:
                            tainted.append(1); return []
                        return bad
                    for bad, z in I2.variants(T, final):
                        for o, rc, m in bad:
                            w = witness(z.facts.ge, [x for x in s.neq if all(I2.plain_atom(a) for a in x.atoms())], list(rc[2:4]))
                            if w is None: raise Undecided('no witness')
                            R.status = 'viol'
                            R.msgs.append('with (%s)%s [e.g. %s]: %s%s differs from the specification by %s' % (
                                ', '.join(map(repr, flags)), facts_str(s), wstr_(w), o, ' block rows %r:+%r columns %r:+%r' % (rc[0], rc[2], rc[1], rc[3]) if rc else '', repr(m)[:300]))
                    if I2.partial: I.partial = True
            if tainted and R.status == 'ok': raise Undecided('branch on an unknown condition')
            if I.partial and R.status == 'ok': raise Undecided('case split')
        except Undecided as ex:
            if R.status == 'ok': R.status = 'undec'
            R.msgs.append('with (%s): undecided at line %d: %s' % (', '.join(map(repr, flags)), I.line, ex))
        except Viol as ex:
            R.status = 'viol'
            R.msgs.append('with (%s): line %s: %s' % (', '.join(map(repr, flags)), ex.line, ex.msg))
        except RecursionError:
            if R.status == 'ok': R.status = 'undec'
            R.msgs.append('recursion')
        R.stmts += I.nstmt; R.bounded += I.bounded
        R.used |= I.used
    return R

def facts_str(s):
    f = [repr(x) + '>=0' for x in s.facts.ge][:6]
    return (' when ' + ' and '.join(f)) if f else ''

def spec_name(f):
    """name of the specification that applies to a definition, or None"""
    if f.name == 'fadd' and f.t.endswith(',false'): return 'fsub'
    if f.name in ('operator()', 'delayed') and functor_flags(f.q): return 'functor' if f.name == 'operator()' else 'delayed'
    return f.name if f.name in SHAPES else None
def handler_of(f, nm):
    if nm in ('functor', 'delayed'): return lambda I, S, e, vs: functor(I, S, f.q, vs)
    return CONTRACTS[nm]
def verify_fn(prog, f, **kw):
    """None if the definition has no specification or an unsupported signature"""
    nm = spec_name(f)
    if nm is None: return None
    mt = match(f, SHAPES[nm])
    if not mt: return None
    drop = ('.' + nm,) if False else ()
    return verify(prog, f, nm, mt[0], mt[1], handler_of(f, nm), ret=nm == 'fdot', drop=drop, **kw)
