"""Specifications of the element-wise routines analysed by lane.py."""
from lane import *
def balanced(f): return any('Balanced' in p[2] for p in f.params)
def fieldof(f):
    for p in f.params:
        if re.search(r'Modular|ZRing|Unparam|RNS', p[2]): return p[2]
    return ''
def modular(f):
    t = fieldof(f)
    return 'Modular' in t
ADD = lambda I, x: x('A') + x('B')
SUB = lambda I, x: x('A') - x('B')
def al(I): return Poly.sym('alpha')
def spec_for(f):
    """(Spec) or None"""
    l = specs_for(f)
    return l[0][1] if l else None
def specs_for(f):
    l = [('', spec0(f, None))]
    if l[0][1] is None: return []
    r = l[0][1].roles
    if f.q.startswith('FFLAS::details::') and l[0][1].out == 'C' and 'incC' in r:
        for b in ('A', 'B'):
            if b in r and 'inc' + b in r and f.name != 'faxpy': l.append((b + ' is C', spec0(f, b)))
    if f.q == 'FFLAS::fadd' and 'a' in r: l.append(('A is C', spec0(f, 'A')))
    return l
def spec0(f, alias):
    """(Spec) or None; alias: name of an input that is the output itself"""
    q = f.q; nm = f.name; n = len(f.params)
    C = {'A': 'canon', 'B': 'canon', 'C': 'canon'}
    def S(roles, want, out, inputs=C, red=True, mod=None, bal=None):
        roles = roles.split()
        if len(roles) != n: return None
        w0 = want
        if alias:
            roles = ['C' if r == alias else 'incC' if r == 'inc' + alias else r for r in roles]
            want = lambda I, x: w0(I, lambda b: x('C' if b == alias else b))
            inputs = dict(inputs); inputs['C'] = inputs.get(alias, 'canon')
        m = modular(f) if mod is None else mod
        return Spec(roles, want, out, balanced(f) if bal is None else bal, m, red and m, inputs if m else {})
    if re.match(r'^FFLAS::vectorised::\w+$', q):
        if nm in ('addp', 'subp'):
            pos = f.t.startswith('true')
            return S('C A B n p min max', ADD if nm == 'addp' else SUB, 'C', mod=True, bal=not pos)
        if nm in ('add', 'sub'): return S('C A B n', ADD if nm == 'add' else SUB, 'C', mod=False)
    if re.match(r'^FFLAS::vectorised::(unswitch::)?\w+$', q) and 'unswitch' not in q:
        any_ = {'A': 'any', 'C': 'canon'}
        if nm == 'modp': return S('F A n C', lambda I, x: x('A'), 'C', any_) if n == 4 else S('F A n incAC C', lambda I, x: x('A'), 'C', any_)
        if nm == 'scalp':
            w = lambda I, x: al(I) * x('A')
            return S({5: 'F C a A n', 6: 'F C a A n incAC', 7: 'F C a A n incA incC'}.get(n, ''), w, 'C')
        if nm == 'axpyp':
            w = lambda I, x: x('C') + al(I) * x('A')
            return S({5: 'F a A C n', 7: 'F a A C n incA incC'}.get(n, ''), w, 'C')
    if q.startswith('FFLAS::details::'):
        if nm == 'fadd':
            return S('F n A incA B incB C incC _', SUB if f.t.endswith('false') else ADD, 'C')
        if nm == 'fscalin': return S('F n a C incC _', lambda I, x: al(I) * x('C'), 'C')
        if nm == 'fscal': return S('F n a A incA C incC _', lambda I, x: al(I) * x('A'), 'C')
        if nm == 'faxpy': return S('F n a A incA C incC _', lambda I, x: x('C') + al(I) * x('A'), 'C')
        if nm == 'freduce':
            if n == 5: return S('F n C incC _', lambda I, x: x('C'), 'C', {'C': 'any'})
            return S('F n A incA C incC _', lambda I, x: x('A'), 'C', {'A': 'any', 'C': 'canon'})
    if q.startswith('FFLAS::') and q == 'FFLAS::' + nm:
        ps = [p[0] for p in f.params]
        if ps and ps[0] == 'F' or len(ps) > 1 and 'Domain' in f.params[0][2]:
            ptr = [p[2].rstrip().endswith('*') or '_ptr' in p[2] for p in f.params]
            vec = n > 3 and ptr[2] or n > 4 and not ptr[2] and ptr[3] and not ptr[1]
            two = lambda w, **k: S('F n A incA C incC', w, 'C', **k)
            same = lambda I, x: x('A')
            exact = dict(mod=False)
            if nm in ('fadd', 'fsub') and n == 8 and ptr[2]: return S('F n A incA B incB C incC', ADD if nm == 'fadd' else SUB, 'C')
            if nm == 'fadd' and n == 9 and ptr[2] and ptr[5]: return S('F n A incA a B incB C incC', lambda I, x: x('A') + al(I) * x('B'), 'C')
            if nm in ('faddin', 'fsubin') and n == 6 and ptr[2]: return S('F n B incB C incC', (lambda I, x: x('C') + x('B')) if nm == 'faddin' else (lambda I, x: x('C') - x('B')), 'C')
            if n == 6 and ptr[2] and ptr[4]:
                if nm == 'fassign': return two(same, **exact)
                if nm == 'fconvert': return S('F n C incC A incA', same, 'C', **exact)
                if nm in ('finit', 'freduce'): return two(same, inputs={'A': 'any', 'C': 'canon'})
                if nm == 'fneg': return two(lambda I, x: -x('A'))
            if n == 4 and ptr[2]:
                one = lambda w, **k: S('F n C incC', w, 'C', **k)
                if nm == 'fzero': return one(lambda I, x: ZERO)
                if nm == 'fnegin': return one(lambda I, x: -x('C'))
                if nm in ('freduce', 'freduce_constoverride'): return one(lambda I, x: x('C'), inputs={'C': 'any'})
            if nm == 'fscalin' and n == 5 and ptr[3]: return S('F n a C incC', lambda I, x: al(I) * x('C'), 'C')
            if nm == 'fscal' and n == 7 and ptr[3]: return S('F n a A incA C incC', lambda I, x: al(I) * x('A'), 'C')
            if nm == 'faxpy' and n == 7 and ptr[3]: return S('F n a A incA C incC', lambda I, x: x('C') + al(I) * x('A'), 'C')
            def PR(roles, w):
                s = S(roles, w, 'C')
                if s: s.pred = True
                return s
            if nm == 'fiszero' and n == 4 and ptr[2]: return PR('F n A incA', same)
            if nm == 'fequal' and n == 6 and ptr[2]: return PR('F n A incA B incB', SUB)
            if nm == 'fiszero' and n == 5 and ptr[3]: return PR('F n cols A incA', same)
            if nm == 'fequal' and n == 7 and ptr[3]: return PR('F n cols A incA B incB', SUB)
    return None
