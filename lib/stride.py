"""Provenance dataflow: which operand a pointer points into, and whose row distance / increment an
integer was computed from.  Flow-insensitive (union over all definitions of a variable), so a
mismatch is reported only when no definition can justify the use."""
import re
from core import walk
from flow import strip, text

STR = re.compile(r'^(_*(ld|inc|str|stride))', re.I)
def is_ptr(t): 
    t = t.replace('&', '').strip()
    t = re.sub(r'\bconst$', '', t).strip()
    if re.search(r'\bElement_ptr$|ConstElement_ptr$', t): return True
    return t.endswith('*') or t.endswith('*__restrict') or bool(re.search(r'rns_double_elt_(cst)?ptr$', t))
def is_int(t):
    return bool(re.match(r'^(const )?(unsigned long|long|int|unsigned int|size_t|uint64_t|int64_t|unsigned|blasint|const int|long long|unsigned long long)( &)?( const)?( &)?$', t.strip()))

def pairs(params):
    """(pointer index, stride index) among the parameters"""
    out = []
    for i in range(len(params) - 1):
        a, b = params[i], params[i + 1]
        if is_ptr(a[2]) and is_int(b[2]) and STR.match(b[0] or ''): out.append((i, i + 1))
    return out

CBLAS = re.compile(r'^cblas_[sd](gemm|gemv|ger|trsm|trmm|trsv|trmv|dot|axpy|scal|copy|swap|syrk|syr2k|syr|nrm2)$')
FWD = {'fflas_const_cast', 'const_cast', 'fflas_const_cast_'}

class Prov(object):
    def __init__(self, f):
        self.f = f
        self.pp = pairs(f.params)
        self.own = {}        # pointer param vid -> stride vid
        self.strides = {}    # stride vid -> pointer param vids
        self.name = {}
        for a, b in self.pp:
            while True:
                self.own.setdefault(f.params[a][1], set()).add(f.params[b][1])
                self.strides.setdefault(f.params[b][1], set()).add(f.params[a][1])
                b += 1        # a second distance of the same operand (row distance, then increment)
                if not (b < len(f.params) and is_int(f.params[b][2]) and STR.match(f.params[b][0] or '')): break
        self.par = {p[1]: p for p in f.params}
        for p in f.params: self.name[p[1]] = p[0]
        self.defs = {}
        self.types = {p[1]: p[2] for p in f.params}
        self.byref = set()
        for n in walk(f.body):
            if n[0] == 'decl':
                self.name[n[3]] = n[2]; self.types[n[3]] = n[4]
                if n[6] is not None: self.defs.setdefault(n[3], []).append(n[6])
                else: self.defs.setdefault(n[3], [])
            elif n[0] == 'asg':
                l = strip(n[3])
                if l and l[0] == 'v': self.defs.setdefault(l[2], []).append(n[4])
        self.rmemo = {}; self.dmemo = {}
    # ---- roots of a pointer expression
    def roots(self, e, busy=()):
        e = strip(e)
        if not isinstance(e, list) or not e: return {'?'}
        k = e[0]
        if k == 'v':
            v = e[2]
            if v in busy: return set()
            r = set()
            if v in self.par:
                r.add(('p', v))
            if v in self.rmemo: return self.rmemo[v]
            ds = self.defs.get(v, [])
            for d in ds: r |= self.roots(d, busy + (v,))
            if v not in self.par and not ds: r.add('?')
            if not busy: self.rmemo[v] = r
            return r
        if k == 'op' and e[2] in ('+', '-') and len(e[4]) == 2: e = ['bin', e[1], e[2], e[4][0], e[4][1]]; k = 'bin'
        if k == 'bin' and e[2] in ('+', '-'):
            r = self.roots(e[3], busy)
            if e[2] == '+' and self.isint(e[3]): r = self.roots(e[4], busy)
            return r
        if k == 'asg': return self.roots(e[4], busy) if e[2] == '=' else self.roots(e[3], busy)
        if k == 'un' and e[2] in ('&',):
            x = strip(e[3])
            if x and x[0] == 'idx': return self.roots(x[2], busy)
            if x and x[0] == 'un' and x[2] == '*': return self.roots(x[3], busy)
            return {'?'}
        if k == 'un' and e[2] in ('++', '--', 'p++', 'p--', '++p'): return self.roots(e[3], busy)
        if k == 'cond': return self.roots(e[4], busy) | self.roots(e[5], busy)
        if k == 'call':
            q = e[2].get('q', '').split('::')[-1]
            if q in FWD and e[3]: return self.roots(e[3][0], busy)
            return {'?'}
        if k == 'null' or (k == 'i' and e[1] == 0): return set()
        return {'?'}
    def isint(self, e):
        e = strip(e)
        if not e: return False
        if e[0] == 'i': return True
        if e[0] == 'v': return is_int(self.types.get(e[2], ''))
        if e[0] == 'bin': return self.isint(e[3]) and self.isint(e[4])
        return False
    # ---- dependences of an integer expression on stride parameters (and on anything unknown)
    def deps(self, e, busy=()):
        e = strip(e)
        if not isinstance(e, list) or not e: return set()
        out = set()
        for n in self.leaves(e):
            if n[0] == 'v':
                v = n[2]
                if v in self.strides: out.add(v); continue
                if v in self.par:
                    out.add(('d', v)); continue
                if v in busy: continue
                if v in self.dmemo: out |= self.dmemo[v]; continue
                ds = self.defs.get(v)
                if not ds: out.add('?'); continue
                r = set()
                for d in ds: r |= self.deps(d, busy + (v,))
                if not busy: self.dmemo[v] = r
                out |= r
            else: out.add('?')
        return out
    def leaves(self, e):
        e = strip(e)
        if not isinstance(e, list) or not e: return
        k = e[0]
        if k == 'v': yield e
        elif k == 'i': return
        elif k == 'bin' or k == 'asg':
            for x in (e[3], e[4]): yield from self.leaves(x)
        elif k == 'op' and e[2] in ('+', '-', '*') and len(e[4]) == 2:
            for x in e[4]: yield from self.leaves(x)
        elif k == 'un': yield from self.leaves(e[3])
        elif k == 'cond':
            for x in (e[4], e[5]): yield from self.leaves(x)
        elif k == 'call' and e[2].get('q', '').split('::')[-1] in ('min', 'max'):
            for x in e[3]: yield from self.leaves(x)
        elif k in ('f', 'b', 'en', 'null'): return
        else: yield ['?']
    def terms(self, e):
        e = strip(e)
        if isinstance(e, list) and e and e[0] == 'op' and e[2] in ('+', '-') and len(e[4]) == 2:
            return self.terms(e[4][0]) + self.terms(e[4][1])
        if isinstance(e, list) and e and e[0] == 'bin' and e[2] in ('+', '-'):
            return self.terms(e[3]) + self.terms(e[4])
        return [e]
    def ownof(self, roots):
        """stride ids of the roots, or None when some root has no stride of its own"""
        o = set()
        for r in roots:
            if r == '?' or r[1] not in self.own: return None
            o |= self.own[r[1]]
        return o or None

def offsets(pv):
    """(line, pointer expr, offset expr) of all pointer arithmetic"""
    for n in walk(pv.f.body):
        if n[0] == 'idx': yield n[1], n[2], n[3]
        elif n[0] == 'bin' and n[2] in ('+', '-'):
            a, b = n[3], n[4]
            if pv.isint(a) and not pv.isint(b): a, b = b, a
            yield n[1], a, b
        elif n[0] == 'op' and n[2] in ('+', '-') and len(n[4]) == 2:
            a, b = n[4]
            if pv.isint(a) and not pv.isint(b): a, b = b, a
            yield n[1], a, b
        elif n[0] == 'op' and n[2] == '[]' and len(n[4]) == 2: yield n[1], n[4][0], n[4][1]
        elif n[0] == 'op' and n[2] in ('+=', '-=') and len(n[4]) == 2: yield n[1], n[4][0], n[4][1]
        elif n[0] == 'asg' and n[2] in ('+=', '-='): yield n[1], n[3], n[4]

# ---- polynomial normal form of an integer expression (locals with one definition are expanded)
class Norm(object):
    def __init__(self, pv):
        self.pv = pv
        self.mut = set()
        cnt = {}
        for n in walk(pv.f.body):
            if n[0] == 'asg':
                l = strip(n[3])
                if l and l[0] == 'v':
                    if n[2] != '=': self.mut.add(l[2])
                    cnt[l[2]] = cnt.get(l[2], 0) + 1
            elif n[0] == 'un' and n[2] not in ('!', '-', '~', '*', '+') :
                l = strip(n[3])
                if l and l[0] == 'v': self.mut.add(l[2])
            elif n[0] == 'decl' and n[6] is not None: cnt[n[3]] = cnt.get(n[3], 0) + 1
            elif n[0] in ('call', 'mcall', 'op', 'ctor'):
                # passed by reference: may change (only plain variables of integer type matter)
                for a in (n[3] if n[0] == 'call' else n[4] if n[0] in ('mcall', 'op', 'ctor') and len(n) > 4 and isinstance(n[4], list) else []):
                    if isinstance(a, list) and a and a[0] == 'v' and not self.isconst(a[2]): self.mut.add((a[2], 'ref'))
        self.cnt = cnt
    def isconst(self, v): return 'const' in self.pv.types.get(v, '')
    def poly(self, e, depth=0):
        e = strip(e)
        if not isinstance(e, list) or not e: return {('?',): 1}
        k = e[0]
        if k == 'i': return {(): e[1]} if e[1] else {}
        if k == 'v':
            v = e[2]
            ds = self.pv.defs.get(v, [])
            if v not in self.pv.par and len(ds) == 1 and v not in self.mut and depth < 12:
                d = strip(ds[0])
                if d and d[0] in ('v', 'bin', 'i'): return self.poly(d, depth + 1)
            return {(('v', v),): 1}
        if k == 'bin' and e[2] in '+-*':
            a, b = self.poly(e[3], depth), self.poly(e[4], depth)
            r = {}
            if e[2] == '*':
                for x, c in a.items():
                    for y, d in b.items():
                        m = tuple(sorted(x + y, key=str)); r[m] = r.get(m, 0) + c * d
            else:
                s = 1 if e[2] == '+' else -1
                r = dict(a)
                for y, d in b.items(): r[y] = r.get(y, 0) + s * d
            return {m: c for m, c in r.items() if c}
        return {(('t', text(e)),): 1}
