"""C08: every C-callable entry point forwards each argument, in its own role, to the library routine it
is named after, over the field its `positive` flag selects, and hands the result back."""
import sys, os, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from core import *

INTERNAL = 'fflas-ffpack/interfaces/libs/'
ALIAS = {'freducein': 'freduce', 'Invertin': 'Invert'}
SYMMETRIC = {'fdot', 'fequal', 'fswap'}      # op(X,Y) and op(Y,X) are the same operation
RANK = {'bool': (0, 1), 'char': (0, 7), 'signed char': (0, 7), 'unsigned char': (0, 8), 'short': (0, 15), 'unsigned short': (0, 16),
        'int': (0, 31), 'unsigned int': (0, 32), 'long': (0, 63), 'unsigned long': (0, 64), 'long long': (0, 63), 'unsigned long long': (0, 64),
        'float': (1, 24), 'double': (1, 53), 'long double': (1, 64)}
def narrows(to, frm):
    to = to.replace('const ', '').strip(); frm = frm.replace('const ', '').strip()
    if to not in RANK or frm not in RANK: return False
    a, b = RANK[to], RANK[frm]
    if to == 'bool': return False
    if a[0] == 0 and b[0] == 1: return True
    if b[0] == 0 and a[0] == 1: return False
    return a[1] + 1 < b[1]

class Undecided(Exception):
    pass

class Ev(object):
    enumcasts = set()
    """forward substitution over a loop-free body; forks on undecided conditions"""
    def __init__(self, prog, wrapper):
        self.prog = prog; self.w = wrapper; self.paths = []
    def run(self):
        env = {}
        for n, vid, ty in self.w.params:
            env[vid] = ('p', n)
        return [(st, ret) for st, ret in self.fn(self.w, env, {'ev': [], 'dec': {}}, 0)]
    def fn(self, fn, env, st, depth):
        if depth > 6: raise Undecided('recursion')
        out = []
        for st2, env2, oc in self.stmt(fn.body, env, st, depth):
            out.append((st2, oc[1] if oc and oc[0] == 'ret' else None))
        return out
    # statements: list of (state, env, outcome)
    def stmt(self, s, env, st, depth):
        if s is None: return [(st, env, None)]
        k = s[0]
        if k == 'blk':
            cur = [(st, env, None)]
            for c in s[1]:
                nxt = []
                for (a, e, oc) in cur:
                    if oc: nxt.append((a, e, oc))
                    else: nxt.extend(self.stmt(c, e, a, depth))
                cur = nxt
            return cur
        if k == 'nop' or k == '?s': return [(st, env, None)]
        if k == 'ds':
            cur = [(st, env)]
            for d in s[1]:
                nxt = []
                for a, e in cur:
                    if d[6] is None:
                        e2 = dict(e); e2[d[3]] = ('loc', d[2]); nxt.append((a, e2)); continue
                    for a2, v in self.expr(d[6], e, a, depth):
                        e2 = dict(e); e2[d[3]] = v; nxt.append((a2, e2))
                cur = nxt
            return [(a, e, None) for a, e in cur]
        if k == 'ex':
            return [(a, env if isinstance(v, tuple) and not (v and v[0] == '$env') else env, None) for a, v in self.expr(s[2], env, st, depth)] if s[2][0] != 'asg' else self.assign(s[2], env, st, depth)
        if k == 'ret':
            if s[2] is None: return [(st, env, ('ret', None))]
            return [(a, env, ('ret', v)) for a, v in self.expr(s[2], env, st, depth)]
        if k == 'if':
            res = []
            for a, v in self.expr(s[3], env, st, depth):
                for a2, b in self.decide(v, a, s[2]):
                    res.extend(self.stmt(s[4] if b else s[5], env, a2, depth))
            return res
        if k == 'sw': raise Undecided('switch')
        raise Undecided('statement ' + k)
    def assign(self, e, env, st, depth):
        if e[2] != '=' or e[3][0] != 'v': raise Undecided('assignment')
        return [(a, dict(env, **{}) if False else self._set(env, e[3][2], v), None) for a, v in self.expr(e[4], env, st, depth)]
    def _set(self, env, k, v):
        e = dict(env); e[k] = v; return e
    def decide(self, v, st, const):
        if const is not None: return [(st, bool(const))]
        if v[0] == 'c': return [(st, bool(v[1]))]
        neg = False
        while v[0] == 'not':
            neg = not neg; v = v[1]
        if v[0] == 'eq' and v[2][0] == 'c' and v[2][1] in (0, 1) and v[1] == ('p', 'positive'):
            if v[2][1] == 0: neg = not neg
            v = v[1]
        if v in st['dec']: return [(st, st['dec'][v] != neg)]
        r = []
        for b in (True, False):
            s2 = {'ev': list(st['ev']), 'dec': dict(st['dec'])}
            s2['dec'][v] = b
            r.append((s2, b != neg))
        return r
    def exprs(self, es, env, st, depth):
        cur = [(st, [])]
        for e in es:
            nxt = []
            for a, vs in cur:
                for a2, v in self.expr(e, env, a, depth):
                    nxt.append((a2, vs + [v]))
            cur = nxt
        return cur
    def expr(self, e, env, st, depth):
        k = e[0]
        if k == 'v':
            return [(st, env.get(e[2], ('loc', e[1])))]
        if k in ('i', 'b', 'f'): return [(st, ('c', e[1]))]
        if k == 'kg' or k == 'en': return [(st, ('c', e[2]))]
        if k == 'darg': return [(st, ('darg',))]
        if k in ('ic', 'cast'):
            to, frm, sub = (e[1], e[2], e[3]) if k == 'ic' else (e[3], e[4], e[5])
            if to in self.prog.enums and frm.replace('const ', '') in self.prog.enums: self.enumcasts.add((frm.replace('const ', ''), to))
            r = self.expr(sub, env, st, depth)
            if narrows(to, frm): r = [(a, ('narrow', '%s truncated to %s' % (v[1] if v[0] == 'p' else '?', to), v)) if strip(v)[0] == 'p' else (a, v) for a, v in r]
            return r
        if k == 'g': return [(st, ('g', e[1]))]
        if k == 'null': return [(st, ('c', 0))]
        if k == 'un':
            op = e[2]
            r = []
            for a, v in self.expr(e[3], env, st, depth):
                if op == '&':
                    r.append((a, v[1] if v[0] == 'deref' else ('addr', v)))
                elif op == '*':
                    r.append((a, v[1] if v[0] == 'addr' else ('deref', v)))
                elif op == '!': r.append((a, ('not', v)))
                else: r.append((a, ('un', op, v)))
            return r
        if k == 'bin':
            r = []
            for a, vs in self.exprs([e[3], e[4]], env, st, depth):
                if e[2] == '==': r.append((a, ('eq', vs[0], vs[1])))
                elif e[2] == '!=': r.append((a, ('not', ('eq', vs[0], vs[1]))))
                else: r.append((a, ('bin', e[2], vs[0], vs[1])))
            return r
        if k == 'cond':
            r = []
            for a, v in self.expr(e[3], env, st, depth):
                for a2, b in self.decide(v, a, e[2]):
                    r.extend(self.expr(e[4] if b else e[5], env, a2, depth))
            return r
        if k == 'ctor':
            r = []
            for a, vs in self.exprs(e[4], env, st, depth):
                if e[5] and len(vs) == 1: r.append((a, vs[0]))
                else: r.append((a, ('obj', e[2], tuple(v for v in vs if v != ('darg',)))))
            return r
        if k == 'init':
            return [(a, ('obj', e[1], tuple(vs))) for a, vs in self.exprs(e[2], env, st, depth)]
        if k == 'lambda':
            return [(st, ('lambda', id(e), e, env))]
        if k == 'op' and e[2] == '()' :
            r = []
            for a, vs in self.exprs(e[4], env, st, depth):
                if vs[0][0] != 'lambda': raise Undecided('call operator')
                lam, lenv = vs[0][2], dict(vs[0][3])
                for p, v in zip(lam[3], vs[1:]): lenv[p[1]] = v
                for a2, e2, oc in self.stmt(lam[4], lenv, a, depth + 1):
                    r.append((a2, oc[1] if oc and oc[1] else ('void',)))
            return r
        if k == 'call':
            r = []
            for a, vs in self.exprs(e[3], env, st, depth):
                fn = self.prog.by_id.get(e[2].get('i'))
                if fn is not None and (fn.file.startswith(INTERNAL)):
                    env2 = {p[1]: v for p, v in zip(fn.params, vs)}
                    for a2, v in self.fn(fn, env2, a, depth + 1):
                        r.append((a2, v if v is not None else ('void',)))
                else:
                    a2 = {'ev': a['ev'] + [(e[2]['q'], tuple(vs), e[1], e[2].get('t', ''), e[2].get('i'))], 'dec': a['dec']}
                    r.append((a2, ('res', len(a2['ev']) - 1)))
            return r
        if k == 'mcall':
            r = []
            for a, vs in self.exprs(e[4], env, st, depth):
                r.append((a, ('mres', e[2]['q'], tuple(vs))))
            return r
        if k == 'zero': return [(st, ('c', 0))]
        if k == 'mem':
            return [(a, ('mem', e[1], v)) for a, v in self.expr(e[2], env, st, depth)]
        raise Undecided('expression ' + k)

def strip(v):
    while v and v[0] in ('addr', 'deref'): v = v[1]
    return v

def elt_of(wname):
    if wname.endswith('_double'): return 'double'
    if wname.endswith('_float'): return 'float'
    if '_int32' in wname: return 'int'
    return None

def main():
    ck = Check('C08')
    prog = load(['lib:fflas_lvl1', 'lib:fflas_lvl2', 'lib:fflas_lvl3', 'lib:ffpack'])
    decl_names = set()
    wr = [f for f in prog.fns if f.file.startswith(INTERNAL) and f.file.endswith('.C') and not f.dep and not f.inst and f.d.get('c')]
    # wrappers not marked extern "C" in the .C but declared in the C headers still count as C linkage via the header
    npaths = nund = 0
    und = []
    for w in wr:
        m = re.match(r'^(.*?)(?:_[123])?(?:_modular)?_(?:double|float|int32_t|int)$', w.q)
        base = m.group(1) if m else w.q
        base = ALIAS.get(base, base)
        modular = '_modular_' in w.q
        elt = elt_of(w.q)
        try:
            paths = Ev(prog, w).run()
        except Undecided as u:
            nund += 1; und.append('%s (%s)' % (w.q, u)); continue
        pnames = [p[0] for p in w.params]
        data = [p for p in pnames if not (modular and p == 'p') and p != 'positive']
        for st, ret in paths:
            npaths += 1
            others = [c for c in st['dec'] if c != ('p', 'positive')]
            calls = [c for c in st['ev']]
            sel = st['dec'].get(('p', 'positive'))
            where = 'positive=%s' % sel
            if not calls:
                if others: nund += 1; und.append(w.q + ' (guarded path)'); continue
                ck.violation('%s|no-call|%s' % (w.q, where), '%s: %s (%s) reaches no library routine' % (w.loc(), w.q, where)); continue
            hits = [c for c in calls if c[0].split('::')[-1] == base]
            if not hits:
                if len(calls) == 1 and (calls[0][0].startswith('FFLAS::') or calls[0][0].startswith('FFPACK::')) and len(calls[0][1]) == len(data) + (1 if modular else 0):
                    ck.violation('%s|callee|%s' % (w.q, where), '%s: %s (%s) forwards to %s' % (w.loc(calls[0][2]), w.q, where, calls[0][0]))
                else:
                    nund += 1; und.append(w.q + ' (no same-named callee: %s)' % ','.join(c[0] for c in calls))
                continue
            idx = max(i for i, c in enumerate(calls) if c in hits)
            c = calls[idx]
            args = list(c[1])
            if modular:
                F = args.pop(0)
                if F[0] != 'obj':
                    nund += 1; und.append(w.q + ' (field value)'); continue
                want = 'Givaro::%s<%s>' % ('Modular' if sel else 'ModularBalanced', elt)
                got = F[1].replace('const ', '')
                if sel is None:
                    ck.violation('%s|flag' % w.q, '%s: %s ignores its `positive` selector' % (w.loc(c[2]), w.q)); continue
                if elt and not (got == want or got.startswith(want[:-1] + ',')):
                    ck.violation('%s|field|%s' % (w.q, where), '%s: %s (%s) computes over %s instead of %s' % (w.loc(c[2]), w.q, where, got, want)); continue
                if not F[2] or F[2][0] != ('p', 'p'):
                    ck.violation('%s|modulus|%s' % (w.q, where), '%s: %s (%s) does not build the field from its modulus' % (w.loc(c[2]), w.q, where)); continue
            got = [strip(a) for a in args]
            # result out-parameter: a local of the wrapper handed over in front of the data arguments and returned
            if len(got) > len(data) and got[0][0] == 'loc' and (ret == ('res', idx) or strip(ret or ('void',)) == got[0]):
                got.pop(0)
                if ret != ('res', idx): ret = ('res', idx)
            if base in SYMMETRIC and len(data) >= 4 and got[:len(data)] != [('p', d) for d in data]:
                i = len(data) - 4
                sw = got[:i] + got[i + 2:i + 4] + got[i:i + 2] + got[i + 4:]
                if sw[:len(data)] == [('p', d) for d in data]: got = sw
            while got and got[-1] == ('darg',): got.pop()
            for i, dname in enumerate(data):
                g = got[i] if i < len(got) else None
                if g == ('p', dname): continue
                if g is None:
                    ck.violation('%s|drop|%s|%s' % (w.q, dname, where), '%s: %s (%s) does not pass its argument `%s` on' % (w.loc(c[2]), w.q, where, dname)); continue
                # only report what is certainly another parameter or constant
                if g[0] in ('p', 'c', 'narrow'):
                    ck.violation('%s|arg|%s|%s' % (w.q, dname, where), '%s: %s (%s) passes %s where its argument `%s` belongs' % (w.loc(c[2]), w.q, where, g[1], dname))
                else:
                    nund += 1; und.append('%s(%s): %r' % (w.q, dname, g))
            if w.ret != 'void':
                if ret is None or ret == ('void',):
                    ck.violation('%s|ret|%s' % (w.q, where), '%s: %s (%s) does not return the result' % (w.loc(), w.q, where))
                elif ret[0] == 'c' or ret[0] == 'p' :
                    lib = prog.by_id.get(c[4])
                    same = False
                    # returning a parameter is the result when the routine returns that operand; else it is a lost result
                    if ret[0] == 'p' and w.ret.endswith('*'): same = True
                    if not same:
                        ck.violation('%s|ret|%s' % (w.q, where), '%s: %s (%s) returns %s instead of the routine\'s result' % (w.loc(), w.q, where, ret[1]))
                elif ret != ('res', idx):
                    nund += 1; und.append(w.q + ' (return %r)' % (ret,))
    # every declaration of the C headers has a definition with the same parameter roles
    for frm, to in sorted(Ev.enumcasts):
        a = dict(prog.enums[frm]['vals']); b = dict(prog.enums[to]['vals'])
        for n, v in a.items():
            if b.get(n) != v:
                ck.violation('enum|%s|%s' % (frm, n), 'enumerator %s is %d in %s (%s) but %s in %s, to which the wrappers convert it' % (n, v, frm, prog.enums[frm]['file'], b.get(n), to))
    ck.cov['enum_conversions'] = len(Ev.enumcasts)
    ck.cov['undecided'] = nund
    ck.cov['undecided_list'] = und[:40]
    ck.require('wrappers', len(wr), 80)
    ck.require('wrapper_paths', npaths, 150)
    ck.samples = [f.q for f in wr[:6]]
    ck.finish(explanation='forward substitution of every C wrapper body on every path (both settings of the field selector, helpers inlined); rule: same-named routine, field Modular/ModularBalanced over the wrapper\'s element type built from the modulus, i-th data argument passed as i-th data argument, result returned')

run(main)
