"""Feasibility filter: a concrete assignment of the symbolic sizes that satisfies the collected path
facts.  A difference found by the abstract interpreter is reported only together with such an
assignment for which the differing block is not empty; a path without one is never reported."""
import random
from alg import *

def ev(p, env):
    s = 0
    for m, c in p.d.items():
        t = c
        for a, e in m:
            v = evat(a, env)
            if e < 0:
                if v == 0: raise ZeroDivisionError
                t = Fraction(t) / (v ** -e)
            else: t *= v ** e
        s += t
    return s
def evat(a, env):
    if a in env: return env[a]
    at = atom_of(a)
    if isinstance(at, tuple):
        k = at[0]
        if k == 'fdiv':
            c = ev(at[2], env); v = ev(at[1], env) // c
        elif k == 'mod': v = ev(at[1], env) % ev(at[2], env)
        elif k == 'max': v = max(ev(at[1], env), ev(at[2], env))
        elif k == 'min': v = min(ev(at[1], env), ev(at[2], env))
        else: raise KeyError(a)
        return v
    raise KeyError(a)
def base_atoms(ps):
    out = set(); todo = [a for p in ps for a in p.atoms()]
    while todo:
        a = todo.pop()
        at = atom_of(a)
        if isinstance(at, tuple) and at[0] in ('fdiv', 'mod', 'max', 'min'):
            for x in at[1:]: todo.extend(P(x).atoms())
        else: out.add(a)
    return out
VALS = [0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 6, 7, 8, 9, 11, 12, 16, 17, 33, 64, 100, 1000]
def witness(ge, neq=(), pos=(), tries=400):
    cons = list(ge) + [p - 1 for p in pos]
    neq = list(neq)
    at = sorted(base_atoms(cons + neq))
    rng = random.Random(7)
    def draw(a):
        v = rng.choice(VALS)
        x = atom_of(a)
        if is_signed(x) and rng.random() < 0.2: v = -v
        return v
    for t in range(tries):
        env = {a: draw(a) for a in at}
        for step in range(60):
            bad = []
            for p in cons:
                try:
                    if ev(p, env) < 0: bad.append(p)
                except (ZeroDivisionError, KeyError): bad.append(p)
            for p in neq:
                try:
                    if ev(p, env) == 0: bad.append(p)
                except (ZeroDivisionError, KeyError): bad.append(p)
            if not bad: return {atom_of(a): v for a, v in env.items()}
            p = rng.choice(bad)
            b = sorted(base_atoms([p]))
            if not b: return None
            a = rng.choice(b)
            r = rng.random()
            if r < 0.3: env[a] = draw(a)
            else:
                try: g = ev(p, env)
                except Exception: g = -1
                d = max(1, abs(int(g)))
                v = env[a] + rng.choice([1, -1, d, -d, d])
                if v < 0 and not is_signed(atom_of(a)): v = 0
                env[a] = v
    return None
def wstr_(w):
    return ', '.join('%s=%d' % (astr(a), v) for a, v in sorted(w.items(), key=lambda x: repr(x[0])) if isinstance(a, str))[:160]
