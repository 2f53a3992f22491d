"""Common machinery: build the dumper, dump translation units of /repo's current tree, load the
resolved program, collect findings, write evidence."""
import os, sys, json, time, subprocess, tempfile, shutil, hashlib, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
TOOL = os.path.join(BUILD, 'ffdump')
BASE_FLAGS = ['-DNDEBUG', '-I' + os.path.join(VERIF, 'config'), '-I' + REPO,
              '-resource-dir=/usr/lib/llvm-18/lib/clang/18', '-w', '-ferror-limit=0']
LIBS = os.path.join(REPO, 'fflas-ffpack/interfaces/libs')

class Broken(Exception):
    pass

def build_tool():
    src = os.path.join(VERIF, 'tool', 'ffdump.cpp')
    os.makedirs(BUILD, exist_ok=True)
    stamp = TOOL + '.sha'
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()
    if os.path.exists(TOOL) and os.path.exists(stamp) and open(stamp).read() == h:
        return
    cxx = subprocess.check_output(['llvm-config-18', '--cxxflags'], text=True).split()
    tmp = TOOL + '.%d' % os.getpid()
    cmd = ['clang++'] + cxx + ['-fno-rtti', '-O1', '-w', src, '-o', tmp,
           '/usr/lib/llvm-18/lib/libclang-cpp.so.18.1', '-L/usr/lib/llvm-18/lib', '-lLLVM-18']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise Broken('cannot build ffdump: ' + r.stderr[-2000:])
    os.rename(tmp, TOOL)
    open(stamp, 'w').write(h)

# name -> (file, flags, required)
OMP = ['-fopenmp']
TUS = {}
def _tu(name, f, flags=(), std='gnu++17', arch='haswell', omp=True):
    fl = ['-std=' + std, '-march=' + arch] + (OMP if omp else []) + list(flags)
    TUS[name] = (f, fl)
for _n in ('fflas_L1_inst', 'fflas_L2_inst', 'fflas_L3_inst', 'fflas_lvl1', 'fflas_lvl2', 'fflas_lvl3', 'ffpack', 'ffpack_inst'):
    _tu('lib:' + _n, os.path.join(LIBS, _n + '.C'))
for _n in ('d_seq', 'd_more', 'd_check', 'd_par', 'd_cuts', 'd_mp', 'd_sparse', 'd_sparse_seq', 'd_misc', 'd_compiled'):
    _tu(_n, os.path.join(VERIF, 'drivers', _n + '.C'))
_tu('d_par:dataflow', os.path.join(VERIF, 'drivers', 'd_par.C'), flags=['-D__FFLASFFPACK_USE_DATAFLOW'])
_tu('d_sparse_seq', os.path.join(VERIF, 'drivers', 'd_sparse.C'), omp=False)
for _s, _a in (('', 'haswell'), (':x86-64', 'x86-64'), (':nehalem', 'nehalem'), (':avx512', 'skylake-avx512'), (':sandybridge', 'sandybridge')):
    _tu('d_lvl1' + _s, os.path.join(VERIF, 'drivers', 'd_lvl1.C'), arch=_a)
_tu('d_simd128', os.path.join(VERIF, 'drivers', 'd_simd.C'), arch='nehalem')
_tu('d_simd256', os.path.join(VERIF, 'drivers', 'd_simd.C'), arch='haswell')
_tu('d_simd512', os.path.join(VERIF, 'drivers', 'd_simd.C'), arch='skylake-avx512')

class Fn(object):
    __slots__ = ('d', 'q', 'id', 't', 'file', 'line', 'end', 'dep', 'inst', 'params', 'ret', 'tu', '_body', 'name')
    def __init__(self, d, tu):
        self.d = d
        self.q = d['q']; self.id = d['i']; self.t = d['t']; self.line = d['line']; self.end = d['end']
        self.file = d['file'][len(REPO) + 1:] if d['file'].startswith(REPO + '/') else d['file']
        self.dep = d['dep']; self.inst = d['inst']; self.params = d['ps']; self.ret = d['ret']; self.tu = tu
        self.name = self.q.split('::')[-1] if '<' not in self.q else self.q.rsplit('::', 1)[-1]
    @property
    def body(self):
        return self.d['body']
    @property
    def cls(self):
        return self.d.get('cls')
    def loc(self, line=None):
        return '%s:%d' % (self.file, line if line else self.line)
    def label(self):
        return self.q + ('<%s>' % self.t if self.t else '')
    def __repr__(self):
        return 'Fn(%s @%s:%d)' % (self.label(), self.file, self.line)

class Program(object):
    def __init__(self):
        self.fns = []
        self.by_id = {}
        self.bodies = {}
        self.by_loc = {}
        self.vars = []
        self.recs = []
        self.eis = []
        self.decls = []
        self.tus = []
        self.enums = {}
    def add(self, path, tu):
        self.tus.append(tu)
        with open(path) as f:
            for l in f:
                d = json.loads(l)
                k = d['k']
                if k == 'fn':
                    if d['i'] in self.by_id:
                        # the same definition preprocessed to the same body is analysed once
                        h = self.bodies[d['i']]; b = hash(l)
                        if b in h: continue
                        h.add(b)
                        fn = Fn(d, tu)
                        self.fns.append(fn)
                        self.by_loc.setdefault((fn.file, fn.line), []).append(fn)
                        continue
                    fn = Fn(d, tu)
                    self.bodies[d['i']] = {hash(l)}
                    self.fns.append(fn)
                    self.by_id[fn.id] = fn
                    self.by_loc.setdefault((fn.file, fn.line), []).append(fn)
                elif k == 'var':
                    d['tu'] = tu; self.vars.append(d)
                elif k == 'rec':
                    d['tu'] = tu; self.recs.append(d)
                elif k == 'enum':
                    self.enums.setdefault(d['type'], d)
                elif k == 'ei':
                    d['tu'] = tu; self.eis.append(d)
                elif k == 'fdecl':
                    d['tu'] = tu; self.decls.append(d)

def dump_one(name, outdir):
    f, fl = TUS[name]
    out = os.path.join(outdir, name.replace(':', '_') + '.jsonl')
    cmd = [TOOL, out, REPO + '/fflas-ffpack', f, '--'] + fl + BASE_FLAGS
    r = subprocess.run(cmd, capture_output=True, text=True, cwd=outdir)
    return name, out, r.returncode, r.stderr

def load(tus, optional=()):
    """dump and load the given translation units from the current tree"""
    build_tool()
    tmp = tempfile.mkdtemp(prefix='ffdump.')
    prog = Program()
    prog.skipped = []
    try:
        with cf.ThreadPoolExecutor(max_workers=8) as ex:
            res = list(ex.map(lambda n: dump_one(n, tmp), list(tus) + list(optional)))
        for name, out, rc, err in res:
            if rc:
                if name in optional:
                    prog.skipped.append(name); continue
                errs = [l for l in err.splitlines() if 'error:' in l][:8]
                if errs and all(l.startswith(VERIF + '/drivers/') for l in errs if ': error:' in l) and os.path.exists(out):
                    # a driver names something the tree no longer offers under that name: what still resolves is analysed
                    prog.skipped.append(name + ' (in part)'); prog.add(out, name); continue
                raise Broken('translation unit %s does not type-check:\n%s' % (name, '\n'.join(errs) or err[-1000:]))
            prog.add(out, name)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return prog

# ---------------------------------------------------------------- reporting
class Check(object):
    def __init__(self, pid, tier=None):
        self.pid = pid
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if tier: self.tier = tier
        self.t0 = time.time()
        self.viol = {}        # key -> text
        self.cov = {}
        self.assumptions = []
        self.samples = []
        self.minimum = []
    def violation(self, key, text):
        """key: stable identification of the instance (rule|function|detail)"""
        self.viol.setdefault(key, text)
    def require(self, what, n, minimum):
        """analysis-broken unless at least `minimum` instances were analysed"""
        self.cov[what] = n
        if n < minimum:
            self.minimum.append('%s: %d < %d' % (what, n, minimum))
    def finish(self, level='other', explanation='', assumptions=()):
        known = {}
        kf = os.path.join(VERIF, 'known_findings.txt')
        if os.path.exists(kf):
            for l in open(kf):
                l = l.strip()
                if l.startswith('known: property=%s ' % self.pid):
                    rest = l[len('known: property=%s ' % self.pid):]
                    key, _, txt = rest.partition(' :: ')
                    known[key.strip()] = txt
        new = {k: v for k, v in self.viol.items() if k not in known}
        for k in sorted(self.viol):
            if k in known:
                print('KNOWN-FINDING: property=%s %s (%s)' % (self.pid, known[k] or k, k))
        cov = dict(self.cov)
        cov['explanation'] = explanation
        if self.samples: cov['samples'] = self.samples[:12]
        ev = {'property': self.pid, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
              'level': level, 'coverage': cov, 'assumptions': list(assumptions) + self.assumptions,
              'wall_s': round(time.time() - self.t0, 2), 'violations': len(new)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w'), indent=1)
        for k, v in sorted(cov.items()):
            if not isinstance(v, (list, dict)) and k != 'explanation':
                print('  %s: %s' % (k, v))
        if new:
            rp = os.path.join(VERIF, 'evidence', 'replay-%s.txt' % self.pid)
            with open(rp, 'w') as f:
                for k in sorted(new):
                    f.write(k + '\n  ' + new[k] + '\n')
            for k in sorted(new):
                print('%s\n    %s' % (k, new[k]))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            sys.exit(1)
        if self.minimum:
            print('ANALYSIS-BROKEN property=%s: %s' % (self.pid, '; '.join(self.minimum)))
            sys.exit(3)
        print('OK property=%s' % self.pid)
        sys.exit(0)

def run(main):
    try:
        main()
    except Broken as e:
        print('ANALYSIS-BROKEN: %s' % e)
        sys.exit(3)

# ---------------------------------------------------------------- tree walking
def walk(n):
    """all list nodes of a dumped tree (pre-order)"""
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, list):
            if x and isinstance(x[0], str):
                yield x
            st.extend(reversed(x))
