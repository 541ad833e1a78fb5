"""Shared machinery of the checks: builds from /repo's working tree, engine runs, replay, evidence."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time, glob
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
ENGINE = os.path.join(BUILD, 'engine', 'symx')
NPROC = int(os.environ.get('VF_J', str(os.cpu_count() or 8)))
SEED = int(os.environ.get('VERIF_SEED', '1'))
def tool(n):
    for c in (n + '-18', n):
        p = shutil.which(c)
        if p: return p
    return '/usr/lib/llvm-18/bin/' + n
CLANG, LINK = tool('clang'), tool('llvm-link')
BCFLAGS = '-O1 -fcommon -fwrapv -fno-strict-aliasing -fno-builtin -fno-vectorize -fno-slp-vectorize -g0 -w -emit-llvm'.split()
REFFLAGS = '-std=gnu89 -O0 -fwrapv -fno-strict-aliasing -ffp-contract=off -w -Xclang -disable-O0-optnone -fno-builtin -fno-common -emit-llvm'.split()

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)

def must(cmd, **kw):
    r = run(cmd, **kw)
    if r.returncode: raise SystemExit('command failed: %s\n%s' % (' '.join(cmd), r.stdout.decode(errors='replace')[-3000:]))
    return r.stdout

def parallel(cmds, cwd=None, n=NPROC):
    ps, todo, bad = [], list(cmds), None
    while todo or ps:
        while todo and len(ps) < n:
            c = todo.pop(0); ps.append((c, subprocess.Popen(c, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        c, p = ps.pop(0); out = p.communicate()[0]
        if p.returncode: bad = (c, out)
    if bad: raise SystemExit('command failed: %s\n%s' % (' '.join(bad[0]), bad[1].decode(errors='replace')[-3000:]))

def build_engine():
    must(['make', '-j%d' % NPROC, '-C', os.path.join(VERIF, 'engine')])

class Tree:
    """The code under test, built from the current sources of /repo."""
    def __init__(self):
        srcs = sorted(glob.glob(REPO + '/*.c') + glob.glob(REPO + '/*.h') + glob.glob(REPO + '/include/*') + [REPO + '/Makefile'])
        gen = {'instrrules-generated.c', 'internals.c'}
        srcs = [s for s in srcs if os.path.basename(s) not in gen and os.path.isfile(s)]
        h = hashlib.sha256()
        for s in srcs: h.update(os.path.basename(s).encode()); h.update(open(s, 'rb').read())
        for s in (VERIF + '/engine/libc.c', __file__): h.update(open(s, 'rb').read())
        self.key = h.hexdigest()[:16]; self.dir = os.path.join(BUILD, 'tree-' + self.key)
        self.src = self.dir + '/src'; self.bc = self.dir + '/bc'; self.wcc = self.src + '/wcc'
        if not os.path.exists(self.dir + '/ok'):
            for old in glob.glob(BUILD + '/tree-*'): shutil.rmtree(old, ignore_errors=True)
            os.makedirs(self.src); os.makedirs(self.bc); os.makedirs(self.src + '/include')
            for s in srcs: shutil.copy(s, self.src + ('/include' if '/include/' in s else ''))
            self.build(); open(self.dir + '/ok', 'w').close()
    def mk(self, var):
        t = open(self.src + '/Makefile').read().replace('\\\n', ' ')
        m = re.search(r'^%s\s*=\s*(.*)$' % var, t, re.M); return m.group(1).split()
    def build(self):
        bd = '-DBUILD_DIR="%s"' % self.src
        must(['gcc', 'make-internals.c', '-o', 'make-internals'], cwd=self.src)
        open(self.src + '/internals.c', 'wb').write(must(['./make-internals'], cwd=self.src))
        t = open(self.src + '/Makefile').read()
        m = re.search(r'^instrgen:.*\n\t.*?-o instrgen(.*)$', t, re.M); ig = [x for x in m.group(1).split() if x.endswith('.c')]
        self.sources = self.mk('SOURCES')
        os.makedirs(self.src + '/o')
        cc = ['gcc', '-fcommon', '-w', '-g', bd]
        parallel([cc + ['-c', f, '-o', 'o/%s.o' % f[:-2]] for f in sorted(set(ig + [s for s in self.sources if s != 'instrrules-generated.c'] + ['main.c']))], cwd=self.src)
        must(['gcc', '-o', 'instrgen'] + ['o/%s.o' % f[:-2] for f in ig], cwd=self.src)
        open(self.src + '/instrrules-generated.c', 'wb').write(must(['./instrgen'], cwd=self.src))
        parallel([cc + ['-c', 'instrrules-generated.c', '-o', 'o/instrrules-generated.o']] + [[CLANG] + BCFLAGS + [bd, '-c', f, '-o', '%s/%s.bc' % (self.bc, f[:-2])] for f in self.sources + ['main.c']] + [[CLANG] + BCFLAGS + ['-c', VERIF + '/engine/libc.c', '-o', self.bc + '/libc.bc']], cwd=self.src)
        must(['gcc', '-o', 'wcc'] + ['o/%s.o' % f[:-2] for f in self.sources + ['main.c']], cwd=self.src)
        must([LINK, '-o', self.bc + '/wcc.all'] + ['%s/%s.bc' % (self.bc, f[:-2]) for f in self.sources + ['main.c', 'libc.c']])
    @property
    def main_bc(self): return self.bc + '/wcc.all'
    def harness(self, name, src, extra=(), main=True):
        """wcc's bitcode linked with a harness; without main.c if the harness includes it"""
        out = '%s/h_%s.bc' % (self.bc, name)
        must([CLANG] + BCFLAGS + ['-I', self.src, '-I', VERIF + '/engine', '-c', src, '-o', out + '.o'] + list(extra))
        must([LINK, '-o', out, out + '.o'] + ([self.main_bc] if main else ['%s/%s.bc' % (self.bc, f[:-2]) for f in self.mk('SOURCES') + ['libc.c']])); return out
    def harness_native(self, name, src, extra=()):
        out = '%s/h_%s' % (self.src, name)
        mods = ['o/%s.o' % f[:-2] for f in self.mk('SOURCES')]
        must(['gcc', '-fcommon', '-w', '-g', '-rdynamic', '-I', self.src, '-I', VERIF + '/engine', '-o', out, src, VERIF + '/engine/sx_native.c'] + mods + list(extra) + ['-ldl'], cwd=self.src); return out
    def sanitized(self):
        out = self.src + '/wcc.asan'
        if not os.path.exists(out):
            must(['gcc', '-fcommon', '-w', '-g', '-O1', '-fno-omit-frame-pointer', '-fsanitize=address', '-DBUILD_DIR="%s"' % self.src, '-o', out] + self.mk('SOURCES') + ['main.c'], cwd=self.src)
        return out

class Job:
    def __init__(self, name, **kw):
        self.name = name; self.lines = []; self.meta = {}; self.__dict__.update(kw)
    def text(self): return 'job %s\n%s\nend\n' % (self.name, '\n'.join(self.lines))

class Work:
    """A scratch directory of one check run."""
    def __init__(self, pid):
        self.dir = os.path.join(BUILD, 'run-' + pid); shutil.rmtree(self.dir, ignore_errors=True); os.makedirs(self.dir)
    def path(self, n): return os.path.join(self.dir, n)
    def write(self, n, s):
        p = self.path(n); os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb' if isinstance(s, bytes) else 'w') as f: f.write(s)
        return p

def compile_refs(work, srcs):
    """clang reference bitcode for each C file (in parallel); returns the files that clang rejects"""
    bad = {}; todo = list(srcs); ps = []
    while todo or ps:
        while todo and len(ps) < NPROC:
            s = todo.pop(0); ps.append((s, subprocess.Popen([CLANG] + REFFLAGS + ['-c', s, '-o', s[:-2] + '.bc'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        s, p = ps.pop(0); out = p.communicate()[0]
        if p.returncode: bad[s] = out.decode(errors='replace')
    return bad

def engine(work, bc, jobs, tag='j', opts=None, deadline=None, nproc=None):
    jf = work.write(tag + '.jobs', ''.join(j.text() for j in jobs)); of = work.path(tag + '.jsonl')
    cmd = [ENGINE, '-m', bc, '-o', of, '-j', str(nproc or NPROC)]
    for k, v in (opts or {}).items(): cmd += ['-O', '%s=%s' % (k, v)]
    if deadline: cmd += ['-t', str(deadline)]
    r = subprocess.run(cmd + [jf], stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=work.dir)
    err = r.stderr.decode(errors='replace')
    if r.returncode: raise SystemExit('engine failed (%d): %s' % (r.returncode, err[-2000:]))
    res = []
    for l in open(of, errors='replace'):
        try: res.append(json.loads(l))
        except ValueError: res.append({'type': 'garbled', 'text': l[:200]})
    return res, err
