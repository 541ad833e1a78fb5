"""P17: optimization, PIC and debug options. Programs of the corpora of P01 to P07, P10 and P16 and programs that address every kind
of object and function are compiled with random combinations of the options and compared with the reference. Equality of every compilation
with the same reference implies that the compilations behave alike."""
from check import *
from corpus import *
import p01, p02, p03, p04, p05, p06, p07, p10, p16
OPTS = ['-fPIC', '-fPIC', '-g', '-fno-live-range-coalescing', '-fspill-furthest-liveness-end', '-fno-dont-spill-short-live-ranges', '-fno-optimize-arithmetic', '-fno-optimize-arithmetic', '-fno-vreg-renumbering']
def combo(r):
    while 1:
        f = sorted({o for o in OPTS if r.random() < r.choice([.2, .5])})
        if f: return tuple(f)
def addr(r, n):
    """objects and functions of every linkage addressed in every way, here and in another file"""
    out = []
    TT = ['char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned', 'long', 'unsigned long', 'float', 'double', 'long double', 'char *']
    for i in range(n):
        t = r.choice(TT); u = r.choice(TT[:10]); k = r.randrange(2, 6); st = r.choice(['static ', '', 'extern '])
        if st == 'extern ' : d = lambda x, st=st: 'extern %s; %s;' % (x, x)
        else: d = lambda x, st=st: st + x + ';'
        fp = t in ('float', 'double', 'long double'); p = t == 'char *'; l = 'local '
        x = r.randrange(18); E = '(int) ' if not p else ''
        if x == 0: f = d('%s s_a{n}' % t) + ' %s t_{n}(void) { return s_a{n}; }' % t
        elif x == 1: f = d('%s s_a{n}[%d]' % (t, k)) + ' void t_{n}(%s v, unsigned char i) { s_a{n}[i %% %d] = v; }' % (t, k)
        elif x == 2: f = d('%s s_a{n}[%d]' % (t, k)) + ' %s t_{n}(unsigned char i) { %s *p = s_a{n}; p += i %% %d; return *p; }' % (t, t, k)
        elif x == 3: f = d('struct { %s a; %s b[%d]; } s_a{n}' % (u, t, k)) + ' void t_{n}(%s v, unsigned char i, %s w) { s_a{n}.b[i %% %d] = v; s_a{n}.a = w; }' % (t, u, k)
        elif x == 4: f = d('%s s_a{n}' % t) + d(' %s s_b{n}' % t) + ' void t_{n}(void) { %s x = s_a{n}; s_a{n} = s_b{n}; s_b{n} = x; }' % t
        elif x == 5 and not p: f = d('%s s_a{n}' % t) + d(' %s s_b{n}' % u) + ' int t_{n}(%s v) { return (s_a{n} < v) + (s_b{n} == v) * 2 + (s_a{n} != s_b{n}) * 4; }' % t
        elif x == 6 and not p and not fp: f = d('%s s_a{n}' % t) + ' %s t_{n}(%s v) { s_a{n} %s= v; s_a{n}++; return s_a{n} %s 3; }' % (t, u if u not in ('float', 'double') else 'int', r.choice('+-&|^'), r.choice(['*', '+', '&']))
        elif x == 7: f = d('%s s_a{n}' % t) + ' %s *f{n}(void) { return &s_a{n}; } %s t_{n}(%s v) { %s x = *f{n}(); *f{n}() = v; return x; }' % (t, t, t, t)
        elif x == 8: f = 'extern %s s_a{n}[]; %s *f{n}(int i) { return i & 1 ? s_a{n} + 1 : &s_a{n}[%d]; } %s s_a{n}[%d]; %s t_{n}(int i) { return *f{n}(i); }' % (t, t, k - 1, t, k, t)
        elif x == 9: f = '%slong f{n}(int a) { return a * 3; } %slong g{n}(int a) { return a - 7; } long t_{n}(int a, int b) { long (*p)(int) = f{n}; if (b & 1) p = g{n}; return p(a); }' % (r.choice(['static ', '']), r.choice(['static ', '']))
        elif x == 10: f = 'static long f{n}(int a) { return a * 5; } long g{n}(int a) { return a ^ 7; } static long (*tab{n}[])(int) = { f{n}, &g{n}, f{n} }; long t_{n}(int a, unsigned char b) { return tab{n}[b % 3](a); }'
        elif x == 11: f = 'int t_{n}(unsigned char b, unsigned char i) { static char *tab[] = { "alpha", "be\\tta", "", "x" }; char *p = tab[b & 3]; int n = 0; while (*p) n = n * 3 + *p++; return n + "0123456789abcdef"[i & 15]; }'
        elif x == 12: f = '%s *f{n}(%s v) { static %s x[%d]; static int i; i = (i + 1) & 1; x[i] = v; return x + i; } %s t_{n}(%s v, %s w) { %s *p = f{n}(v); %s *q = f{n}(w); return p == q ? v : *q; }' % (t, t, t, k, t, t, t, t, t)
        elif x == 13: f = 'int t_{n}(int x) { switch (x) { case 0: return 7; case -1: return 8; case 100000: return 9; case 3: case 4: return x; default: return x > 10 ? 1 : 2; } }'
        elif x == 14: f = d('int s_a{n}[%d][3]' % k) + ' int *q{n} = &s_a{n}[1][2]; static struct { int *a, *b; } z{n} = { s_a{n}[0] + 1, &s_a{n}[1][0] }; int t_{n}(int v) { *q{n} = v; *z{n}.a = v + 1; return *z{n}.b; }'
        elif x == 15: f = 'extern %s s_x{n}; extern void x_{n}(%s); void t_{n}(%s v) { x_{n}(v); s_x{n} = v; }\n//x\n%s s_x{n}; %s h{n}; void x_{n}(%s v) { h{n} = v; }' % ((t,) * 6)
        elif x == 16: f = 'extern %s x_{n}[%d]; extern %s *y_{n}(int); %s t_{n}(%s v, int i) { x_{n}[%d] = v; return *y_{n}(i); }\n//x\n%s x_{n}[%d]; %s *y_{n}(int i) { return x_{n} + (i & 1); }' % (t, k, t, t, t, k - 2, t, k, t)
        else: f = 'extern long x_{n}(long, double, char *, ...); long t_{n}(long a, double b, char c) { long (*p)(long, double, char *, ...) = x_{n}; char z = c; return p(a, b, &z, c, b) + x_{n}(a + 1, b, &z); }\n//x\nlong x_{n}(long a, double b, char *p, ...) { return a ^ (b > 1) ^ *p; }'
        out.append((f + '\n//x\n').split('\n//x\n')[:2])
    return out
def main(tier):
    c = Check('P17', 'options do not change behaviour', 'translation_validation', tier); r = c.rnd; q = c.quick
    def take(l, n): return r.sample(l, min(n, len(l)))
    fl = lambda k: combo(r)
    for nm, fs, n, per in (('int', p01.corpus(r, q), 500, 20), ('conv', p02.corpus(r, q), 300, 20), ('fp', p03.corpus(r, q), 250, 16), ('flow', p04.fixed(), 40, 10), ('gen', [p04.prog(r, i % 4 == 0, 6) for i in range(c.pick(80, 800))], 800, 4), ('ptr', p05.corpus(r, q), 400, 16), ('st', p06.corpus(r, q), 200, 12), ('dir', p07.corpus(r, q), 200, 12)):
        c.add_fns(nm, take(fs, n if q else 10 * n), per=per, flags=fl)
    a = addr(r, c.pick(360, 2500)); per = 12
    for k in range(0, len(a), per):
        w = b = x = ''
        for j, (m, o) in enumerate(a[k:k + per]): w += m.replace('{n}', str(j)) + '\n'; x += o.replace('{n}', str(j)) + '\n'
        c.add(Unit('adr%d' % (k // per), w, refsrc=w + x, asmsrc=[x], flags=(('-fPIC',) if k % 24 else ()) + combo(r), opts={'partial': 1}))
    X = 'extern void clob(void);\n'; ps = [p16.prog(r, r.choice([5, 9, 12, 16]), r.choice([2, 4, 6, 8]), r.choice([6, 10, 16]), r.random() < .25, r.random() < .6) for i in range(c.pick(40, 1000))]
    for k in range(0, len(ps), 4):
        t = ''.join(f.replace('{n}', str(k + j)) + '\n' for j, f in enumerate(ps[k:k + 4]))
        c.add(Unit('reg%d' % k, X + t, refsrc='static void clob(void) { }\n' + t.replace('extern void clob(void);', ''), asmsrc=['void clob(void) { %s }' % p16.CLOB], flags=combo(r), opts={'max_paths': c.pick(60, 500), 'rlimit': c.pick(2000000, 10000000)}))
    c.run_units(deadline=c.pick(300, 3000)); c.validate_samples(c.pick(4, 20))
    return c.finish()
