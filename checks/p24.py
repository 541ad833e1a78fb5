"""P24: the output for a file depends only on its text and the options. wcc compiles (or preprocesses) b, then another file a, then b again in
one run, in the symbolic executor: every byte of fresh memory is symbolic, the second compilation of b finds whatever state the first two
left, and names and numbers in both files are symbolic bytes. On every path the solver decides that the two outputs for b are equal."""
from check import *
from corpus import *
import p01, p02, p03, p04, p05, p06, p07, p08, p10, p16
N = '\x01X%d:a-d\x02'; D = '\x01Y%d:0-9\x02'
# what a file can leave behind: %n stands for a symbolic name of one letter, %d for a symbolic digit
A = ['#define %n 3', '#define %n(x) x + 1', '#define %n', '#define %n int %n', '#define %n %n\n#undef %n', '#undef %n', 'typedef char %n; %n v;', 'struct %n { char q[1%d]; double z; }; struct %n v;', 'enum %n { e%n = %d, f };', 'enum { %n = %d };', 'union %n { int a; char b[%d3 + 1]; } v;',
 'static int %n = %d; int *v = &%n;', 'extern int %n; int f(void) { return %n; }', 'int %n(int x) { return x + %d; }', 'static int %n(int x) { return x * %d; } int v(int x) { return %n(x) + %n(%d); }', 'int v(void) { static int %n = %d; return %n++; }',
 'int v(int x) { if (x) goto %n; x = %d; %n: return x; }', 'char *v = "%n%d";', 'char *v(int i) { return i ? "%n" : "%d"; }', 'double v(double x) { return x * %d.5; }', 'float v(float x, double y) { return x * %d.5f + y + 1.25; }', 'long double v(long double x) { return x * %d.5L; }',
 'unsigned long v(float x) { return x; }', 'unsigned long v(long double x) { return x; } long double w(unsigned long x) { return x; }', 'int v(int x) { switch (x) { case %d: return 2; default: return 3; } }', 'int v(int x) { switch (x) { case %d: return 2; } while (x > %d) { if (x == 20) break; x--; } return x; }',
 '#line %d0 "x.c"\nint v;', '#line %d7\nint v;', '#if %d\nint v;\n#else\nint w;\n#endif', '#ifdef %n\nint v;\n#elif %d\nint w;\n#endif', '#pragma pack(%d)\nint v;', 'int v(int a, ...) { return a + %d; }',
 'int v(int a, int b, int c, int d, int e, int f, int g, int h) { return a * b + c * d + e * f + g * h + (a ^ b ^ c ^ d ^ e ^ f ^ g ^ h) * %d; }', 'struct { int a:1%d; unsigned b:3; } v; int w(void) { return v.a + v.b; }', 'void v(void) { { int %n; { char %n; { long %n; %n = %d; } %n = 1; } %n = 2; } }',
 'int v(int %n) { int x; { typedef int %n; %n y = %d; x = y; } return x + %n; }', 'int v = sizeof(struct { int %n; }) + %d;', 'struct q; struct q *v(struct q *%n) { return %n; }', 'int v[1%d]; int w(int i) { return v[i] + sizeof v; }', 'int v; /* %n%d */', 'int v; // %n%d', 'int v\\\n; ', '#define F(%n, y) %n ## y\nint F(v, %d);', '#define F(x) #x\nchar *v = F(%n %d);', '#define F(x, y) x y',
 'int v(void) { int x[] = { 1, 2, %d }; struct { int %n; } y = { 4 }; return x[1] + y.%n; }', 'int v(int x) { return x ? %d : x && (x > 3 || x < -%d); }', 'double v(int n, double a, float b, long double c) { long double d = a + b * c; return d / n; }', 'void (*v)(int, char *%n); int w(int (*%n)(int), int y) { return %n(y) + %d; }', '  \n\n', 'const int v = %d; int w(volatile int *p) { return *p + v; }', 'long v(long x) { return x * %d + x / %d1 + x %% 7 + (x << %d); }',
 'extern void k(int, ...); void v(double x) { k(1, x, %d); }', 'struct s { long a, b, c; }; struct s v(struct s x) { x.b = %d; return x; }', 'struct s { double a, b; }; extern struct s k(struct s); struct s v(struct s x) { return k(x); }', 'int v = __LINE__; char *w = __FILE__;', '#define %n __LINE__\n', 'int %n; int *v = &%n; int (*w)(void);', 'wchar_t_ignored_%n();' if 0 else 'int v = L\'%n\';', 'int v = 07%d7 + 0x%d + %dL;' if 0 else 'int v = 0x%d + %dL;']
# files whose compilation could depend on what was left behind; all of the names a, b, c, d are used as names of some kind
B = ['int a, *b = &a; static int c = %d; int d(int x) { return x + a + c + *b; }', '#ifdef a\nint t = 1;\n#else\nint t = 2;\n#endif\n#ifdef b\nint u = 1;\n#endif\n#if c == 0\nint v = 3;\n#endif\nint d = %d;', 'typedef short a; struct b { a x; char y[2]; }; union c { int d; } z; enum d { e = %d, f }; a g(struct b *p, enum d q) { return p->x + q; }',
 'struct a { int x; }; struct a b; int c(struct a *p) { int a = %d; return p->x + a; } char *d = "d" "x";', 'struct a; struct a *b(struct a *c) { return c; } int d = sizeof(struct a *);', 'int a(int b) { int c = b; static int d = %d; goto a; a: return c + d++; } static int q(int a) { static int d; return d += a; } int (*r)(int) = q;',
 '#define E(x) #x\nchar *s = E(a b); char *t = E(c) "d"; int u = __LINE__; char *v = __FILE__;', 'int a(int x) { switch (x) { case 1: return 2; case %d0: x++; } return x; } int b(int x) { int i; for (i = 0; i < x; i++) if (i == %d) break; return i; } double c = 1.5; float d(float x) { return x * %d.25f; }',
 'unsigned long a(float x) { return x; } unsigned long b(double x) { return x; } unsigned long c(long double x) { return x; } long double d(unsigned long x) { return x + %d.5L; }', 'double a(double x, float y, long double z) { return x * 2.5 + y * 1.5f + z * 3.5L + %d; }', '#define x(a) a + 1\nint b = x(%d); int c(int d) { return x(d); }',
 'int a(char *b, ...); int c(int d) { return a("%%d %%s\\n", d, "x", 1.5) + a("y", %d); }', 'long a(long b) { long c[3]; c[0] = b * %d; c[1] = b / 7; c[2] = b << %d; return c[b & 1] + c[2]; }', 'struct { int a:3; unsigned b:7; long c; } d; int t(int x) { d.a = x; d.b += %d; return d.a + d.b; }',
 'int a(int b, int c, int d, int e, int f, int g, int h) { int i = b * c, j = d * e, k = f * g, l = h * b, m = c * d, n = e * f, o = g * h; return (i ^ j ^ k ^ l ^ m ^ n ^ o) + i * j + k * l + m * n * o + %d; }', 'struct s { long x[4]; }; extern struct s a(struct s); struct s b(struct s c) { struct s d = a(c); d.x[1] = %d; return a(d); }',
 'int a[] = { 1, %d, 3 }, b[2][2] = { 1, 2, 3 }; char c[] = "abc", *d[] = { "x", "y", c }; struct { char q; double r; int *s; } e = { 1, 2.5, a + 1 };', 'int a(void) { int x[4] = { 1, 2 }; char b[] = "hello"; struct { int c, d; } y = { 3, %d }; return x[1] + b[2] + y.d; }', 'extern int a; int a; static int b; int c(void) { extern int d; return a + b + d + %d; } int d = 2;',
 '#include "h.h"\nint a = H; h b; int c(h d) { return d + %d; }']
def build(name, t, cnt):
    """expands the markers; returns (text, syms)"""
    out = ''; syms = []; i = 0
    while i < len(t):
        if t[i] != '\x01': out += t[i]; i += 1; continue
        j = t.index('\x02', i); v, rng = t[i + 1:j].split(':'); a, b = rng.split('-'); syms.append((name, len(out), v, '%d-%d' % (ord(a), ord(b)))); out += a; i = j + 1
    return out, syms
def sub(r, t, nn, nd, k):
    """%n and %d: a symbolic name or digit for the first nn and nd different occurrences, otherwise a fixed one"""
    n = [0]; d = [0]
    def f(m):
        n[0] += 1; c = m.group(1)
        if c == '%': return '%'
        if c == 'n': return N % k if nn else 'abcd'[(k + 1) % 4]
        if nd and not d[0]: d[0] = 1; return D % k
        return str((k + n[0]) % 9 + 1)
    t = re.sub('%([nd%])', f, t)
    return t
def main(tier):
    c = Check('P24', 'deterministic, independent compilation', 'bounded', tier); r = c.rnd; q = c.quick
    def unit(name, a, b, sa=(), sb=(), flags=(), pre=False, opts=None, files=None, mid=None):
        fl = list(flags); argv = (['-E'] if pre else ['-S']) + fl; out = '<stdout>' if pre else 'b.s'; mid = [] if pre else mid
        u = Unit(name, b, argv=argv + ['b.c'] + (['a.c'] if mid is None else mid) + ['b.c'], syms=list(sb) + list(sa), ref=False, files=dict({'a.c': a}, **(files or {})), main='b.c', out=out, opts=dict({'same': out}, **(opts or {})))
        u.alone = argv + ['b.c']; c.add(u)
    FL = [(), (), ('-g',), ('-fPIC',), ('-fPIC', '-g'), ('-fno-optimize-arithmetic',), ('-fno-vreg-renumbering',), ('-Da=5', '-Dzz'), ('-Db=(x)', '-g')]
    # symbolic names and digits
    k = 0; pairs = []
    for i, a in enumerate(A):
        bs = range(len(B)) if not q else r.sample(range(len(B)), 3)
        for j in bs: pairs.append((a, B[j]))
    for a, b in pairs:
        k += 1; z = r.randrange(2); fl = r.choice(FL); pre = r.random() < .12
        if '-Da=5' in fl or '-Db=(x)' in fl: fl = ('-Dzz=1',) + fl[1:] if '-g' not in fl else ('-g', '-DM(x)=x')
        ta, sa = build('a.c', sub(r, a, 1, 1 - z, 1), 0); tb, sb = build('b.c', sub(r, b, 0, z, 2), 0)
        if pre: tb, sb = build('b.c', sub(r, a, 1, 1, 1) + '\n' + sub(r, b, 0, 0, 2), 0)
        unit('leak%d' % k, ta + r.choice(['\n', '\n', '']), tb + '\n', sa, sb, fl, pre, {'exit_ok': 0, 'max_paths': c.pick(60, 1000)}, {'h.h': 'typedef long h;\n#define H 7\n#define a a\n'})
    # programs of the other corpora, each after another
    def take(l, n): return r.sample(l, min(n, len(l)))
    pool = []
    for fs, n, per in ((p01.corpus(r, q), 120, 12), (p02.corpus(r, q), 100, 12), (p03.corpus(r, q), 120, 12), (p04.fixed(), 30, 6), ([p04.prog(r, i % 4 == 0, 6) for i in range(c.pick(24, 200))], 200, 4), (p05.corpus(r, q), 100, 12), (p06.corpus(r, q), 80, 10), (p07.corpus(r, q), 60, 6)):
        fs = take([f if isinstance(f, str) else f[0] for f in fs], n if q else 8 * n)
        for i in range(0, len(fs), per): pool.append(''.join(re.sub(r'\bs_p\b', 's_p{n}', f.split('\n//x\n')[0]).replace('{n}', str(j)) + '\n' for j, f in enumerate(fs[i:i + per])))
    for i in range(c.pick(8, 80)): pool.append(p16.prog(r, r.choice([5, 9, 14]), r.choice([2, 6]), r.choice([6, 12]), r.random() < .3, False).replace('{n}', str(i)))
    r.shuffle(pool); k = 0
    for i, b in enumerate(pool):
        k += 1; unit('prog%d' % k, pool[(i * 7 + 3) % len(pool)], b, flags=r.choice(FL[:7]), opts={'max_paths': 20}, mid=r.choice([['a.c'], ['a.c'], ['a.c', 'b.c', 'a.c'], []]))
    c.run_units(deadline=c.pick(300, 3000))
    c.extra['bytes_compared'] = c.cnt['e_same_bytes']
    for u in c.units:
        c.cnt['witnesses'] += 1
        if (u.name, 'same') in c.covered: c.cnt['witnesses_reached'] += 1
        else: c.undec.append({'unit': u.name, 'why': 'no output was compared'})
    return c.finish()
