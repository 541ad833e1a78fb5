"""P08: variadic functions receive their arguments."""
from check import *
from corpus import *
import importlib
p07 = importlib.import_module('p07')
PASS = ['char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned', 'long', 'unsigned long', 'float', 'double', 'char *', 'long double', 'enum E{n}']
GET = {'char': 'int', 'unsigned char': 'int', 'short': 'int', 'unsigned short': 'int', 'float': 'double', 'enum E{n}': 'int'}
REFHDR = 'typedef __builtin_va_list va_list;\n#define va_start __builtin_va_start\n#define va_arg __builtin_va_arg\n#define va_copy __builtin_va_copy\n#define va_end __builtin_va_end\n'
def prog(r, n, fixed=None, var=None, how=None):
    decl = ['enum E%d { EA%d = -1, EB%d = 70000 };' % (n, n, n)]
    def ty(s):
        if s in ('I',): t = r.choice(PASS[:8] + ['char *', 'enum E{n}'])
        elif s == 'F': t = r.choice(['float', 'double'])
        elif s == 'L': t = 'long double'
        elif s[0] == '=': t = s[1:]
        else:
            nm = 'S%d_%d' % (n, len(decl)); d = p07.struct(r, nm, None if s == 'S' else s); decl.append(d); t = d.split()[0] + ' ' + nm
        return t.replace('{n}', str(n))
    if fixed is None: fixed = [r.choice('IIFFSL') for _ in range(r.choice([1, 1, 1, 2, 3, 5, 7]))]
    if var is None: var = [r.choice(r.choice(['I', 'F', 'IF', 'IIFFSL', 'IIFFS'])) for _ in range(r.choice([0, 1, 2, 3, 5, 8, 12, 18]))]
    fx = [ty(s) for s in fixed]
    # the last named parameter must not be of a type that changes by promotion
    if fx[-1] in ('char', 'short', 'float', 'unsigned char', 'unsigned short'): fx[-1] = r.choice(['int', 'double', 'long'])
    vs = [ty(s) for s in var]; get = [GET.get(v.replace('E%d' % n, 'E{n}'), v) for v in vs]
    glob = []
    for i, t in enumerate(fx): glob += ['%s s_a%d_%d;' % (t, n, i), '%s s_g%d_%d;' % (t, n, i), '%s s_h%d_%d;' % (t, n, i)]
    for i, (t, g) in enumerate(zip(vs, get)): glob += ['%s s_b%d_%d;' % (t, n, i), '%s s_v%d_%d;' % (g, n, i), '%s s_u%d_%d;' % (g, n, i)]
    def fdecl(p): return 'long %s%d(%s, ...)' % (p, n, ', '.join('%s p%d' % (t, i) for i, t in enumerate(fx)))
    how = how or r.choice(['plain', 'plain', 'plain', 'pass', 'copy', 'twice', 'local'])
    def callee(p, g, v):
        st = ' '.join('s_%s%d_%d = p%d;' % (g, n, i, i) for i in range(len(fx))); last = 'p%d' % (len(fx) - 1)
        gets = ['s_%s%d_%d = va_arg(ap, %s);' % (v, n, i, g2) for i, g2 in enumerate(get)]; k = len(gets) // 2
        if how == 'plain': b = 'va_list ap; va_start(ap, %s); %s %s va_end(ap);' % (last, st, ' '.join(gets))
        elif how == 'pass': return 'static void %sx%d(va_list ap) { %s }\n' % (p, n, ' '.join(gets[k:])) + fdecl(p) + ' { va_list ap; va_start(ap, %s); %s %s %sx%d(ap); va_end(ap); return 7; }' % (last, st, ' '.join(gets[:k]), p, n)
        elif how == 'copy': b = 'va_list ap, aq; va_start(aq, %s); %s %s va_copy(ap, aq); %s va_end(ap); va_end(aq);' % (last, st, ' '.join(x.replace('ap', 'aq') for x in gets[:k]), ' '.join(gets[k:]))
        elif how == 'twice': b = 'va_list ap; va_start(ap, %s); %s va_end(ap); va_start(ap, %s); %s %s va_end(ap);' % (last, ' '.join(gets[:k]), last, st, ' '.join(gets))
        else: b = 'va_list ap; long x = 5, y; %s va_start(ap, %s); y = x * 3; %s va_end(ap); return x + y;' % (st, last, ' '.join(gets))
        return fdecl(p) + ' { %s return 7; }' % b
    args = ', '.join(['s_a%d_%d' % (n, i) for i in range(len(fx))] + ['s_b%d_%d' % (n, i) for i in range(len(vs))])
    def caller(t, p): return 'long %s%d(long k, double d) { long l = k * 3; l += %s%d(%s); return l + k + (d > 0); }' % (t, n, p, n, args)
    w = '\n'.join(decl + glob + [fdecl('c') + ';', callee('w', 'g', 'v'), caller('t_w', 'c')]); c = '\n'.join(decl + ['extern ' + g for g in glob] + [fdecl('w') + ';', callee('c', 'h', 'u'), caller('t_c', 'w')])
    both = '\n'.join(decl + glob + [fdecl('c') + ';', callee('w', 'g', 'v'), caller('t_w', 'c'), callee('c', 'h', 'u'), caller('t_c', 'w')])
    return w, c, both
EXTRA = [
 'long f{n}(int n, ...) { va_list ap; long s = 0; va_start(ap, n); while (n-- > 0) s = (s << 3) ^ va_arg(ap, long); va_end(ap); return s; } long t_{n}(long a, long b, long c, int k) { return f{n}(k > 8 ? 8 : k, a, b, c, a + 1, b + 1, c + 1, a + 2, b + 2); }',
 'double f{n}(int n, ...) { va_list ap; double s = 0; int i; va_start(ap, n); for (i = 0; i < 10; i++) { double d = va_arg(ap, double); if (i == n) s = d; } va_end(ap); return s; } double t_{n}(int n, double a, double b) { return f{n}(n, a, b, 1.5, a, b, 2.5, a, b, b, a); }',
 'long f{n}(int n, ...) { va_list ap; long s = 0; int i; va_start(ap, n); for (i = 0; i < 5; i++) { if (n >> i & 1) s += va_arg(ap, int); else s -= (long) va_arg(ap, double); } return s; } long t_{n}(int a, int b) { return f{n}(5, a, 2.0, b, 3.0, -7.0); }',
 'static long v{n}(char *f, va_list ap) { long s = 0; for (; *f; f++) { if (*f == 100) s = (s << 1) ^ va_arg(ap, int); else if (*f == 108) s = (s << 1) ^ va_arg(ap, long); else if (*f == 117) s = (s << 1) ^ va_arg(ap, unsigned); else s ^= *va_arg(ap, char *); } return s; } long p{n}(char *f, ...) { va_list ap; long r; va_start(ap, f); r = v{n}(f, ap); va_end(ap); return r; } long t_{n}(int a, long b, unsigned c, char d) { return p{n}("dlusdlusdl", a, b, c, &d, a + 1, b, c + 2, &d, -a, -b); }',
 'static int n{n}(int k, va_list *p) { return k ? va_arg(*p, int) : 0; } int f{n}(int k, ...) { va_list ap; int a, b; va_start(ap, k); a = va_arg(ap, int); b = va_arg(ap, int); va_end(ap); return a * 10 + b; } int t_{n}(int a, int b) { return f{n}(1, a, b); }',
 'int f{n}(char a, ...) { return a; } int t_{n}(int x) { return f{n}(x, 1.5, 2, 3L) + f{n}(x + 1) + f{n}(x + 2, x, x, x, x, x, x, x, 1.0, 2.0); }',
 'long f{n}(int a, ...) { va_list ap; long r; va_start(ap, a); r = va_arg(ap, unsigned char *)[a & 1]; va_end(ap); return r; } long t_{n}(int a, char b, char c) { char s[2]; s[0] = b; s[1] = c; return f{n}(a, s); }',
 'long f{n}(int a, ...) { va_list ap; long (*g)(long); va_start(ap, a); g = va_arg(ap, long (*)(long)); va_end(ap); return g(a); } long h{n}(long x) { return x * 7; } long t_{n}(int a) { return f{n}(a, h{n}); }',
 'struct P{n} { int x, y; }; long f{n}(int a, ...) { va_list ap; struct P{n} p; va_start(ap, a); p = va_arg(ap, struct P{n}); a += va_arg(ap, struct P{n}).y; va_end(ap); return p.x * 5 + p.y + a; } long t_{n}(struct P{n} p, struct P{n} q, int a) { return f{n}(a, p, q); }',
 'long f{n}(long a, long b, long c, long d, long e, long f, long g, ...) { va_list ap; long r; va_start(ap, g); r = va_arg(ap, long) * 2; r += va_arg(ap, long); va_end(ap); return r + g; } long t_{n}(long a, long b) { return f{n}(1, 2, 3, 4, 5, 6, a, b, 9L) + f{n}(1, 2, 3, 4, 5, b, b, a, a); }',
 'double f{n}(double a, double b, double c, double d, double e, double f, double g, double h, double i, ...) { va_list ap; double r; va_start(ap, i); r = va_arg(ap, double); va_end(ap); return r > i ? r : i; } double t_{n}(double a, double b) { return f{n}(1, 2, 3, 4, 5, 6, 7, 8, a, b); }',
 'long double f{n}(int a, ...) { va_list ap; long double r; int k; va_start(ap, a); k = va_arg(ap, int); r = va_arg(ap, long double); if (k) r = va_arg(ap, long double); va_end(ap); return r; } long double t_{n}(int k, long double x, long double y) { return f{n}(1, k, x, y); }',
 'long f{n}(int n, ...) { va_list ap; long s = 0; va_start(ap, n); switch (n) { case 0: s = va_arg(ap, int); break; case 1: s = va_arg(ap, long); break; case 2: s = va_arg(ap, double) > 1; break; default: va_arg(ap, int); s = va_arg(ap, unsigned); } va_end(ap); return s; } long t_{n}(int n, long a, double d, unsigned u) { if (n == 0) return f{n}(n, (int) a); if (n == 1) return f{n}(n, a); if (n == 2) return f{n}(n, d); return f{n}(n, 1, u); }',
 'int x{n}(int n, ...); int x{n}(int n, ...) { int r = 0; va_list ap; va_start(ap, n); if (n > 0) { r = va_arg(ap, int); } va_end(ap); return r ? r : -n; } int t_{n}(int a, short b, char c) { return x{n}(1, b) + x{n}(2, c) * 3 + x{n}(a & 1, a); }',
 'int f{n}(int n, ...) { va_list ap; int i, *p; va_start(ap, n); for (i = 0; i < 9; i++) { p = va_arg(ap, int *); if (p) *p = n + i; } va_end(ap); return i; } int t_{n}(int a) { int x = 1, y = 2, z = 3; f{n}(a, &x, 0L, &y, 0L, 0L, 0L, 0L, &z, 0L); return x + y * 2 + z * 3; }']
def main(tier):
    c = Check('P08', 'variadic functions receive their arguments', 'translation_validation', tier); r = c.rnd
    hdr = open(c.tree.repo + '/include/stdarg.h').read() if hasattr(c.tree, 'repo') else open(REPO + '/include/stdarg.h').read()
    n = 0
    def unit(name, sigs):
        nonlocal n
        ws = []; cs = []; bs = []
        for f, v, h in sigs: w, k, b = prog(r, n, f, v, h); n += 1; ws.append(w); cs.append(k); bs.append(b)
        c.add(Unit(name, '#include "stdarg.h"\n' + '\n'.join(ws), refsrc=REFHDR + '\n'.join(bs), asmsrc=[REFHDR + '\n'.join(cs)], files={'stdarg.h': hdr}))
    fixed = []
    for t in PASS: fixed += [(['=int'], ['=' + t] * k, 'plain') for k in (1, 7, 10)]
    for k in ['int', 'fp', 'mix', 'arr', 'nest', 'big', 'union', 'bits', 'ld', 'pad']: fixed += [(['=int'], [k] * j, 'plain') for j in (1, 3, 5)] + [(['=int'], ['I'] * 5 + [k, 'I', 'F', k], 'plain'), (['=int'], ['F'] * 7 + [k, 'F', 'I', k], 'plain')]
    for k in range(1, 10): fixed += [(['=long'] * k, ['I', 'F', 'I', 'L', 'I'], None), (['=double'] * k, ['F', 'I', 'F', 'S', 'F'], None), (['I', 'F'] * (k // 2) + ['=int'], ['I', 'F'] * 6, None)]
    if c.quick: fixed = fixed[:39] + r.sample(fixed[39:], 45)
    allp = fixed + [(None, None, None)] * c.pick(60, 1200)
    for i in range(0, len(allp), 6): unit('va%d' % (i // 6), allp[i:i + 6])
    for i in range(0, len(EXTRA), 5):
        t = '\n'.join(f.replace('{n}', str(i + j)) for j, f in enumerate(EXTRA[i:i + 5])); c.add(Unit('vx%d' % (i // 5), '#include "stdarg.h"\n' + t, refsrc=REFHDR + t, files={'stdarg.h': hdr}))
    c.run_units(deadline=c.pick(240, 3000)); c.validate_samples(c.pick(4, 20))
    return c.finish()
