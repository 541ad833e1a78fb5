"""P05: pointers, arrays and function pointers."""
from check import *
from corpus import *
ET = ['char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned', 'long', 'unsigned long', 'float', 'double']
IT = ['char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned', 'long', 'unsigned long']
ST = {'S3': 'struct S3_{n} { char a, b, c; };', 'S12': 'struct S12_{n} { int a; short b; char c; };', 'S24': 'struct S24_{n} { long a; char b; int c[2]; };', 'S40': 'struct S40_{n} { double a; short b[3]; char c; long d[3]; };', 'S1': 'struct S1_{n} { char b; };', 'S16': 'struct S16_{n} { long a; long b; };'}
def corpus(r, quick):
    out = []
    def some(l, k): return r.sample(l, min(k, len(l))) if quick else l
    # loads and stores at a symbolic index in global, local and pointed-to arrays
    for et in ET:
        for it in some(IT, 4):
            forms = ['return s_a{n}[{i}];', '{ s_a{n}[{i}] = v; return s_a{n}[1]; }', '{ {t} *p; p = s_a{n}; return p[{i}]; }', '{ {t} *p; p = s_a{n}; p[{i}] = v; return *p; }', '{ {t} *p; p = s_a{n} + ({i}); return *p; }', '{ {t} *p; p = &s_a{n}[{i}]; *p = v; return p - s_a{n}; }', 'return *(s_a{n} + ({i}));', '{ *(({i}) + s_a{n}) = v; return ({i})[s_a{n}]; }',
                     '{ {t} l[8]; int k; for (k = 0; k < 8; k++) l[k] = s_a{n}[k]; l[{i}] = v; return l[3]; }', '{ {t} l[4]; l[0] = v; l[1] = 2; l[2] = 3; l[3] = v; return l[({i}) & 3]; }', '{ {t} *p; p = s_a{n}; p += {i}; *p = *p + 1; return *p; }', '{ {t} *p; p = s_a{n} + 7; p -= {i}; return *p; }', '{ {t} *p; p = s_a{n} + 7 - ({i}); return *p++ + (p - s_a{n}); }', 's_a{n}[{i}] += v; return 0;', 'return s_a{n}[{i}]++ + s_a{n}[2];', '{ {t} *p; p = &s_a{n}[({i}) | 1]; return p[-1]; }', '{ {t} *p; p = s_a{n} + 4; return p[-(({i}) & 3)]; }', '{ {t} *p; p = s_a{n} + 4; return p[(({i}) & 3) - 4]; }', '{ {t} *p = s_a{n} + ({i}); return p >= s_a{n} + 3; }', '{ {t} *p = s_a{n} + ({i}), *q = s_a{n} + (j & 7); return (p - q) * 100 + (p == q) + (p < q) * 2 + (p > q) * 4 + (p != q) * 8; }', 's_a{n}[{i}] = s_a{n}[j & 7]; return 0;', 'return s_a{n}[{i}] == s_a{n}[j & 7];', 'if (s_a{n}[{i}]) return 1; return 2;', '{ {t} *p = s_a{n} + ({i}); return &p[1] - &s_a{n}[1]; }', '{ {t} *p = s_a{n}; {t} **pp = &p; *pp += {i}; return **pp + (*pp - s_a{n}); }', '{ static {t} l[8]; l[{i}] = v; return l[3] + l[{i}]; }', '{ volatile {t} l[8]; l[j & 7] = 1; l[{i}] = v; return l[j & 7]; }']
            for f in some(forms, 9):
                ix = r.choice(['i & 7', 'i & 7', '(unsigned char) i & 7', '(i >> 2) & 7', '(i & 3) + 4', '(i & 3) * 2', '(i & 7) - 0'])
                out.append('%s s_a{n}[8]; long t_{n}(%s i, %s j, %s v) { %s }' % (et, it, r.choice(IT), et, f.replace('{i}', ix).replace('{t}', et)))
    # the index as a variable of its own type, from several kinds of objects
    for it in IT:
        for et in some(ET, 4):
            for k in some(KINDS, 4):
                g, d, s, e = operand(r, it, 'i', k)
                out.append('%s %s s_m{n}[256]; long t_{n}(%s i) { %s %s if (%s < 0 || %s > 200) return 7; return &s_m{n}[%s] - s_m{n} + (s_m{n} + %s == &s_m{n}[3]) * 1000; }' % (g, et, it, d, s, e, e, e, e))
                out.append('%s %s s_m{n}[6]; long t_{n}(%s i) { %s %s if (%s < 0 || %s > 3) return 7; return s_m{n}[%s] ^ s_m{n}[%s + 1]; }' % (g, et if et not in ('float', 'double') else 'int', it, d, s, e, e, e, e))
                out.append('%s %s s_m{n}[9]; long t_{n}(%s i) { %s *p; %s %s if (%s < -4 || %s > 4) return 7; p = s_m{n} + 4; return p[%s]; }' % (g, et, it, et, d, s, e, e, e) if not it.startswith('unsigned') else '%s %s s_m{n}[9]; long t_{n}(%s i) { %s *p; %s %s if (%s > 4) return 7; p = s_m{n} + 4; return *(p - %s); }' % (g, et, it, et, d, s, e, e))
    # pointer increments of every element size
    for et in ET + list(ST):
        h = ST.get(et, ''); t = 'struct %s_{n}' % et if h else et
        for o in ['*p', '*p++', '*++p', '*p--', '*--p', '(*p)++', '++*p', '--*p', '*p++ = v', '*--p = v', '*p += v', '*p++ += v'] if not h else []:
            out.append('%s s_a{n}[6]; long t_{n}(%s v, int i) { %s *p; long x; p = s_a{n} + 2 + (i & 1); x = %s; return x * 10 + (p - s_a{n}); }' % (t, t, t, o))
        out += [h + '%s s_a{n}[6]; long t_{n}(int i, int j) { %s *p = s_a{n} + (i & 3), *q = &s_a{n}[j & 3]; p++; --q; q += 2; return (p - q) * 16 + (p < q) + (p <= q) * 2 + (p == q) * 4 + ((char *) p - (char *) q) * 1000; }' % (t, t),
                h + '%s s_a{n}[6]; long t_{n}(long i) { return (char *) &s_a{n}[i & 3] - (char *) s_a{n} + sizeof(s_a{n}[0]) + sizeof(s_a{n}) + sizeof(&s_a{n}) + sizeof(*s_a{n}); }' % t,
                h + '%s s_a{n}[6]; long t_{n}(char i) { %s *p = s_a{n}, *e = s_a{n} + (i & 3); long k = 0; while (p != e) { p++; k++; } return k; }' % (t, t),
                h + '%s s_a{n}[6]; %s *f{n}(%s *p, short i) { return p + i; } long t_{n}(short i) { return (char *) f{n}(s_a{n}, i & 3) - (char *) s_a{n}; }' % (t, t, t)]
        if h: out += [h + '%s s_a{n}[4]; long t_{n}(int i, char v) { %s *p = s_a{n} + (i & 3); p->b%s = v; return s_a{n}[i & 3].b%s + s_a{n}[1].b%s; }' % (t, t, *(['[1]' if et == 'S40' else ''] * 3)), h + '%s s_a{n}[4]; long t_{n}(int i, int j) { s_a{n}[i & 3] = s_a{n}[j & 3]; return 0; }' % t, h + '%s s_a{n}[4]; long t_{n}(int i) { %s l; l = s_a{n}[i & 3]; s_a{n}[(i + 1) & 3] = l; return l.b%s; }' % (t, t, '[2]' if et == 'S40' else ''), h + '%s s_a{n}[4]; long t_{n}(int i) { %s *p = s_a{n}; return (p + (i & 1))[1].b%s; }' % (t, t, '[i & 1]' if et == 'S40' else '')]
    # several dimensions, arrays of pointers, pointers to arrays
    for et in ET:
        ms = ['%s s_m{n}[3][4]; long t_{n}(int i, int j) { return s_m{n}[i & 1][j & 3]; }', '%s s_m{n}[3][4]; long t_{n}(long i, char j) { s_m{n}[(i & 1) + 1][j & 3] = 5; return s_m{n}[2][1]; }', '%s s_m{n}[2][3][4]; long t_{n}(unsigned i, short j, unsigned char k) { return s_m{n}[i & 1][(j & 1) + 1][k & 3]; }', '%s s_m{n}[3][4]; long t_{n}(int i, int j) { return *(*(s_m{n} + (i & 1)) + (j & 3)); }', '%s s_m{n}[3][4]; long t_{n}(int i, int j) { %s (*p)[4]; p = s_m{n} + (i & 1); return (*p)[j & 3] + p[1][0]; }', '%s s_m{n}[3][4]; long t_{n}(int i) { %s *p; p = s_m{n}[i & 1]; return p[5]; }', '%s s_m{n}[3][4]; long t_{n}(int i, int j) { return &s_m{n}[i & 1][j & 3] - &s_m{n}[0][0]; }', '%s s_m{n}[3][4]; long t_{n}(int i) { return (char *) (s_m{n} + (i & 1)) - (char *) s_m{n} + sizeof(s_m{n}[0]) + sizeof(*s_m{n}[0]); }', '%s s_m{n}[3][4]; long f{n}(%s p[][4], int i, int j) { return p[i][j]; } long t_{n}(int i, int j) { return f{n}(s_m{n}, i & 1, j & 3); }', '%s s_a{n}[4], s_b{n}[4]; long t_{n}(int i, int j) { %s *p[3]; p[0] = s_a{n}; p[1] = s_b{n} + 1; p[2] = s_a{n} + 2; return p[(i & 1) + 1][j & 1]; }', '%s s_a{n}[4], s_b{n}[4]; long t_{n}(int i, int j) { %s *p[2]; %s **q; p[0] = s_a{n}; p[1] = s_b{n}; q = p; q += i & 1; (*q)[j & 3] = 9; return **q; }', '%s s_m{n}[3][4]; long t_{n}(int i, int j) { %s l[2][3]; l[i & 1][j & 1] = 3; l[(i + 1) & 1][2] = 7; l[i & 1][2] = s_m{n}[1][1]; return l[0][2] + l[i & 1][j & 1]; }', '%s s_m{n}[3][4]; long t_{n}(int i) { %s (*p)[4] = s_m{n}; p += i & 1; p++; return **p + (p - s_m{n}); }', '%s s_m{n}[3][4]; long t_{n}(int i, int j) { s_m{n}[i & 1][j & 3] += 2; return s_m{n}[j & 1][i & 3]++; }']
        for m in some(ms, 8): out.append(m.replace('%s', et))
    # structures with arrays and pointers, lists
    for et in some(ET, 5):
        h = 'struct N{n} { char c; %s v[3]; struct N{n} *next; %s *p; %s x; }; ' % (et, et, et); g = h + 'struct N{n} s_n{n}[3]; '
        out += [g + 'long t_{n}(int i, int j) { return s_n{n}[i & 1].v[j & 1] + s_n{n}[1].x; }', g + 'long t_{n}(int i, int j) { struct N{n} *p = s_n{n} + (i & 1); p->v[j & 1] = 3; p->p = &p->v[2]; *p->p = 4; return p[1].x; }', g + 'long t_{n}(int i) { struct N{n} *p; s_n{n}[0].next = &s_n{n}[1]; s_n{n}[1].next = s_n{n} + 2; s_n{n}[2].next = 0; p = s_n{n} + (i & 1); return p->next->x + (p->next->next == 0 ? 0 : p->next->next->v[1]); }', g + 'long t_{n}(int i) { %s *p = &s_n{n}[i & 1].x; %s **q = &s_n{n}[2].p; *q = p; return *s_n{n}[2].p + **q + (&s_n{n}[i & 1] == s_n{n}); }' % (et, et), g + 'long t_{n}(long i) { return (char *) &s_n{n}[i & 1].v[i & 1] - (char *) s_n{n}; }', g + 'long t_{n}(int i) { struct N{n} l[2], *p; l[0].x = 1; l[1].x = 2; l[0].v[1] = 3; l[1].v[1] = 4; p = l; p = p + (i & 1); return p->x * 10 + p->v[1]; }', g + 'long t_{n}(int i) { struct N{n} *p = s_n{n}; return (p++)->x + p->v[i & 1] + (++p)->x; }', g + 'long t_{n}(int i) { struct N{n} *p = s_n{n} + 1; return (--p)->c + (&*p)->x + (*(p + (i & 1))).x; }']
    # function pointers
    for t in some(['int', 'long', 'char', 'double', 'unsigned short', 'float'], 6):
        h = '%s f{n}(%s a) { return a + 1; } %s g{n}(%s a) { return a - 2; } ' % (t, t, t, t) if t != 'float' and t != 'char' and t != 'unsigned short' else '%s f{n}(%s a) { return a + 1; } %s g{n}(%s a) { return a == 3; } ' % (t, t, t, t)
        T4 = (t, t)
        out += [h + '%s t_{n}(int i, %s a) { %s (*p)(%s); p = i ? f{n} : g{n}; return p(a); }' % (t, t, t, t), h + '%s t_{n}(int i, %s a) { %s (*p[2])(%s); p[0] = f{n}; p[1] = &g{n}; return (*p[i & 1])(a); }' % (t, t, t, t), h + '%s (*s{n}[2])(%s) = { f{n}, g{n} }; %s t_{n}(char i, %s a) { return s{n}[i & 1](a); }' % (t, t, t, t), h + 'struct F{n} { char c; %s (*p)(%s); }; %s t_{n}(int i, %s a) { struct F{n} l, *q; l.p = f{n}; if (i) l.p = g{n}; q = &l; return q->p(a) + l.p(a) + (*q->p)(a); }' % (t, t, t, t), h + 'typedef %s (*P{n})(%s); P{n} sel{n}(int i) { if (i > 0) return f{n}; return g{n}; } %s t_{n}(int i, %s a) { return sel{n}(i)(a); }' % (t, t, t, t), h + '%s ap{n}(%s (*p)(%s), %s x) { return p(x); } %s t_{n}(int i, %s a) { return ap{n}(i ? f{n} : g{n}, a); }' % (t, t, t, t, t, t), h + 'int t_{n}(int i) { %s (*p)(%s), (*q)(%s); p = f{n}; q = i ? f{n} : g{n}; return (p == q) + (q == g{n}) * 2 + (p != 0) * 4; }' % (t, t, t), h + '%s t_{n}(int i, %s a) { %s (*p)(%s), (**q)(%s); p = f{n}; q = &p; if (i) *q = g{n}; return (*q)(a) + (**q)(a); }' % (t, t, t, t, t), h + '%s (*sel{n}(int i))(%s) { return i ? f{n} : g{n}; } %s t_{n}(int i, %s a) { return (*sel{n}(i))(a); }' % (t, t, t, t), h + '%s t_{n}(int i, %s a) { return (i ? f{n} : g{n})(a); }' % (t, t), h + '%s ap{n}(%s p(%s), %s x) { return p(x) + (*p)(x); } %s t_{n}(int i, %s a) { return ap{n}(f{n}, a); }' % (t, t, t, t, t, t)]
    # swaps, aliases, byte access, addresses of everything, casts
    for t in some(ET, 6):
        out += ['void sw{n}(%s *a, %s *b) { %s t = *a; *a = *b; *b = t; } %s t_{n}(%s a, %s b) { sw{n}(&a, &b); return a; }' % ((t,) * 6), '%s t_{n}(%s a, int i) { %s b = 3, *p; p = i ? &a : &b; *p = 7; return a; }' % (t, t, t), '%s t_{n}(%s a) { %s *p = &a, **q = &p, ***z = &q; ***z = **q + 1; return *p; }' % (t, t, t), 'unsigned char t_{n}(%s a, int i) { unsigned char *p = (unsigned char *) &a; return p[i & (sizeof(a) - 1)]; }' % t, '%s t_{n}(%s a, int i) { char *p = (char *) &a; p[i & (sizeof a - 1)] = 0; return a; }' % (t, t), '%s s_a{n}[4]; %s t_{n}(long i) { long p = (long) s_a{n}; return *(%s *) (p + (i & 3) * sizeof(%s)); }' % (t, t, t, t), '%s s_a{n}[4]; %s t_{n}(int i) { void *p = s_a{n}; return ((%s *) p)[i & 3]; }' % (t, t, t), '%s s_a{n}, s_b{n}; int t_{n}(int i) { %s *p = i ? &s_a{n} : &s_b{n}; *p = 2; return (p == &s_a{n}) + 2 * (p == &s_b{n}); }' % (t, t), 'void set{n}(%s a[], int k, %s v) { a[k] = v; } %s t_{n}(int k, %s v) { %s l[3]; l[0] = l[1] = l[2] = 1; set{n}(l, k & 1, v); set{n}(l + 1, 1, v); return l[0] - l[1] + l[2]; }' % ((t,) * 5), '%s s_a{n}[5]; long t_{n}(int i) { return &s_a{n}[5] - &s_a{n}[i & 3] + (&s_a{n}[i & 3] - &s_a{n}[5]) * 10; }' % t, '%s s_a{n}[5]; long t_{n}(int i) { %s *p = &s_a{n}[i & 3]; if (p) p++; if (!p) return 1; return p ? p - s_a{n} : -1; }' % (t, t), '%s *s_p{n}; %s s_a{n}[4]; long t_{n}(int i) { s_p{n} = s_a{n} + (i & 3); return s_p{n} == &s_a{n}[2]; }' % (t, t), 'const %s c{n}[4] = { 3, 5, 7, 9 }; long t_{n}(int i) { const %s *p = c{n}; return p[i & 3] + *(p + 1); }' % (t, t), '%s t_{n}(%s a, int i) { %s l[2][2], *p = &l[0][0]; l[0][0] = 1; l[0][1] = 2; l[1][0] = a; l[1][1] = 4; return p[i & 3] + *(l[1]); }' % (t, t, t)]
    out += ['long t_{n}(int i) { char *p = "abcdefg"; return p[i & 7] + "xyz"[i & 3]; }', 'long t_{n}(int i) { static char s[] = "hello"; s[i & 3] = 65; return s[0] + s[1] * 256; }', 'char *s{n}[3] = { "ab", "cd", "ef" }; long t_{n}(int i, int j) { return s{n}[i & 1][j & 1]; }', 'long t_{n}(int i) { char s[4] = "ab"; char *p = s; while (*p) p++; return p - s + (i & 1); }', 'int t_{n}(char *p) { return p == 0 ? 3 : p == (char *) 1 ? 4 : 5; }', 'int t_{n}(char *p, char *q) { return (p < q) + (p <= q) * 2 + (p > q) * 4 + (p >= q) * 8 + (p == q) * 16 + (p != q) * 32; }', 'long t_{n}(int *p, int *q) { return p - q; }', 'long t_{n}(short *p, long i) { return (long) (p + i); }', 'long t_{n}(int *p, char i) { return (long) (p - i); }', 'long t_{n}(long *p, unsigned i) { return (long) &p[i]; }', 'long t_{n}(char *p, int i) { return (long) (i + p); }', 'long t_{n}(char **p, unsigned char i) { return (long) &p[i]; }', 'long t_{n}(double *p, long i) { p += i; p--; return (long) p++; }', 'long t_{n}(long double *p, int i) { return (long) (p + i) + (long) (p - i); }', 'void *t_{n}(char *p) { void *q = p; char *z = q; return z; }', 'unsigned t_{n}(char *p) { return (unsigned) (long) p; }', 'char *t_{n}(unsigned long x) { return (char *) x; }', 'int t_{n}(int (*p)[4], int i) { return (char *) (p + i) == (char *) p; }', 'long t_{n}(int (*p)[3][4], long i) { return (long) (p + i) + (long) p[i][1]; }',
            'long t_{n}(char *p, long i) { return (p + i) == p; }', 'long t_{n}(struct Z{n} { char c[5]; } *p, short i) { return (long) &p[i].c[2]; }', 'int t_{n}(int i) { int a[3]; int *p = a; *p++ = 1; *p++ = i; *p = 3; return a[0] + a[1] * 2 + a[2] * 4 + (p - a); }', 'int s_i{n}; int t_{n}(int *p) { s_i{n} = 5; return p == &s_i{n} ? 0 : 1; }', 'long t_{n}(char *p) { return (long) (p ? p + 1 : 0); }', 'long t_{n}(int *p, long n) { return &p[n] - &p[n - 3]; }', 'long t_{n}(int *p) { int *q = p + 100000; q -= 50000; return q - p; }', 'long t_{n}(char *p) { return (long) (p + 4294967296l) + (long) (p - 2147483648l) + (long) &p[-1]; }']
    H = 'struct T{n} { int a; long double b, v[2]; }; long double s_l{n}[3][2]; struct T{n} s_t{n}[2]; '
    out += [H + x for x in ['int t_{n}(unsigned i) { i %= 2; return s_l{n}[1][0] < s_l{n}[i][1]; }', 'int t_{n}(unsigned i, long double x) { i %= 3; s_l{n}[i][1] = x; return 0; }', 'int t_{n}(unsigned i) { struct T{n} *u = s_t{n}; long double *p = &u->b; i %= 2; u += i; return *&u->b < u->v[1]; }',
            'long t_{n}(unsigned i, unsigned j) { i %= 3; j %= 2; return &s_l{n}[i][j] - s_l{n}[0]; }', 'long double t_{n}(unsigned i, unsigned j) { long double (*q)[2] = s_l{n}; i %= 3; j %= 2; return q[i][j]; }', 'long double t_{n}(unsigned i, unsigned j) { long double l[3][2]; int a, b; for (a = 0; a < 3; a++) for (b = 0; b < 2; b++) l[a][b] = a * 10 + b; i %= 3; j %= 2; return l[i][j]; }',
            'long double t_{n}(unsigned i) { struct T{n} l[2], *u = l; u[0].v[0] = 1; u[0].v[1] = 2; u[1].v[0] = 3; u[1].v[1] = 4; i %= 4; return (u + i / 2)->v[i & 1]; }', 'long double t_{n}(long i, long double x) { long double *p = s_l{n}[1] + (i & 1); *p = x; p[-1] = *p; *--p += 1; return *(s_l{n}[1] + 1); }', 'long t_{n}(long i) { long double *p = s_l{n}[0] + (i & 3), *q = &s_l{n}[1][0]; p++; q--; return (p - q) * 2 + (p < q); }']]
    # constants as pointers, within and beyond 32 bits
    # accesses to constant addresses are compiled only
    for t in ['char', 'unsigned short', 'int', 'long', 'float', 'double', 'long double']:
        out.append('%s u{n}(int i) { %s *p = (%s *) 1000; *p = p[i]; p[2] = *p; ++*p; return ((%s *) 0x12345678900)[i] + p[1]; } int t_{n}(int i) { return i; }' % (t, t, t, t))
    out += ['struct K{n} { int a : 3, b; long m[4]; }; int u{n}(int i) { struct K{n} k = *(struct K{n} *) 1000; ((struct K{n} *) 1000)->a++; ((struct K{n} *) 1000)->b |= k.a; return ((struct K{n} *) 0)->m[i] + **(int (*)[3]) 1000 + ((int (*)(int)) 1000)(i) + (*(int (**)(void)) 1000)() + !*(int *) 8 - -*(int *) 8; } int t_{n}(int i) { return i; }']
    out += ['char *t_{n}(char *p) { return p + 4294967296l; }',
            'int *t_{n}(int *p) { return p + 2147483648u; }',
            'void *t_{n}() {return (void*)0xffffffffu;}',
            'int t_{n}(void *p) {return p == (void*) 0x80000000;}',
            'int t_{n}(void*p) {return p==(void*)-1;}',
            'char *t_{n}(char*p) {return p-4294967296l;}',
            'int *t_{n}(int i) { return (int *) 1000 + i; }',
            'long *t_{n}(int i) { long *p = (long *) 1000; p += i; return p - 2; }',
            'void *t_{n}(long i) { char (*p)[7] = (char (*)[7]) 0x7000000000; return &p[i]; }',
            'struct K{n} { int a; short b; long m[4]; int n[2][3]; } ; long *t_{n}(int i) { return &((struct K{n} *) 1000)->m[i]; }',
            'struct K{n} { int a; short b; long m[4]; int n[2][3]; } ; int *t_{n}(int i, int j) { return &((struct K{n} *) 0x123456789)->n[i][j]; }',
            'struct K{n} { int a; short b; long m[4]; int n[2][3]; } ; long t_{n}(void) { return &((struct K{n} *) 1000)->m[3] - ((struct K{n} *) 1000)->m; }',
            'struct K{n} { int a; short b; long m[4]; int n[2][3]; } ; long t_{n}(int i) { return (long) &((struct K{n} *) 0)->b + sizeof(((struct K{n} *) 0)->n[i]) + ((char *) &((struct K{n} *) 16)[i].m[1] - (char *) 0); }',
            'long t_{n}(int *q) { return q - (int *) 1000; }',
            'long t_{n}(int *q) { int *p = (int *) 1000; return p - q; }',
            'int t_{n}(char *q) { char *p = (char *) 1000; return (p < q) + (q <= p) * 2 + (p == q) * 4; }',
            'int t_{n}(char *q) { return ((char *) 1000 < q) + ((char *) 0x80000000l <= q) * 2; }',
            'int t_{n}(int i) { char *p = (char *) 4; int k = 0; while (p) { p--; k += i; } return k; }',
            'char *t_{n}(char *q, int i) { char *p = i ? (char *) 1000 : q; return p++; }',
            'int t_{n}(char *p) { return &p[4] == (char *) 1004; }',
            'void *t_{n}(int i) { return i ? (void *) 8 : 0; }',
            'int t_{n}(int *q, int i) { int *p = (int *) 1000, x = i; if (q != p) p = &x; if (p == (int *) 1000) return 1; return *p; }',
            'int t_{n}(int i) { int *p = 0, x = i; if (!p) p = &x; return *p; }',
            'int t_{n}(int i) { int a[3], *p = (int *) 1000; a[0] = i; a[1] = 2; a[2] = 3; p = a + ((unsigned) i % 3); return *p; }',
            'char *s_p{n}; void t_{n}() {s_p{n} = (char*)0xdeadbeef01l;}',
            'void *t_{n}() {return (void*)0x1234567890l;}',
            'int t_{n}(void (*p)(int)) { return p == (void (*)(int)) 0x80000000; }',
            'int t_{n}(void (*p)(int)) { return p == (void (*)(int)) 0x7; }',
            'int t_{n}(int *p) { if (p == (int *) 0xffffffff80000000) return 1; return p != (int *) 0x123456789; }',
            'void (*s_f{n})(int); int t_{n}() { return s_f{n} == 0; }',
            'void (*s_f{n})(int); int t_{n}() { return s_f{n} == (void (*)(int)) 0xffffffffffff; }',
            'int *s_q{n}; int t_{n}() { return s_q{n} == (int *) 0x80000000; }',
            'int t_{n}(char *p) { return p > (char *) 0x80000000u; }',
            'int t_{n}(char *p, int i) { return p + i == (char *) 0x80000000u; }',
            'int t_{n}(void (*p)(int)) { return !p; }',
            'void (*s_z{n}[2])(int); int t_{n}() { void (**p)(int) = s_z{n}; return *p == 0; }',
            'char *s_z{n}[2]; int t_{n}(char *q) { char **p = s_z{n}; *p = q; return *p == (char *)0x80000000u; }',
            'char *s_z{n}[2]; int t_{n}(char *q) { char **p = s_z{n}; p[1] = q; return p[1] == (char *)0xffffffffffu; }',
            'char *s_z{n}[2]; int t_{n}(int i, char *q) { s_z{n}[i & 1] = q; return s_z{n}[1] == 0; }']
    # the address of what a pointer points to, with the pointer in every kind of place
    for t in some(['int', 'char', 'long', 'double', 'struct V{n}', 'IP{n}'], 3):
        D = 'typedef int *IP{n}; struct V{n} { int x, y; long z[2]; struct V{n} *n; };\n%s s_v{n}[4]; %s *g{n}; static %s *l{n}; struct W{n} { int i; %s *p; %s (*a)[2]; } w{n}, *pw{n}; %s *pa{n}[3]; %s (*ga{n})[2]; %s **gg{n};\n' % ((t,) * 8)
        set_ = 'g{n} = s_v{n} + (i & 1); l{n} = s_v{n} + 1; w{n}.p = s_v{n} + 2; w{n}.a = (%s (*)[2]) s_v{n}; pw{n} = &w{n}; pa{n}[0] = s_v{n}; pa{n}[1] = s_v{n} + 1; pa{n}[2] = s_v{n} + 3; ga{n} = (%s (*)[2]) (s_v{n} + 1); gg{n} = &g{n};' % (t, t)
        P = ['g{n}', 'l{n}', 'w{n}.p', 'pw{n}->p', 'pa{n}[1]', 'pa{n}[i & 1]', '*gg{n}', 'm', '*pm', 'k', 'f', '*ga{n}', '*w{n}.a', '*pw{n}->a', 'k++', '--k', '(i ? m : g{n})', '(m = f)', '(i, l{n})']
        L = '%s *m = s_v{n} + 2, **pm = &m, *k = s_v{n} + 1; ' % t
        for p in some(P, 8):
            for e in some(['&*(%s) - s_v{n}', '&(%s)[0] - s_v{n}', '&(%s)[1] - s_v{n}', '&(%s)[i & 1] - s_v{n}', '(char *) &*(%s) - (char *) s_v{n}', '(&*(%s) == s_v{n} + 1) * 2 + (&s_v{n}[2] > m)', '&*&*(%s) - s_v{n}', '(&*&(%s)[1] - &*s_v{n})'], 3) + (['(char *) &(%s)->x - (char *) s_v{n}', '(char *) &(%s)->y - (char *) s_v{n}', '(char *) (%s)->z - (char *) s_v{n}', '(char *) &(%s)->z[i & 1] - (char *) s_v{n}', '(char *) &(*(%s)).x - (char *) s_v{n}'] if 'V' in t else []):
                out += [D + 'long t_{n}(int i) { %s *f = s_v{n} + (i & 3); %s%s return %s; }' % (t, L, set_, e % p)]
        out += [D + '%s *h{n}(%s *p, int i) { return i ? &*p : &p[1]; } long t_{n}(int i) { %s return h{n}(g{n}, i) - h{n}(&*l{n}, i & 1) * 1 + 0; }'.replace(' * 1 + 0', '') % (t, t, set_), D + 'long t_{n}(int i) { %s%s *ga{n}[0] = *l{n}; return &*pm == &m; }'.replace('*ga{n}[0]', '(*ga{n})[0]') % (L, set_)]
    return out
def main(tier):
    c = Check('P05', 'pointers, arrays and function pointers', 'translation_validation', tier); r = c.rnd
    fs = corpus(r, c.quick); r.shuffle(fs); c.add_fns('ptr', fs, per=16)
    c.run_units(deadline=c.pick(240, 3000)); c.validate_samples(c.pick(4, 20))
    return c.finish()
