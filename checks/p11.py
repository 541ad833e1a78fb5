"""P11: sizes, alignments and member offsets; array sizes and bit-field widths are symbolic digits of the source. The reference
calculates the layout by the rules of the System V ABI; concrete types are compared with clang's layout of the same declarations."""
from check import *
from corpus import *
from symsrc import *
HDR = '''
typedef struct { long pos, al, off; } Y_;
static long up_(long p, long a) { return (p + a - 1) / a * a; }
static Y_ mem_(Y_ y, long size, long al) { y.pos = up_(y.pos, al * 8); y.off = y.pos; y.pos += size * 8; if (al > y.al) y.al = al; return y; }
static Y_ bit_(Y_ y, long w, int named) { if (w == 0) y.pos = up_(y.pos, 32); else { if (y.pos % 32 + w > 32) y.pos = up_(y.pos, 32); y.off = y.pos; y.pos += w; if (named && y.al < 4) y.al = 4; } return y; }
static long size_(Y_ y) { return up_(up_(y.pos, 8), y.al * 8) / 8; }
static unsigned long get_(unsigned long *p, long pos, long w) { unsigned long v = p[pos / 64] >> pos % 64; return v & ((1ul << w) - 1); }
static long sget_(unsigned long *p, long pos, long w) { long v = get_(p, pos, w); return (v ^ (1l << (w - 1))) - (1l << (w - 1)); }
static void put_(unsigned long *p, long pos, long w, unsigned long v) { unsigned long m = ((1ul << w) - 1) << pos % 64; p[pos / 64] = (p[pos / 64] & ~m) | (v << pos % 64 & m); }
'''
B = [('char', 1, 1), ('unsigned char', 1, 1), ('short', 2, 2), ('unsigned short', 2, 2), ('int', 4, 4), ('unsigned', 4, 4), ('long', 8, 8), ('float', 4, 4), ('double', 8, 8), ('long double', 16, 16), ('char *', 8, 8), ('void (*%s)(void)', 8, 8)]
ORDERS = ['char', 'signed char', 'char signed', 'unsigned char', 'char unsigned', 'short', 'short int', 'int short', 'signed short', 'short signed int', 'int signed short', 'unsigned short', 'short unsigned', 'int unsigned short', 'unsigned short int', 'short unsigned int', 'int', 'signed', 'signed int', 'int signed', 'unsigned', 'unsigned int', 'int unsigned', 'long', 'long int', 'int long', 'signed long', 'long signed', 'long signed int', 'int long signed', 'unsigned long', 'long unsigned', 'unsigned long int', 'long unsigned int', 'int unsigned long', 'long int unsigned', 'int long unsigned', 'unsigned int long', 'float', 'double', 'long double', 'double long']
def main(tier):
    c = Check('P11', 'type layout', 'translation_validation', tier); r = c.rnd
    def decl(t, n): return t % n if '%s' in t else '%s %s' % (t, n)
    # ---- symbolic widths and dimensions
    def symbolic(i):
        s = SymSrc(); n = 0; budget = c.pick(2, 3); decls = []; ref = 'Y_ y = {0, 1, 0}; '; fields = []; union = r.random() < .08
        bits = i % 2
        def width():
            nonlocal budget
            if budget and r.random() < .6: budget -= 1; return s.lit(r.choice([[('1', '9')], [('1', '2'), ('0', '9')], ['3', ('0', '2')], [('1', '2'), ('0', '9')]]), 'dec', '', '', 'long')
            w = str(r.choice([1, 2, 3, 5, 7, 8, 9, 12, 15, 16, 17, 20, 24, 25, 31, 32])); return w, w
        def dim():
            nonlocal budget
            if budget and r.random() < .7: budget -= 1; return s.lit(r.choice([[('1', '9')], [('1', '9'), ('0', '9')]] + ([[('1', '9'), ('0', '9'), ('0', '9')]] if budget == 1 else [])), 'dec', '', '', 'long')
            w = str(r.choice([1, 2, 3, 5, 7, 10])); return w, w
        k = r.randrange(2, c.pick(6, 8)); rst = 'mx = y.pos > mx ? y.pos : mx; y.pos = 0; ' if union else ''
        for j in range(k):
            x = r.random(); m = 'm%d' % j
            if x < (.6 if bits else .3):
                w = width(); sg = r.choice(['int', 'unsigned', 'unsigned int', 'signed int', 'signed'])
                if r.random() < .1: decls.append('%s : %s;' % (sg, w[0])); ref += 'y = bit_(y, %s, 0); ' % w[1] + rst
                else: decls.append('%s %s : %s;' % (sg, m, w[0])); ref += 'y = bit_(y, %s, 1); long o%d = y.off, w%d = %s; ' % (w[1], j, j, w[1]) + rst; fields.append((j, sg))
            elif x < .66 and bits: decls.append('int : 0;'); ref += 'y = bit_(y, 0, 0); ' + rst
            elif x < .85:
                t, sz, al = r.choice(B)
                if bits and sz > 8: continue
                decls.append(decl(t, m) + ';'); ref += 'y = mem_(y, %d, %d); long o%d = y.off; ' % (sz, al, j) + rst; fields.append((j, None))
            elif not bits:
                t, sz, al = r.choice(B[:11]); d = dim(); y = r.random()
                if y < .25: e = dim(); decls.append('%s %s[%s][%s];' % (t, m, d[0], e[0])); e = '%s * %s' % (d[1], e[1])
                elif y < .45: e = r.randrange(1, 4); decls.append('struct { char c; %s x; char d[%s]; } %s;' % (t, d[0], m)); ref += 'Y_ z%d = {0, 1, 0}; z%d = mem_(z%d, 1, 1); z%d = mem_(z%d, %d, %d); z%d = mem_(z%d, %s, 1); ' % (j, j, j, j, j, sz, al, j, j, d[1]); ref += 'y = mem_(y, size_(z%d), z%d.al); long o%d = y.off; ' % (j, j, j) + rst; fields.append((j, None)); continue
                else: decls.append('%s %s[%s];' % (t, m, d[0])); e = d[1]
                ref += 'y = mem_(y, %d * (%s), %d); long o%d = y.off; ' % (sz, e, al, j) + rst; fields.append((j, None))
        if not s.lits or not fields: return
        ku = 'union' if union else 'struct'
        if union: ref = 'long mx = 0; ' + ref + 'y.pos = mx; '
        T = '%s S { %s }' % (ku, ' '.join(decls)); src = T + ';\n'; rs = ''
        def fn(head, body, rbody, pre=''):
            nonlocal n, src, rs; n += 1; src += pre.replace('{n}', str(n)) + head.replace('{n}', str(n)) + ' { ' + body.replace('{n}', str(n)) + ' }\n'; rs += head.replace('{n}', str(n)).replace('struct S *', 'char *').replace('union S *', 'char *') + ' { ' + ref + rbody.replace('{n}', str(n)) + ' }\n'
        K = '%s S' % ku
        if not bits:
            fn('long t_{n}(void)', 'return sizeof(%s);' % K, 'return size_(y);')
            fn('long t_{n}(void)', 'struct B { char c; %s s; }; return sizeof(struct B) * 1024 + (long) &((struct B *) 0)->s;' % K, 'Y_ b = {0, 1, 0}; b = mem_(b, 1, 1); b = mem_(b, size_(y), y.al); return size_(b) * 1024 + b.off / 8;')
            for j, sg in r.sample(fields, min(2, len(fields))):
                if sg is None: fn('long t_{n}(void)', 'return (long) &((%s *) 0)->m%d;' % (K, j), 'return o%d / 8;' % j)
            fn('long t_{n}(%s *p)' % K, 'return (char *) (p + 1) - (char *) p;', 'return size_(y);')
            if r.random() < .4: fn('char *t_{n}(%s *p)' % K, 'return (char *) (p - %d);' % (len(fields) + 1), 'return (char *) p - %d * size_(y);' % (len(fields) + 1))
        else:
            g = 'union U { %s s; unsigned long w[16]; } s_u;\n' % K; src += g; rs += 'union U { unsigned long w[16]; } s_u;\n'
            bf = [(j, sg) for j, sg in fields if sg]
            fn('long t_{n}(void)', 'return sizeof(%s);' % K, 'return size_(y);')
            if not bf: return
            j, sg = r.choice(bf); un = sg.startswith('unsigned')
            fn('long t_{n}(void)', 'return s_u.s.m%d;' % j, 'return (%s) %sget_(s_u.w, o%d, w%d);' % ('unsigned' if un else 'int', '' if un else 's', j, j))
            j, sg = r.choice(bf); fn('void t_{n}(%s v)' % r.choice(['int', 'long', 'unsigned']), 's_u.s.m%d = v;' % j, 'put_(s_u.w, o%d, w%d, v);' % (j, j))
            if r.random() < .3: j, sg = r.choice(bf); fn('void t_{n}(int v)', 's_u.s.m%d += v;' % j, 'put_(s_u.w, o%d, w%d, get_(s_u.w, o%d, w%d) + v);' % (j, j, j, j))
        # all parts of one unit share the literals
        x = s.build(src, rs); c.add(Unit('sym%d' % i, x[0], refsrc=x[1].replace(REFHDR, REFHDR + HDR, 1), syms=x[2], symrefs=x[3], opts={'nummap': 1, 'max_paths': c.pick(500, 4000)}))
    for i in range(c.pick(130, 2000)): symbolic(i)
    # dimensions of objects and typedefs; enumerators do not change the size
    for i in range(c.pick(24, 300)):
        s = SymSrc(); a = s.lit(r.choice([[('1', '9')], [('1', '9'), ('0', '9')], [('1', '9'), ('0', '9'), ('0', '9')]]), 'dec', '', '', 'long'); b = s.lit(r.choice([[('1', '9')], [('1', '9'), ('0', '9')]]), 'dec', '', '', 'long'); t, sz, al = r.choice(B[:11])
        F = [('typedef %s A[%s]; typedef A M[%s];' % (t, a[0], b[0]), 'sizeof(M)', '%s * %s * %d' % (a[1], b[1], sz)), ('', 'sizeof(%s [%s][%s])' % (t, a[0], b[0]), '%s * %s * %d' % (a[1], b[1], sz)), ('', 'sizeof(%s (*)[%s])' % (t, a[0]), '8'), ('typedef %s A[%s];' % (t, a[0]), 'sizeof(A *)', '8'), ('%s (*p%d)[%s];' % (t, i, a[0]), 'sizeof(*p%d) * 2 + sizeof(p%d[0][0])' % (i, i), '%s * %d * 2 + %d' % (a[1], sz, sz)), ('typedef %s *Q[%s];' % (t, a[0]), 'sizeof(Q) + sizeof(**(Q *) 0) + sizeof(Q *)', '%s * 8 + 16' % a[1]), ('typedef %s R[%s][%s];' % (t, a[0], b[0]), '(char *) &(*(R *) 0)[1][0] - (char *) 0', '%s * %d' % (b[1], sz)), ('enum E { A = %s, B };' % a[0], 'sizeof(enum E) + sizeof(A) * 16 + B * 256l', '4 + 64 + (%s + 1) * 256' % a[1]), ('%s (*(*f%d)(void))[%s];' % (t, i, a[0]), 'sizeof(*f%d())' % i, '%s * %d' % (a[1], sz)), ('struct S { %s m[%s][%s]; };' % (t, a[0], b[0]), '(char *) &((struct S *) 0)->m[2][1] - (char *) 0', '%s * 2 * %d + %d' % (b[1], sz, sz)), ('', 'sizeof(struct { char c; %s m[%s]; })' % (t, a[0]), 'up_(%d + %s * %d, %d)' % (al, a[1], sz, al)), ('typedef struct { %s m[%s]; } T; T *p%d;' % (t, a[0], i), 'sizeof(p%d->m) * 3 + sizeof p%d[0]' % (i, i), '%s * %d * 4' % (a[1], sz))]
        d, e, v = F[i % len(F)] if i < len(F) else r.choice(F)
        x = s.build('%s\nlong t_0(void) { return %s; }\n' % (d, e), 'long t_0(void) { return %s; }\n' % v); c.add(Unit('dim%d' % i, x[0], refsrc=x[1].replace(REFHDR, REFHDR + HDR, 1), syms=x[2], symrefs=x[3], opts={'nummap': 1, 'max_paths': c.pick(500, 4000), 'partial': 1}))
    # ---- concrete declarations, clang's layout
    out = []
    def typ(d):
        """a member declaration template with %s for the name"""
        x = r.random()
        if d and x < .16: return '%s { %s } %%s' % (r.choice(['struct', 'struct', 'union']), members(d - 1)[0])
        if x < .3: return '%s %%s[%d]%s' % (r.choice(B[:11])[0], r.randrange(1, 9), r.choice(['', '', '[%d]' % r.randrange(1, 4)]))
        if x < .36: return r.choice(['enum { Q{n}_@ = -1 } %s', 'char (*%s)[7]', 'int *(*%s[3])(int, char)', 'double (**%s)[2][3]', 'struct U{n} *%s', 'int (*(*%s)(void))[4]', 'short (*%s[2])[3]', 'const char *const %s', 'volatile int %s', 'unsigned const %s'])
        return decl(r.choice(B)[0], '%s')
    ctr = [0]
    def members(d):
        ms = []; names = []; bits = r.random() < .35
        for j in range(r.choice([1, 1, 2, 2, 3, 4, 6, 9])):
            ctr[0] += 1
            if bits and r.random() < .5: ms.append(r.choice(['%s m%d : %d;' % (r.choice(['int', 'unsigned']), j, r.randrange(1, 33)), '%s m%d : %d;' % (r.choice(['int', 'unsigned']), j, r.randrange(1, 33)), 'int : %d;' % r.randrange(0, 20)])); continue
            ms.append(typ(d).replace('%s', 'm%d' % j).replace('@', str(ctr[0])) + ';'); names.append('m%d' % j)
        if not any(' m' in x for x in ms): ms.append('char z%d;' % r.randrange(9))
        return ' '.join(ms), names
    for i in range(c.pick(220, 4000)):
        m, names = members(r.choice([0, 1, 1, 2, 3])); ku = r.choice(['struct', 'struct', 'struct', 'union'])
        ex = ['sizeof({K})', 'sizeof(struct {{ char c; {K} s; }})', '(long) &((struct B{n} *) 0)->s', 'sizeof({K} [3])'] + ['(long) &(({K} *) 0)->%s' % x for x in names] + ['sizeof((({K} *) 0)->%s)' % x for x in names[:3]]
        K = '%s S{n}' % ku; D = '%s { %s }; struct B{n} { char c; %s s; char d; };' % (K, m, K)
        if r.random() < .4: out.append('%s long t_{n}(int i) { %s }' % (D, ' '.join('if (i == %d) return %s;' % (k, e.replace('{K}', K).replace('{{', '{').replace('}}', '}')) for k, e in enumerate(ex)) + ' return -1;'))
        else: out.append('%s long s_g{n}[1]; long g{n}[] = { %s }; int t_{n}(int i) { return i; }' % (D, ', '.join(e.replace('{K}', K).replace('{{', '{').replace('}}', '}') for e in ex)))
    # ---- the same type written differently
    for a in ORDERS:
        out.append('long t_{n}(void) { return sizeof(%s) * 2 + ((%s) -1 < 0); }' % (a, a))
        out.append('static %s f{n}(%s x) { return x; } %s t_{n}(%s x) { return f{n}(x); }' % (a, a, a, a))
        for q in r.sample(['const', 'volatile', 'extern', 'static', 'typedef'], 2):
            w = a.split(); w.insert(r.randrange(len(w) + 1), q) if q in ('const', 'volatile') else w.insert(r.randrange(len(w) + 1), q)
            if q == 'typedef': out.append('%s T{n}; long t_{n}(T{n} x) { return sizeof(T{n}) + (x < 0); }' % ' '.join(w))
            elif q == 'const' or q == 'volatile': out.append('%s s_g{n}[2]; %s t_{n}(int i) { return s_g{n}[i & 1]; }' % (' '.join(w).replace('const ', '').replace(' const', ''), a) if q == 'volatile' else '%s g{n} = 3; %s t_{n}(%s i) { %s l = i; return l + g{n}; }' % (' '.join(w), a, a, ' '.join(w)))
            elif q == 'static': out.append('%s s_g{n}[3]; long t_{n}(int i) { return sizeof(s_g{n}) + (s_g{n}[i & 1] < 0); }' % ' '.join(w))
            else: out.append('%s g{n}; long t_{n}(void) { return sizeof(g{n}); }' % ' '.join(w))
    for group in (['short', 'short int', 'signed short', 'int short'], ['unsigned', 'unsigned int', 'int unsigned'], ['long', 'long int', 'signed long', 'int long signed'], ['unsigned long', 'long unsigned int', 'int unsigned long', 'unsigned int long'], ['int', 'signed', 'signed int'], ['unsigned short', 'short unsigned', 'int short unsigned'], ['long double', 'double long'], ['char unsigned', 'unsigned char']):
        for a in group:
            b = r.choice(group); out.append('extern %s g{n}; %s g{n}; %s f{n}(%s, %s *); long t_{n}(void) { return sizeof(g{n}); } %s f{n}(%s x, %s *p) { return *p + x; }' % (a, b, a, b, a, b, a, b)); out.append('typedef %s T{n}; typedef T{n} U{n}; U{n} s_a{n}; T{n} *t_{n}(%s *p) { U{n} *q = p; %s *o = q; return o + 1; }' % (a, b, r.choice(group)))
    # declarators
    out += ['int (*s_f{n})(int); int t_{n}(void) { return sizeof(s_f{n}); }', 'char (*(*x{n}(void))[3])[5]; long t_{n}(void) { return sizeof(*x{n}()) * 100 + sizeof(**x{n}()) * 10 + sizeof(***x{n}()); }', 'typedef int F{n}(int, char); F{n} *g{n}(void), *h{n}[3]; long t_{n}(void) { return sizeof(h{n}) + sizeof(g{n}()); }', 'typedef struct N{n} { struct N{n} *next; int v; } N{n}; long t_{n}(N{n} *p) { return sizeof(N{n}) + sizeof(*p->next) + sizeof p->v; }', 'struct S{n}; typedef struct S{n} T{n}; struct S{n} { int a; T{n} *p; }; long t_{n}(void) { return sizeof(T{n}); }', 'typedef enum { A{n} = 1, B{n} } E{n}; long t_{n}(E{n} e) { return sizeof(E{n}) + sizeof(e) + sizeof(A{n}) + B{n}; }', 'typedef char A{n}[7]; typedef A{n} M{n}[3]; typedef M{n} *P{n}; long t_{n}(P{n} p) { return sizeof(M{n}) * 1000 + sizeof(*p) * 100 + sizeof(**p) + sizeof(p); }', 'long t_{n}(char a[10], int b[2][3], int f(int)) { return sizeof(a) + sizeof(*b) * 100 + sizeof(f) * 10000; }', 'long t_{n}(void) { char a[] = "hello"; int b[] = {1, 2, 3}; struct { char c; long d; } s[2]; return sizeof a + sizeof b * 100 + sizeof s * 10000 + sizeof(s[0].d) * 1000000; }', 'long t_{n}(char c, short s, float f) { return sizeof(c + c) + sizeof(s) * 10 + sizeof(f + c) * 100 + sizeof(c ? c : c) * 1000 + sizeof(-c) * 10000 + sizeof(c++) * 100000 + sizeof((char) 1) * 1000000 + sizeof(c = 1) * 10000000 + sizeof(c, s) * 100000000l; }', 'long t_{n}(void) { return sizeof(1) + sizeof(1l) * 10 + sizeof(1.0) * 100 + sizeof(1.0f) * 1000 + sizeof(1.0l) * 10000 + sizeof(\'a\') * 100000 + sizeof(L\'a\') * 1000000 + sizeof("abc") * 10000000 + sizeof(L"abc") * 100000000l; }', 'long t_{n}(int i, long l, unsigned u, double d) { return sizeof(i + l) + sizeof(u + i) * 10 + sizeof(i < l) * 100 + sizeof(d + i) * 1000 + sizeof(&i) * 10000 + sizeof(&i - &i) * 100000 + sizeof(i ? l : i) * 1000000 + sizeof(!l) * 10000000 + sizeof(~l) * 100000000l + sizeof(i << l) * 1000000000l; }', 'int s_i{n}; long t_{n}(void) { sizeof(s_i{n}++); return sizeof(s_i{n} = 5) + s_i{n}; }']
    c.add_fns('typ', out, per=24)
    c.units.sort(key=lambda u: u.name.startswith('typ'))
    c.run_units(deadline=c.pick(240, 3000)); c.validate_samples(c.pick(4, 20))
    return c.finish()
