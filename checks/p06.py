"""P06: structures, unions and bit-fields."""
from check import *
from corpus import *
SC = ['char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned', 'long', 'unsigned long', 'float', 'double', 'char *', 'long double', 'enum E{n}']
def corpus(r, quick):
    out = []
    def some(l, k): return r.sample(l, min(k, len(l))) if quick else l
    # ---- bit-fields: a random layout, one field read, written, updated; the neighbours are compared through the whole object
    def bitlayout(k):
        fs = []; i = 0
        for j in range(k):
            x = r.random()
            if x < .08: fs.append(('int', None, 0)); continue
            if x < .13: fs.append((r.choice(['int', 'unsigned']), None, r.randrange(1, 12))); continue
            if x < .26: fs.append((r.choice(['char', 'short', 'int', 'long', 'unsigned char']), 'm%d' % i, None)); i += 1; continue
            fs.append((r.choice(['int', 'unsigned', 'unsigned int', 'signed int']), 'm%d' % i, r.choice([1, 1, 2, 3, 4, 5, 7, 8, 8, 9, 12, 15, 16, 16, 17, 20, 23, 24, 25, 31, 32, 32]))); i += 1
        return fs
    def text(fs): return ' '.join('%s %s%s;' % (t, n or '', '' if w is None else ' : %d' % w) for t, n, w in fs)
    ops = ['{m} = v; return {m};', 'return {m};', '{m} = v; return 0;', 'return {m} = v;', '{m} += v; return {m};', 'return {m} += v;', 'return ++{m};', 'return {m}++;', 'return {m}--;', '--{m}; return {m};', '{m} |= v; return 0;', '{m} ^= v & 5; return {m};', '{m} <<= 1; return {m};', '{m} >>= 1; return {m};', 'return {m} < v;', 'return {m} == v;', 'return -{m} + v;', 'return {m} > -1;', 'if ({m}) return 1; return 2;', 'return !{m};', 'return {m} ? v : 3;', '{o} = {m}; return {o};', '{m} = {o}; return {m};', 'return {m} + {o};', 'return {m} * {o};', '{m} = {o} = v; return 0;', '{m} = -1; return {m};', '{m} = 0; return {o};', '{m} = 1; {o} = 2; return {m} * 8 + {o};', 'return ({m} << 1) + ({m} >> 1);', 'return ~{m};', 'return (unsigned char) {m};', 'return (long) {m} * 3;', '{m} = {m} + 1; return {o};', 'return {m} && {o};', '{m} -= {o}; return 0;', '{m} = v > 5; return {m};', '{m} *= 3; return {m};', '{m} = (char) v; return 0;', 'return sizeof(S);']
    where = [('struct S{n} s_b{n};', '', 's_b{n}.'), ('struct S{n} s_b{n};', 'struct S{n} *p = &s_b{n};', 'p->'), ('struct S{n} s_b{n};', 'struct S{n} l; l = s_b{n};', 'l.'), ('struct S{n} s_b{n}[3];', '', 's_b{n}[i & 1].'), ('struct W{n} { char c; struct S{n} s; } s_b{n};', '', 's_b{n}.s.'), ('struct S{n} s_b{n}[3];', 'struct S{n} *p = s_b{n} + 1;', 'p->'), ('union U{n} { struct S{n} s; unsigned char raw[24]; } s_b{n};', '', 's_b{n}.s.')]
    for i in range(260 if quick else 5000):
        fs = bitlayout(r.choice([1, 2, 2, 3, 3, 4, 5, 7])); bf = [n for t, n, w in fs if n and w]; al = [n for t, n, w in fs if n]
        if not bf: continue
        g, d, a = r.choice(where); m = r.choice(bf); o = r.choice(al); t = r.choice(['int', 'long', 'unsigned', 'short', 'unsigned char', 'unsigned long', 'char'])
        b = r.choice(ops)
        if o == m and b.count('{m} = {o}'): continue
        b = b.replace('{m}', a + m).replace('{o}', a + o).replace('sizeof(S)', 'sizeof(struct S{n})')
        tail = ' static struct S{n} z;' if False else ''
        if a.startswith('l.') and not b.startswith('return'): d += ' ' ; b = b.replace('return', 's_b{n} = l; return', 1)
        out.append('struct S{n} { %s }; %s long t_{n}(%s v, int i) { %s %s }' % (text(fs), g, t, d, b))
    for w in range(1, 33):
        for s in ['int', 'unsigned']:
            for f in some(['{ s_b{n}.m = v; return s_b{n}.m; }', '{ s_b{n}.m += v; return s_b{n}.a; }', '{ struct S{n} l; l.a = 1; l.m = v; l.z = 2; return l.m + l.a * 2 + l.z; }', '{ return s_b{n}.m - v; }', '{ return (int) s_b{n}.m++ + s_b{n}.z; }', '{ s_b{n}.z = v; return s_b{n}.m; }', '{ return (s_b{n}.m < 0) + (s_b{n}.m == v) * 2; }'], 2):
                pre = r.choice([0, 1, 3, 8, 15, 31, 5])
                out.append('struct S{n} { unsigned a : %d; %s m : %d; int z : %d; } s_b{n}; long t_{n}(%s v) %s' % (max(pre, 1), s, w, r.choice([1, 4, 7, 16, 32]), r.choice(['int', 'long', 'unsigned', 'char']), f))
    # unions with bit-fields; nested anonymous use; bit-fields and side effects
    out += ['union U{n} { int a : 5; unsigned b : 9; int c; } s_u{n}; long t_{n}(int v) { s_u{n}.b = v; return s_u{n}.a * 100 + s_u{n}.c; }', 'union U{n} { unsigned b : 3; char c; long l; } s_u{n}; long t_{n}(int v) { s_u{n}.b = v; return s_u{n}.c; }', 'struct S{n} { unsigned a : 4, b : 4, c : 8; } s_b{n}[2]; int g{n}; struct S{n} *f{n}(void) { g{n}++; return &s_b{n}[1]; } long t_{n}(int v) { f{n}()->b += v; return f{n}()->b + g{n}; }', 'struct S{n} { int a : 3; int b : 3; }; long t_{n}(int v) { struct S{n} x, y; x.a = v; x.b = v >> 3; y = x; y.a = 1; return x.a * 16 + y.b * 4 + y.a; }', 'struct S{n} { unsigned a : 1, b : 1, c : 30; }; long t_{n}(int v, int w) { struct S{n} x; x.a = v > 0; x.b = w > 0; x.c = v; if (x.a && !x.b) return x.c; return x.a + x.b * 2; }', 'struct S{n} { long a; int b : 7; int c : 25; } s_b{n}; long t_{n}(struct S{n} *p, int v) { p = &s_b{n}; p->c = v; return p->b + p->a; }', 'struct S{n} { enum { A{n} = -1, B{n}, C{n} } e : 8; int x; } s_b{n}; long t_{n}(int v) { s_b{n}.x = v; return s_b{n}.x; }' if False else 'struct S{n} { unsigned short a; unsigned b : 16; } s_b{n}; long t_{n}(int v) { s_b{n}.b = v; return s_b{n}.a + sizeof(struct S{n}); }']
    # ---- structures and unions: members, copies, nesting
    def layout(k, depth):
        ms = []; k2 = 0
        for j in range(k):
            x = r.random(); t = r.choice(SC)
            if depth and x < .18: ms.append('struct { %s } m%d;' % (layout(r.randrange(1, 4), 0)[0], j)); 
            elif depth and x < .27: ms.append('union { %s } m%d;' % (layout(r.randrange(1, 4), 0)[0], j))
            elif x < .45: ms.append('%s m%d[%d];' % (t, j, r.randrange(1, 6)))
            else: ms.append('%s m%d;' % (t, j))
        return ' '.join(ms), k
    pre = 'enum E{n} { EA{n} = -1, EB{n} }; '
    body = ['s_x{n} = s_y{n}; return 0;', 's_x{n} = *&s_y{n}; return sizeof(s_x{n});', '{ struct S{n} l; l = s_y{n}; s_x{n} = l; return 0; }', '{ struct S{n} l = s_y{n}, *p = &s_x{n}; *p = l; return 0; }', '{ struct S{n} *p = &s_x{n}, *q = &s_y{n}; *p = *q; return p == q; }', '{ struct S{n} l[2]; l[i & 1] = s_y{n}; l[(i + 1) & 1] = s_x{n}; s_x{n} = l[0]; return 0; }', 's_z{n}[i & 1] = s_y{n}; return 0;', 's_z{n}[0] = s_z{n}[i & 1]; return 0;', '{ struct S{n} t; t = s_x{n}; s_x{n} = s_y{n}; s_y{n} = t; return 0; }', 's_x{n} = s_y{n} = s_z{n}[1]; return 0;', 's_x{n} = i ? s_y{n} : s_z{n}[0]; return 0;', 's_x{n} = f{n}(s_y{n}); return 0;', '{ struct S{n} l; l = f{n}(s_z{n}[i & 1]); s_x{n} = l; return 0; }', 's_w{n}.s = s_y{n}; return s_w{n}.c;', '{ struct W{n} l; l = s_w{n}; s_x{n} = l.s; return l.c + l.d; }', 'g{n}(&s_x{n}, s_y{n}); return 0;', '(i ? (s_x{n} = s_y{n}) : (s_y{n} = s_x{n})); return 0;', 's_x{n} = (i++, s_y{n}); return i;', 's_v{n}.s = s_y{n}; return s_v{n}.c;']
    for i in range(90 if quick else 2000):
        lay = layout(r.choice([1, 1, 2, 2, 3, 3, 4, 6]), 1)[0]; ku = r.choice(['struct', 'struct', 'struct', 'union']) if 'double' not in lay or 'long double' not in lay else 'struct'
        b = r.choice(body); b = b.replace('struct S{n}', ku + ' S{n}')
        out.append(pre + '%s S{n} { %s }; %s S{n} s_x{n}, s_y{n}, s_z{n}[2]; struct W{n} { char c; %s S{n} s; char d; } s_w{n}; union V{n} { char c; %s S{n} s; } s_v{n}; %s S{n} f{n}(%s S{n} p) { return p; } void g{n}(%s S{n} *q, %s S{n} p) { *q = p; } long t_{n}(int i) { %s }' % (ku, lay, ku, ku, ku, ku, ku, ku, ku, b))
    # sizes 1 to 70 and odd tails, to catch a wrong copy length; the guard bytes are compared too
    for sz in (sorted(r.sample(range(1, 72), 26)) + [1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 24, 25, 31, 32, 33] if quick else range(1, 140)):
        for b in some(['s_g{n}.s = s_y{n}; return 0;', '{ struct S{n} l; l = s_y{n}; s_g{n}.s = l; return 0; }', '{ struct G{n} l; l = s_g{n}; l.s = s_y{n}; s_g{n} = l; return 0; }', '{ struct S{n} *p = &s_g{n}.s; *p = s_y{n}; return 0; }', '{ struct S{n} *p = &s_y{n}; s_g{n}.s = *p; return 0; }', 's_g{n}.s = f{n}(); return 0;', 'g{n}(s_y{n}); return 0;'], 2):
            out.append('struct S{n} { char c[%d]; } s_y{n}; struct G{n} { char a; struct S{n} s; char b; } s_g{n}; struct S{n} f{n}(void) { return s_y{n}; } void g{n}(struct S{n} x) { s_g{n}.s = x; } long t_{n}(int i) { %s }' % (sz, b))
    # member access through every route
    for t in SC[:10]:
        T4 = t
        out += [x.replace('%t', t) for x in some(['struct S{n} { char c; %t m; char d; } s_x{n}; %t t_{n}(%t v) { s_x{n}.m = v; return s_x{n}.m; }', 'struct S{n} { char c; struct { short q; %t m; } in; } s_x{n}[2]; %t t_{n}(%t v, int i) { s_x{n}[i & 1].in.m = v; return (&s_x{n}[0].in)->m; }', 'union U{n} { %t m; unsigned char b[8]; } s_x{n}; int t_{n}(%t v, int i) { s_x{n}.m = v; return s_x{n}.b[i & (sizeof(v) - 1)]; }', 'union U{n} { %t m; unsigned char b[8]; long l; }; long t_{n}(%t v) { union U{n} u; u.l = 0; u.m = v; return u.l; }', 'struct S{n} { %t a[3]; char z; } s_x{n}; %t t_{n}(int i, %t v) { struct S{n} *p = &s_x{n}; p->a[i & 1] = v; return p->a[1] + p->z; }', 'struct S{n} { struct S{n} *n; %t m; } s_x{n}, s_y{n}; %t t_{n}(%t v) { s_x{n}.n = &s_y{n}; s_y{n}.n = &s_x{n}; s_x{n}.n->m = v; return s_x{n}.n->n->m; }', 'struct S{n} { %t m; char c; } s_x{n}; %t *f{n}(void) { return &s_x{n}.m; } %t t_{n}(%t v) { *f{n}() = v; return s_x{n}.m; }', 'struct S{n} { char c; %t m; } f{n}(%t v) { struct S{n} x; x.c = 1; x.m = v; return x; } %t t_{n}(%t v) { return f{n}(v).m; }', 'struct S{n} { %t m; int k; } s_x{n}; %t t_{n}(int i) { struct S{n} l; l = s_x{n}; l.m++; l.k += i; s_x{n} = l; return l.m; }', 'struct S{n} { struct { struct { %t m; } a[2]; } b; } s_x{n}; %t t_{n}(int i, %t v) { s_x{n}.b.a[i & 1].m = v; return s_x{n}.b.a[0].m; }', 'struct S{n} { char c; union { %t m; char z; } u; } s_x{n}; %t t_{n}(%t v) { s_x{n}.u.m = v; s_x{n}.c = 3; return s_x{n}.u.m; }', 'struct S{n} { %t m; }; %t t_{n}(%t v) { struct S{n} a, b; a.m = v; b = a; a.m = 3; return b.m; }', 'struct S{n} { char c; %t m; }; long t_{n}(void) { return (long) &((struct S{n} *) 0)->m + sizeof(struct S{n}) * 100; }'], 7)]
    out += ['struct A{n} { int x; struct { int y; int z; }; } s_a{n}; long t_{n}(int v) { s_a{n}.z = v; return s_a{n}.y; }' if False else 'typedef struct { int x, y; } P{n}; P{n} add{n}(P{n} a, P{n} b) { P{n} r; r.x = a.x + b.x; r.y = a.y + b.y; return r; } long t_{n}(int a, int b) { P{n} p, q; p.x = a; p.y = b; q = add{n}(p, p); return add{n}(q, p).x * 3 + q.y; }', 'struct S{n} { int a; }; struct T{n} { struct S{n} s; struct S{n} *p; }; long t_{n}(int v) { struct T{n} t; struct S{n} u; u.a = v; t.p = &u; t.s = *t.p; t.p->a = 3; return t.s.a * 10 + u.a; }']
    return out
def main(tier):
    c = Check('P06', 'structures, unions and bit-fields', 'translation_validation', tier); r = c.rnd
    fs = corpus(r, c.quick); r.shuffle(fs); c.add_fns('st', fs, per=12)
    c.run_units(deadline=c.pick(240, 3000)); c.validate_samples(c.pick(4, 20))
    return c.finish()
