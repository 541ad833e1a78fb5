"""P07: function calls and returns follow the System V x86-64 ABI."""
from check import *
from corpus import *
import re
INT = T + ['char *', 'enum E{n}']; FP = ['float', 'double', 'long double']
def struct(r, name, kind=None):
    """text of a struct or union declaration"""
    x = r.random(); kind = kind or r.choice(['int', 'fp', 'mix', 'mix', 'arr', 'nest', 'big', 'union', 'bits', 'ld', 'pad'])
    def m(ts, k): return ' '.join('%s m%d;' % (r.choice(ts), i) for i in range(k))
    if kind == 'int': b = m(T, r.randrange(1, 5))
    elif kind == 'fp': b = m(['float', 'double'], r.randrange(1, 5))
    elif kind == 'mix': b = m(T + ['float', 'double', 'float', 'char *'], r.randrange(1, 5))
    elif kind == 'arr': b = '%s m0[%d];' % (r.choice(T + ['float', 'double']), r.randrange(1, 6)) + (m(T, 1).replace('m0', 'm1') if x < .4 else '')
    elif kind == 'nest': b = 'struct { %s } n0; %s' % (m(T + FP[:2], r.randrange(1, 3)), m(T + FP[:2], r.randrange(1, 3)))
    elif kind == 'big': b = '%s m0[%d]; %s m1;' % (r.choice(T + FP[:2]), r.randrange(3, 14), r.choice(T + FP[:2]))
    elif kind == 'union': return 'union %s { %s };' % (name, m(T + FP[:2], r.randrange(1, 4)) + (' char c[%d];' % r.choice([8, 16, 24, 32]) if x < .4 else ''))
    elif kind == 'bits': b = 'int m0 : %d; unsigned m1 : %d; %s m2;' % (r.randrange(1, 32), r.randrange(1, 32), r.choice(['char', 'int', 'long', 'float', 'double', 'short']))
    elif kind == 'ld': b = r.choice(['long double m0; long double m2;', 'long double m0; int m1;', 'char m0; long double m1;', 'long double m0[2];'])
    elif kind == 'ld1': b = 'long double m0;'
    else: b = '%s m0; %s m1; %s m2;' % (r.choice(['char', 'short', 'int', 'float']), r.choice(['long', 'double', 'int']), r.choice(['char', 'float', 'short']))
    return 'struct %s { %s };' % (name, b)
def prog(r, n, sig=None, ret=None, structs=None):
    """caller and callee on both sides of the boundary: (wcc text, clang text)"""
    decl = ['enum E%d { EA%d = -1, EB%d = 70000 };' % (n, n, n)]; tys = []
    def newstruct(kind=None):
        nm = 'S%d_%d' % (n, len(decl)); s = struct(r, nm, kind); decl.append(s); return s.split()[0] + ' ' + nm
    def ty(spec):
        if spec == 'I': t = r.choice(INT)
        elif spec == 'F': t = r.choice(['float', 'double'])
        elif spec == 'L': t = 'long double'
        elif spec == 'S': t = newstruct()
        elif spec[0] == '=': t = spec[1:]
        else: t = newstruct(spec)
        return t.replace('{n}', str(n))
    if sig is None: sig = [r.choice('IIIFFSSSL') for _ in range(r.choice([1, 2, 3, 4, 5, 6, 8, 10, 12]))]
    ps = [ty(s) for s in sig]; rt = ty(ret or r.choice(['I', 'F', 'L', 'S', 'S', '=void']))
    glob = ['%s %s;' % (t, x % (n, i)) for i, t in enumerate(ps) for x in ('s_a%d_%d', 's_g%d_%d', 's_h%d_%d')] + (['%s s_r%d; %s s_x%d; %s s_y%d;' % (rt, n, rt, n, rt, n)] if rt != 'void' else [])
    def fdecl(p): return '%s %s%d(%s)' % (rt, p, n, ', '.join('%s p%d' % (t, i) for i, t in enumerate(ps)) or 'void')
    def callee(p, g): return fdecl(p) + ' { ' + ' '.join('s_%s%d_%d = p%d;' % (g, n, i, i) for i in range(len(ps))) + (' return s_r%d; }' % n if rt != 'void' else ' }')
    args = ', '.join('s_a%d_%d' % (n, i) for i in range(len(ps)))
    def caller(t, p, x): return 'long %s%d(long k, double d) { long l = k * 3; %s%s%d(%s); return l + k + (d > 0); }' % (t, n, 's_%s%d = ' % (x, n) if rt != 'void' else '', p, n, args)
    w = '\n'.join(decl + glob + [fdecl('c') + ';', callee('w', 'g'), caller('t_w', 'c', 'x')])
    c = '\n'.join(decl + ['extern ' + g.replace('; ', '; extern ') for g in glob] + [fdecl('w') + ';', callee('c', 'h'), caller('t_c', 'w', 'y')])
    both = '\n'.join(decl + glob + [fdecl('c') + ';', callee('w', 'g'), caller('t_w', 'c', 'x'), callee('c', 'h'), caller('t_c', 'w', 'y')])
    return w, c, both
def corpus(r, quick):
    """direct: arguments and results straight from the harness"""
    out = []; S = ['int', 'fp', 'mix', 'arr', 'nest', 'big', 'union', 'bits', 'ld', 'pad']
    for i in range(60 if quick else 800):
        nm = 'S{n}'; k = r.choice(S); d = struct(r, nm, k); st = d.split()[0] + ' ' + nm; pre = 'enum E{n} { EA{n} = -1 }; %s ' % d
        ps = [r.choice([st, st, r.choice(INT), r.choice(FP)]) for _ in range(r.choice([1, 2, 3, 5, 7, 9, 12]))]
        if st not in ps: ps[0] = st
        j = [a for a in range(len(ps)) if ps[a] == st]; k2 = r.choice(j); pr = ', '.join('%s p%d' % x for x in zip(ps, range(99)))
        # padding bytes of a structure returned in registers are not part of its value: only structures without any are returned to the harness
        tr = st if k in ('fp', 'big') and len(set(re.findall(r'(?:float|double|char|short|int|long)', d))) == 1 else 'void'; ret = 'return' if tr == st else 's_r{n} ='; pre += '%s s_r{n}; ' % st
        out.append(pre + '%s t_{n}(%s) { %s p%d; }' % (tr, pr, ret, k2))
        g = r.randrange(len(ps)); out.append(pre + '%s s_g{n}; %s f{n}(%s) { s_g{n} = p%d; return p%d; } %s t_{n}(%s) { %s f{n}(%s); }' % (ps[g], st, pr, g, k2, tr, pr, ret, ', '.join('p%d' % x for x in range(len(ps)))))
    for k in range(1, 15):
        for t in (r.sample(INT + FP, 3) if quick else INT + FP):
            out.append('enum E{n} { EA{n} = -1 }; %s t_{n}(%s) { return p%d; }' % (t, ', '.join('%s p%d' % (t, i) for i in range(k)), k - 1))
            if t != 'char *' and t != 'enum E{n}': out.append('%s f{n}(%s) { return p0 - p%d; } %s t_{n}(%s) { return f{n}(%s); }' % (t, ', '.join('%s p%d' % (t, i) for i in range(k)), k - 1, t, ', '.join('%s p%d' % (t, i) for i in range(k)), ', '.join('p%d' % (k - 1 - i) for i in range(k))))
    out += ['long f{n}(); long t_{n}(int a, int b) { return f{n}(a, b); } long f{n}(int a, int b) { return a - b * 2; }', 'double f{n}(a, b) float a; int b; { return a + b; } double t_{n}(float x, int y) { return f{n}(x, y); }', 'int f{n}(a, b, c) char a; short b; unsigned char c; { return a * 3 + b - c; } int t_{n}(char x, short y, unsigned char z) { return f{n}(x, y, z); }',
            'long f{n}(long a, long b, long c, long d, long e, long f, long g, long h) { return a - b * 2 + c * 3 - d * 4 + e * 5 - f * 6 + g * 7 - h * 8; } long t_{n}(long a, long b) { return f{n}(a, b, a + 1, b + 1, a + 2, b + 2, a + 3, f{n}(b, a, 1, 2, 3, 4, 5, 6)); }',
            'double f{n}(double a, long b, double c, long d) { return d > b ? a : c; } double t_{n}(long a, double b, long c, double d) { return f{n}(f{n}(b, a, d, c), c, f{n}(d, c, b, a), a); }',
            'long double f{n}(long double a, int b, long double c) { return b ? a : c; } long double t_{n}(int i, long double x, long double y) { return f{n}(f{n}(x, i, y), !i, f{n}(y, i, x)); }',
            'struct P{n} { int x, y; }; struct P{n} f{n}(struct P{n} a, struct P{n} b) { a.x += b.y; a.y -= b.x; return a; } struct P{n} t_{n}(struct P{n} a, struct P{n} b) { return f{n}(f{n}(a, b), f{n}(b, a)); }',
            'struct P{n} { char c[40]; }; struct P{n} f{n}(struct P{n} a, int i) { a.c[i & 31]++; return a; } struct P{n} t_{n}(struct P{n} a, int i) { return f{n}(f{n}(a, i), i + 1); }',
            'struct P{n} { char c[40]; }; struct P{n} s_p{n}; struct P{n} f{n}(struct P{n} a, int i) { a.c[i & 31]++; return a; } int t_{n}(int i) { struct P{n} l; l = s_p{n}; s_p{n} = f{n}(l, i); return l.c[i & 31]; }',
            'struct P{n} { double x; int y; }; double t_{n}(struct P{n} a, struct P{n} b, struct P{n} c, struct P{n} d, struct P{n} e, struct P{n} f, struct P{n} g, struct P{n} h, struct P{n} i) { return i.x; }',
            'int (*s_f{n})(int); int f{n}(int (*g)(char, double), char c) { return g(c, 1.5); } int h{n}(char c, double d) { return c + (d > 1); } int t_{n}(char c) { return f{n}(h{n}, c); }']
    return out
def main(tier):
    c = Check('P07', 'calls and returns follow the ABI', 'translation_validation', tier); r = c.rnd
    n = 0
    def unit(name, sigs):
        nonlocal n
        ws = []; cs = []; bs = []
        for sig, ret in sigs: w, k, b = prog(r, n, sig, ret); n += 1; ws.append(w); cs.append(k); bs.append(b)
        c.add(Unit(name, '\n'.join(ws), refsrc='\n'.join(bs), asmsrc=['\n'.join(cs)]))
    K = ['int', 'fp', 'mix', 'arr', 'nest', 'big', 'union', 'bits', 'ld', 'pad', 'I', 'F', 'L']
    fixed = [([a] * k, b) for a in K for k in (1, 7) for b in (K if not c.quick else [r.choice(K)])]
    # the last registers: one eight-byte left for a two eight-byte structure, and the like
    for k in range(4, 7): fixed += [(['=long'] * k + ['mix', 'I', 'F', 'int'], 'S'), (['=double'] * (k + 2) + ['fp', 'F', 'I', 'mix'], 'S'), (['=int'] * k + ['=double'] * (k + 2) + ['pad', 'nest', 'union', 'I', 'F', 'L'], 'I')]
    rnd = [(None, None) for _ in range(c.pick(90, 1500))]; allp = fixed + rnd
    for i in range(0, len(allp), 6): unit('abi%d' % (i // 6), allp[i:i + 6])
    unit('ldarg', [(['ld1', 'I', 'ld1'], 'I'), (['I', 'ld1', 'S'], 'F')]); unit('ldret', [(['I'], 'ld1')])
    fs = corpus(r, c.quick); r.shuffle(fs); c.add_fns('dir', fs, per=12)
    c.run_units(deadline=c.pick(240, 3000)); c.validate_samples(c.pick(4, 20))
    return c.finish()
