"""P22: scope, linkage and storage. Programs reuse a few names as objects, typedefs, enumerators, tags, members, labels and parameters in
nested scopes; static objects of several files share names; declarations are repeated, tentative, extern after static and so on. Results and
the exported objects are compared with the reference, in which the names of different files are made distinct."""
from check import *
from corpus import *
NM = ['a', 'b', 'c', 'd']
IT = ['char', 'unsigned char', 'short', 'int', 'int', 'unsigned', 'long', 'unsigned long', 'unsigned short']
class S:
    """generates one function from a dictionary of the visible names: name -> (kind, type)"""
    def __init__(s, r, n): s.r = r; s.o = 0; s.lab = 0; s.forks = 0
    def val(s, env):
        r = s.r; c = []
        for k, (kind, t) in env.items():
            if kind == 'var': c.append(k)
            elif kind == 'arr': c += [k + '[%d]' % r.randrange(t[1]), '(int) sizeof(%s)' % k]
            elif kind == 'enum': c.append(k)
            elif kind == 'typ': c += ['(%s) x' % k, '(int) sizeof(%s)' % k]
            elif kind == 'fun': c.append('%s(%d)' % (k, r.randrange(9)))
            elif kind == 'str': c += [k + '.' + r.choice(NM) + '{n}', '(int) sizeof(%s)' % k]
            elif kind == 'tag': c.append('(int) sizeof(struct %s)' % k[1:])
            elif kind == 'etag': c.append('(int) (enum %s) 1' % k[1:])
        return r.choice(c + ['x', str(r.randrange(100))])
    def lv(s, env):
        c = [k for k, (kind, t) in env.items() if kind == 'var'] + [k + '[%d]' % s.r.randrange(t[1]) for k, (kind, t) in env.items() if kind == 'arr'] + [k + '.%s{n}' % s.r.choice(NM) for k, (kind, t) in env.items() if kind == 'str']
        return s.r.choice(c) if c else None
    def decl(s, env, here, file=False):
        """declares a name not yet declared in this scope"""
        r = s.r; m = r.choice(NM) + '{n}'; k = r.choice(['var', 'var', 'var', 'stat', 'typ', 'enum', 'arr', 'tag', 'str', 'ext', 'tvar', 'self', 'etag', 'enumv', 'fwd'])
        t = r.choice(IT); v = str(r.randrange(-3, 120))
        if k in ('tag', 'etag', 'fwd'):
            if '#' + m in here: return ''
            here.add('#' + m)
            if k == 'etag': env['#' + m] = ('etag', 0); e = 'E%d_{n}' % (s.r.randrange(10 ** 9)); return 'enum %s { %s = %s };' % (m, e, v)
            env['#' + m] = ('tag', 0); x = ''.join(' %s %s{n}%s;' % (r.choice(IT), q, r.choice(['', '', '[3]'])) for q in r.sample(NM, r.randrange(1, 4)))
            return ('struct %s; ' % m if k == 'fwd' else '') + 'struct %s {%s };' % (m, x)
        if m in here or k == 'stat' and not file and m in s.stats: return ''
        if k == 'stat' and not file: s.stats.add(m) # clang and wcc number equally named static objects of a function differently
        if k == 'tvar':
            ts = [q for q, (kk, _) in env.items() if kk == 'typ' and q != m]
            if not ts: return ''
            here.add(m); q = r.choice(ts + [m] if env.get(m, ('', 0))[0] == 'typ' else ts); env[m] = ('var', 0); return '%s %s = %s;' % (q, m, v)
        here.add(m)
        if k in ('var', 'ext') and file and 0: pass
        if k == 'self' and env.get(m, ('', 0))[0] == 'typ': env[m] = ('var', 0); return '%s %s = %s;' % (m, m, v)
        if k == 'self' and env.get(m, ('', 0))[0] == 'var': # the new name is visible in its own initializer
            env[m] = ('var', 0); return 'int %s = (int) sizeof(%s);' % (m, m)
        if k == 'stat': env[m] = ('var', t); return 'static %s %s%s;' % (t, m, r.choice(['', ' = ' + v]))
        if k == 'typ': env[m] = ('typ', t); return r.choice(['typedef %s %s;', '%s typedef %s;'][:1]) % (t, m)
        if k in ('enum', 'enumv'): env[m] = ('enum', 0); return 'enum { %s = %s };' % (m, v) if k == 'enum' else 'int E%d_{n} = sizeof(enum { %s = %s });' % (r.randrange(10 ** 9), m, v)
        if k == 'arr': z = r.randrange(1, 5); env[m] = ('arr', (t, z)); return '%s %s[%d] = { %s };' % (t, m, z, ', '.join(str(r.randrange(100)) for _ in range(z)))
        if k == 'str': env[m] = ('str', 0); return 'struct { %s } %s = { 1, 2, 3, 4 };' % (' '.join('%s %s{n};' % (r.choice(IT), q) for q in r.sample(NM, 4)), m)
        if k == 'ext' and not file and s.file.get(m, ('', 0))[0] in ('var', 'arr'):
            kk, tt = s.file[m]; env[m] = (kk, tt); return 'extern %s %s%s;' % (tt if kk == 'var' else tt[0], m, '' if kk == 'var' else '[%d]' % tt[1])
        env[m] = ('var', t); return '%s %s = %s;' % (t, m, v if file or r.random() < .6 else '(%s) x' % t)
    def block(s, env, d, params=()):
        r = s.r; env = dict(env); here = set(params); o = '{ '
        for _ in range(r.randrange(0, 4)): o += s.decl(env, here) + ' '
        for _ in range(r.randrange(1, 5)):
            x = r.random(); l = s.lv(env)
            if x < .3 and d: o += s.block(env, d - 1) + ' '
            elif x < .4 and d and s.forks < 2: s.forks += 1; o += 'if (%s > %d) %s else %s ' % (s.val(env), r.randrange(50), s.block(env, d - 1), s.block(env, d - 1))
            elif x < .46 and d: o += 'for (z = 0; z < 2; z++) %s ' % s.block({k: v for k, v in env.items()}, 0).replace('{ ', '{ ', 1)
            elif x < .6 and l: o += '%s %s %s; ' % (l, r.choice(['=', '+=', '-=']), s.val(env))
            elif x < .66 and l: o += l + '++; '
            elif x < .7: s.lab += 1; m = s.labs.pop() if s.labs else None; o += ('if (x == %d) goto %s; h{n} = h{n} * 3 + 1; %s: ' % (r.randrange(9), m, m)) if m and s.forks < 2 else ''; s.forks += bool(m); o += 'h{n}++; '
            else: o += 'h{n} = h{n} * 5 + (%s); ' % s.val(env)
        return o + '}'
    def prog(s):
        r = s.r; env = {}; here = set(); o = 'unsigned long h{n}; '; s.file = {}
        for _ in range(r.randrange(1, 5)): o += s.decl(env, here, True) + '\n'
        s.file = {k: v for k, v in env.items() if 'static %s %s' % (v[1], k) not in o and v[0] in ('var', 'arr') and v[1]}
        f = ''
        for i in range(r.randrange(1, 3)):
            s.stats = set(); s.labs = [q + '{n}' for q in r.sample(NM, 4)]; p = r.choice(NM) + '{n}' if r.random() < .5 else ''; e = dict(env)
            if p: e[p] = ('var', 'int')
            q = r.random(); P = ('int x' if not p else 'int x, %s %s' % (r.choice(IT), p)) + ''
            f += r.choice(['static ', '']) + 'int f%d_{n}(%s) { int z; %s return (int) h{n}; }\n' % (i, P, s.block(e, 2, [p] if p else []).strip()); g = 'f%d_{n}' % i
            f += 'int t_{n}_%d(int x%s) { %s; %s; return %s; }\n' % (i, ', int y' if p else '', *(['%s(x, y)' % g, '%s(x + 1, y)' % g, '%s(1, 2)' % g] if p else ['%s(x)' % g, '%s(x + 1)' % g, '%s(1)' % g]))
        return o + f
def files(r, i):
    """(file compiled by wcc, other file, the same in one file): objects and functions of two files with the same names"""
    t = r.choice(IT); u = r.choice(IT); v, w = r.randrange(1, 100), r.randrange(100, 120); x = i % 12; c = lambda *a: r.choice(a)
    B = 'static'
    if x == 0: a = 'static %s v{n}%s; int q{n}(void); int t_{n}(%s p) { v{n} += p; return q{n}() * 2 + v{n}; }' % (t, c('', ' = %d' % v), t); b = '%s %s v{n} = %d; int q{n}(void) { return v{n}++; }' % (c('static', ''), u, w)
    elif x == 1: a = 'static int f{n}(int a) { return a + %d; } int q{n}(int); int t_{n}(int p) { return f{n}(p) ^ q{n}(p); }' % v; b = '%s int f{n}(int a) { return a - %d; } int q{n}(int a) { return f{n}(a); }' % (c('static', ''), w)
    elif x == 2: a = 'extern %s v{n}; %s *q{n}(void); int t_{n}(%s p) { v{n} = p; return *q{n}() == p; }' % (t, t, t); b = '%s v{n} = %d; %s *q{n}(void) { return &v{n}; }' % (t, w, t)
    elif x == 3: a = '%s v{n}; %s v{n}; extern %s v{n}; %s *q{n}(void); int t_{n}(%s p) { v{n} = p; return *q{n}() == p && q{n}() == &v{n}; }' % ((t,) * 5); b = 'extern %s v{n}; %s *q{n}(void) { return &v{n}; }' % (t, t)
    elif x == 4: a = 'int f{n}(int); int q{n}(int); int t_{n}(int p) { return q{n}(p) + f{n}(p); } int f{n}(int a) { static int v{n} = %d; return v{n} += a; }' % v; b = 'extern int f{n}(int); static int v{n} = %d; int q{n}(int a) { return f{n}(a) - v{n}--; }' % w
    elif x == 5: a = 'static int f{n}(int); int (*q{n}(int (*)(int)))(int); int t_{n}(int p) { return q{n}(f{n})(p); } static int f{n}(int a) { return a * 3 + %d; }' % v; b = 'static int f{n}(int a) { return a - %d; } int (*q{n}(int (*g)(int)))(int) { return g(1) > 5 ? g : f{n}; }' % w
    elif x == 6: a = 'int q{n}(void); int t_{n}(int p) { extern %s v{n}; { int v{n} = p; { extern %s v{n}; v{n} = %d; } p = v{n}; } return q{n}() + v{n} + p; }' % (t, t, v); b = '%s v{n}; int q{n}(void) { return v{n}; }' % t
    elif x == 7: a = 'static %s v{n}; extern %s v{n}; int q{n}(void); int t_{n}(%s p) { extern %s v{n}; v{n} += p; return v{n} - q{n}(); }' % ((t,) * 4); b = '%s %s v{n} = %d; int q{n}(void) { return v{n}; }' % (c('static', ''), u, w)
    elif x == 8: a = 'int q{n}(int); static int g{n}(int a) { static int v{n} = %d; v{n} += a; return v{n}; } static int h{n}(int a) { static int v{n} = 7; v{n} -= a; return v{n}; } int t_{n}(int p) { { static int v{n}; v{n} ^= p; p += v{n}; } return g{n}(p) + h{n}(p) * 2 + g{n}(1) * 4 + q{n}(p); }' % v; b = 'static int v{n} = %d; int g{n}; int q{n}(int a) { g{n} += a; return g{n} - v{n}; }' % w
    elif x == 9: a = 'extern %s v{n}[]; int q{n}(int); %s v{n}[%d]; int t_{n}(unsigned char i, %s p) { v{n}[i %% %d] = p; return q{n}(i %% %d) + sizeof(v{n}); }' % (t, t, 2 + v % 4, t, 2 + v % 4, 2 + v % 4); b = 'extern %s v{n}[]; int q{n}(int i) { return v{n}[i]; }' % t
    elif x == 10: a = 'typedef int v{n}; int q{n}(void); static v{n} w{n} = %d; int t_{n}(v{n} p) { struct v{n} { char v{n}; } z; z.v{n} = (char) p; w{n}++; return z.v{n} + q{n}() + w{n}; }' % v; b = 'int v{n} = %d; int w{n} = 4; int q{n}(void) { return v{n} + w{n}++; }' % w
    else: a = 'int v{n} = %d; int q{n}(int); int f{n}(void) { return v{n}++; } int t_{n}(int p) { int v{n} = p; { int v{n} = f{n}(); p += v{n}; } return v{n} + q{n}(p); }' % v; b = 'extern int v{n}; int f{n}(void); int q{n}(int a) { return f{n}() * a + v{n}; }'
    return a, b
FIX = ['typedef int a{n}; int t_{n}(int x) { a{n} a{n} = x; return a{n} + (int) sizeof(a{n}); }', 'typedef char a{n}; int t_{n}(int x) { int r = sizeof(a{n}); { long a{n}; a{n} = x; r += sizeof(a{n}) + a{n}; } { a{n} b = (a{n}) x; r += b; } return r; }',
       'struct s{n} { char c; }; int t_{n}(int s{n}) { struct s{n} x; { struct s{n} { long l[3]; }; struct s{n} x; s{n} += sizeof(x) + sizeof(struct s{n}); } return s{n} * 10 + sizeof(x); }',
       'struct s{n} { char c; }; int t_{n}(int p) { struct s{n}; struct s{n} { int s{n}; } y; y.s{n} = p; s{n}: if (y.s{n} > 5) { y.s{n} -= 5; if (y.s{n} < 9) goto s{n}; } return y.s{n} + sizeof(struct s{n}); }',
       'enum { A{n} = 3 }; int t_{n}(int p) { int r = A{n}; enum { A{n} = 7 }; r += A{n} * p; { enum { B{n} = A{n} + 1, A{n} }; r += A{n} + B{n}; } return r + A{n}; }',
       'int x{n} = 5; int t_{n}(int p) { int y = x{n}; int x{n} = p; { extern int x{n}; x{n} += p; y += x{n}; } return y * 3 + x{n}; }', 'int f{n}(int a, int b); int t_{n}(int b) { int f(int t_{n}, int b); return f{n}(b, 2); } int f{n}(int b, int a) { return a - b; }',
       'int n{n}(void) { static int c = 5; return c++; } int m{n}(void) { static int c = 50; return c--; } int t_{n}(int x) { int r = n{n}() + m{n}(); if (x) r = r * 3 + n{n}(); return r * 7 + n{n}() * m{n}(); }',
       'int t_{n}(int x) { int i, r = 0; for (i = 0; i < 3; i++) { static int k = 2; int l = 1; k += x; l += k; r = r * 5 + l; } return r; }', 'static int a{n}; int *p{n} = &a{n}; static int a{n} = 4; int t_{n}(int x) { *p{n} += x; return a{n}; }',
       'int a{n}; int a{n}; extern int a{n}; int a{n} = 6; int t_{n}(int x) { return a{n} += x; }', 'static int a{n}(int); int t_{n}(int x) { return a{n}(x) + a{n}(2); } static int a{n}(int x) { return x * 3; }', 
       'struct a{n} { struct b{n} { int x; } b{n}; int x; }; int t_{n}(int x) { struct b{n} b{n}; struct a{n} a{n}; b{n}.x = x; a{n}.b{n} = b{n}; a{n}.x = 4; return a{n}.b{n}.x + a{n}.x; }', 'int t_{n}(int x) { struct l { struct l *n; int v; } a, b; a.n = &b; b.n = &a; a.v = x; b.v = 3; return a.n->n->v + a.n->v; }',
       'typedef struct s{n} s{n}; struct s{n} { s{n} *s{n}; int t; }; int t_{n}(int x) { s{n} a; a.s{n} = &a; a.t = x; return a.s{n}->s{n}->t; }', 'typedef struct s{n} *p{n}; struct s{n} { int x; p{n} p{n}; }; int t_{n}(int x) { struct s{n} a; p{n} q = &a; q->p{n} = q; q->p{n}->x = x; return a.x; }',
       'int t_{n}(int a, int b) { if (a) { int a = b; b = a + 1; { int b = 7; a += b; } b += a; } else { int b = 3; a = b; } return a * 5 + b; }', 'int t_{n}(int a) { int r = 0; switch (a & 3) { int k; case 0: k = 1; r = k; break; case 1: k = a; r = k + 1; { int r = 9; k += r; } r += k; default: k = 5; r ^= k; } return r; }',
       'int v{n}; int f{n}() { return v{n}++; } int t_{n}(int x) { int f{n}(); v{n} = x; f{n}(); { extern int f{n}(void); return f{n}() * 3 + v{n}; } }', 'const int c{n} = 9; static const int d{n}[] = { 1, 2, c{n} - c{n} + 0 };'[:19] + ' int t_{n}(int x) { return c{n} * x; }',
       'int t_{n}(int x) { goto x; { x: x++; } return x; }', 'union u{n} { int u{n}; char c[4]; }; int t_{n}(int x) { union u{n} u{n}; u{n}.u{n} = x; return u{n}.c[1]; }', 'int t_{n}(int x) { typedef int T; { T T = x; { T++; } x = T; } { T y = x + 1; return y; } }',
       'typedef long T{n}; long f{n}(T{n} T{n}) { return T{n} * 2; } T{n} t_{n}(T{n} x) { return f{n}(x); }', 'typedef int T{n}; struct S{n} { T{n} T{n}; unsigned T{n}_b; }; T{n} t_{n}(T{n} x) { struct S{n} s; s.T{n} = x; s.T{n}_b = 1; return s.T{n} + s.T{n}_b; }',
       'enum e{n} { X{n} = -1, Y{n} }; enum e{n} t_{n}(enum e{n} e{n}) { enum e{n} z = e{n}; { enum e{n} { X{n} = 5, Q{n} = -1 }; int w = X{n}; z = z == w ? Y{n} : X{n} - 6; } return z; }', 'int t_{n}(int x) { int y = x; { int x = y + 1, y = x * 2; { int x = y; y = x + 1; } return x ^ y; } }',
       'static int t{n}[3] = { 1, 2, 3 }; int t_{n}(int x) { static int *p = t{n} + 1; int s = *p; (*p) += x; return s + t{n}[1]; }', 'int t_{n}(int x) { static struct { int a; char *s; } q[] = { { 1, "x" }, { 2, "yz" } }; q[0].a += x; return q[0].a + q[1].s[1] + sizeof(q); }']
def main(tier):
    c = Check('P22', 'scope, linkage and storage', 'translation_validation', tier); r = c.rnd
    c.add_fns('fix', FIX, per=8)
    c.add_fns('stfn', ['static int a{n}(int); int t_{n}(int x) { int (*p)(int) = a{n}; return p(x); } int a{n}(int x) { return x * 3; }'], per=1) # known finding: rejected
    c.add_fns('scp', [S(r, i).prog() for i in range(c.pick(400, 5000))], per=8)
    per = 8; fs = [files(r, i) for i in range(c.pick(96, 960))]
    for k in range(0, len(fs), per):
        w = b = y = ''
        for j, (m, o) in enumerate(fs[k:k + per]):
            w += m.replace('{n}', str(j)) + '\n'; b += o.replace('{n}', str(j)) + '\n'
            loc = [x for x in re.findall(r'\b[a-z]\w*(?=%d\b)' % j, o.replace('{n}', str(j))) if x in 'vfgw'] # names of the other file that its own file defines privately or that hide private ones of the first
            y += o.replace('{n}', str(j)) + '\n'
        # names that are private to one of the files are renamed in the one-file version
        for j, (m, o) in enumerate(fs[k:k + per]):
            for x in ('v', 'f', 'g', 'w'):
                priv = re.search(r'static [\w{} ]*?\b%s\{n\}' % x, m) or re.search(r'static [\w{} ]*?\b%s\{n\}' % x, o) or 'typedef int %s{n}' % x in m
                if priv: y = re.sub(r'\b%s%d\b' % (x, j), 'B%s%d' % (x, j), y)
        c.add(Unit('two%d' % (k // per), w, refsrc=w + y, asmsrc=[b], flags=('-fPIC',) if k % 3 == 2 else (), opts={'partial': 1}))
    c.run_units(deadline=c.pick(300, 3000)); c.validate_samples(c.pick(4, 20))
    return c.finish()
