"""P10: static (and automatic aggregate) initializers."""
from check import *
from corpus import *
from symsrc import *
INTS = ['char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned', 'long', 'unsigned long', 'signed char', 'enum E{n}']
FPS = ['float', 'double', 'long double']
BITS = {'int': 31, 'unsigned': 32, 'long': 63, 'unsigned long': 64}
PTRS = ['char *', 'int *', 'void *', 'FP{n} ']
CH = "abcxyz 019%;#/*'?"
STRESC = ['\\n', '\\t', '\\0', '\\\\', '\\"', "\\'", '\\x41', '\\377', '\\1', '\\xff', '\\a', '\\b', '\\f', '\\v', '\\r', '\\101']
class Ty: pass
class G:
    """One program: a type, its initializer as seen by wcc and by the reference"""
    def __init__(self, r, syms): self.r = r; self.s = SymSrc() if syms is None else syms; self.lits = 2; self.k = 0
    def scalar_ty(self):
        t = Ty(); x = self.r.random(); t.k = 'int' if x < .68 else 'fp' if x < .84 else 'ptr'; t.c = self.r.choice({'int': INTS, 'fp': FPS, 'ptr': PTRS}[t.k]); return t
    def ty(self, d, member=False):
        r = self.r; x = r.random(); t = Ty()
        if d == 0 or x < .3: return self.scalar_ty()
        if x < .42: t.k = 'str'; t.n = r.randrange(1, 9); t.u = r.choice(['char', 'char', 'unsigned char', 'signed char']); return t
        if x < .62: t.k = 'arr'; t.e = self.ty(d - 1); t.n = r.randrange(1, 4); return t
        if x < .9:
            t.k = 'struct'; t.m = []
            for j in range(r.randrange(1, 5)):
                self.k += 1
                if r.random() < .25:
                    for q in range(r.randrange(1, 4)):
                        self.k += 1; b = Ty(); b.k = 'bf'; b.w = r.choice([1, 2, 3, 5, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32]); b.c = r.choice(['int', 'unsigned']); t.m.append((None if r.random() < .12 else 'm%d' % self.k, b))
                        if t.m[-1][0] is None and r.random() < .4: b.w = 0
                else: t.m.append(('m%d' % self.k, self.ty(d - 1)))
            if not any(n for n, _ in t.m): t.m.append(('mm', self.scalar_ty()))
            return t
        t.k = 'union'; t.m = []
        for j in range(r.randrange(1, 4)): self.k += 1; t.m.append(('m%d' % self.k, self.ty(d - 1)))
        return t
    def decl(self, t, name):
        if t.k in ('int', 'fp', 'ptr'): return '%s %s' % (t.c, name)
        if t.k == 'bf': return '%s %s : %d' % (t.c, name, t.w)
        if t.k == 'str': return '%s %s[%d]' % (t.u, name, t.n)
        if t.k == 'arr': return self.decl(t.e, '%s[%d]' % (name, t.n))
        return '%s { %s } %s' % (t.k, ' '.join(self.decl(m, n or '') + ';' for n, m in t.m), name)
    def val(self, t):
        r = self.r
        if t.k in ('int', 'bf'):
            if self.lits > 0 and r.random() < .35:
                self.lits -= 1; ty = r.choice(list(BITS)); a, b = self.s.octal(BITS[ty], ty); 
                return ('-' + a, '-' + b) if r.random() < .3 else (a, b)
            c = r.choice(CONST[:36] + NEG + ["'a'", "'\\n'", "'\\377'", '(char) 200', '(unsigned char) -1', 'sizeof(int)', 'EB{n}', '1 + 2 * 3', '~0', '!5', '1 ? 7 : 8', '(1 << 10) - 1', '-5 / 2', '2.75', '-1.5f', '3 > 2', '0x7f', '017']) 
            if c in ('2.75', '-1.5f') and (t.k == 'bf' or 'unsigned' in t.c or t.c.startswith('enum')): c = '6'
            return c, c
        if t.k == 'fp': c = r.choice(['0.0', '1.5', '-2.25', '0.1', '1e10', '3.4e38', '-1', '7', '10u', '1L', '0.1f', '1e-40', '1.0L / 3', "'a'", '16777217', '1e300 > 0', '2147483648u', '9223372036854775807L', '0']); return c, c
        if t.c == 'FP{n} ': c = r.choice(['f{n}', '&f{n}', '0', '(FP{n}) 0'])
        elif t.c == 'char *': c = r.choice(['"abc"', '"de" "fg"', '0', '(char *) 0', '"xyz" + 1', '&"uvw"[2]', 's_c{n}', 's_c{n} + 3', '&s_c{n}[5]', '(char *) &s_i{n}[1]', '(char *) s_i{n} + 2', '""'])
        elif t.c == 'int *': c = r.choice(['s_i{n}', 's_i{n} + 2', '&s_i{n}[3]', '0', '2 + s_i{n}', '&s_i{n}[3] - 1', 's_st{n}.a + 1', '&s_st{n}.a[2]', '&s_st{n}.b', '(int *) 0', '&s_v{n}'])
        else: c = r.choice(['s_i{n}', '&s_v{n}', '(void *) 0', '0', '"str"', '&s_st{n}', '(void *) &s_i{n}[2]', 's_st{n}.a', '(char *) s_i{n} + 1'])
        return c, c
    def string(self, n):
        r = self.r; k = r.choice([n, n, n - 1, max(0, n - 2), 0, min(2, n)]); s = ''; i = 0; hexl = False
        while i < k:
            if r.random() < .3: e = r.choice(STRESC)
            else: e = r.choice(CH)
            if s and s[-1].isdigit() or len(s) > 1 and '\\' in s[-4:]:
                if e[0] in '0123456789abcdefABCDEF': e = 'z'
            s += e if e != '?' else '.'; i += 1
        if len(s) > 3 and r.random() < .15: return '"%s"' % s.replace('xx', 'x') if '\\' in s else '"%s" "%s"' % (s[:2], s[2:])
        return '"%s"' % s
    def init(self, t, elide, last):
        """list of (wcc, reference) initializer items; with elide a sub-aggregate's braces are left out"""
        r = self.r
        if t.k in ('int', 'fp', 'ptr', 'bf'):
            a, b = self.val(t)
            return [('{ %s }' % a, '{ %s }' % b)] if r.random() < .04 and not elide and t.k != 'bf' else [(a, b)]
        if t.k == 'str':
            if r.random() < .65 :
                s = self.string(t.n); return [(s, s)] if elide or r.random() < .8 else [('{ %s }' % s,) * 2]
            items = [self.val(self._i(t.u)) for i in range(t.n if elide and not last else r.randrange(1, t.n + 1))]
        elif t.k == 'arr':
            n = t.n if elide and not last else r.randrange(1, t.n + 1); items = []
            for i in range(n):
                l = i == n - 1; items += self.sub(t.e, elide and not (last and l), l, elide)
        elif t.k == 'struct':
            ms = [m for n, m in t.m if n]; n = len(ms) if elide and not last else r.randrange(1, len(ms) + 1); items = []
            for i in range(n): l = i == n - 1; items += self.sub(ms[i], elide and not (last and l), l, elide)
        else: items = self.sub(t.m[0][1], elide and not last, True, elide)
        if elide: return items
        tail = ',' if r.random() < .1 else ''
        return [('{ %s%s }' % (', '.join(i[0] for i in items), tail), '{ %s%s }' % (', '.join(i[1] for i in items), tail))]
    def sub(self, t, mustfull, last, parent_elided):
        el = t.k in ('arr', 'struct', 'union', 'str') and self.r.random() < .4
        if el: return self.init(t, True, last and not mustfull)
        return self.init(t, False, last)
    def leaves(self, t, e, out):
        if t.k in ('int', 'bf'): out.append((e, 'int'))
        elif t.k == 'fp': out.append((e, 'fp'))
        elif t.k == 'ptr': out.append((e, t.c))
        elif t.k == 'str': out.extend(('%s[%d]' % (e, i), 'int') for i in range(t.n))
        elif t.k == 'arr':
            for i in range(t.n): self.leaves(t.e, '%s[%d]' % (e, i), out)
        else:
            for n, m in t.m[:1] if t.k == 'union' else t.m:
                if n: self.leaves(m, e + '.' + n, out)
    def _i(self, c): t = Ty(); t.k = 'int'; t.c = c; return t
PRE = 'enum E{n} { EA{n} = -1, EB{n} = 5 }; int f{n}(int a) { return a + 1; } typedef int (*FP{n})(int); char s_c{n}[10]; int s_i{n}[5]; int s_v{n}; struct { char p; int a[3]; int b; } s_st{n}; '
def main(tier):
    c = Check('P10', 'static initializers', 'translation_validation', tier); r = c.rnd; n = 0
    def prog(g):
        nonlocal n
        n += 1; x = r.random(); t = g.ty(r.choice([1, 2, 2, 3])); w = r.random()
        if t.k in ('int', 'fp', 'ptr') and w < .5: t2 = Ty(); t2.k = 'arr'; t2.e = t; t2.n = r.randrange(1, 7); t = t2
        static = r.random() < .65; symb = g.lits > 0
        if not symb: g.lits = 0
        a, b = g.init(t, False, True)[0]; ref = None
        if static and not symb and t.k == 'arr' and r.random() < .25 and t.e.k != 'str' or not symb and t.k == 'str' and r.random() < .3: # deduced size
            m = t.n; t.n = 0; D = g.decl(t, 'g{n}').replace('[0]', '[]', 1); t.n = m
            s = ('static ' if r.random() < .5 else '') + D + ' = %s;' + (' unsigned long t_{n}(void) { return sizeof(g{n}); }' if '[]' in D else '')
        elif static and not symb:
            if x < .2: s = 'int t_{n}(int x) { static ' + g.decl(t, 'g') + ' = %s; return x + sizeof(g); }'
            elif x < .25 and t.k in ('struct', 'union'): s = g.decl(t, 'g{n} = %s, h{n}') + ';'
            else: s = r.choice(['static ', '', 'static const ', 'const ', 'volatile ']) + g.decl(t, 'g{n}') + ' = %s;'
        else:
            lv = []; g.leaves(t, 'l{n}', lv); lv = lv[:24]; o = ''; k = {'i': 0, 'f': 0, 'p': 0}
            for e, q in lv:
                f = 'i' if q in ('int', 'char *') else 'f' if q == 'fp' else 'p'
                o += {'i': 's_o{n}[%d] = %s; ', 'f': 's_f{n}[%d] = %s; ', 'p': 'o_p{n}[%d] = (void *) %s; '}[f] % (k[f], e if q != 'char *' else '%s ? *%s : -1' % (e, e)); k[f] += 1
            h = 'long s_o{n}[%d]; double s_f{n}[%d]; void *o_p{n}[%d]; ' % (k['i'] + 1, k['f'] + 1, k['p'] + 1); d = g.decl(t, 'l{n}') + ' = %s; '
            s = h + 'int t_{n}(int i) { int k = i; ' + d + o + 'return k; }'
            if static: ref = s; s = h + 'int t_{n}(int i) { int k = i; static ' + d + o + 'return k; }' if x < .3 else h + r.choice(['static ', '', 'const ']) + d + 'int t_{n}(int i) { int k = i; ' + o + 'return k; }'
        f = lambda s, q: (PRE + s % q).replace('{n}', str(n))
        return f(s, a), f(ref or s, b)
    N = c.pick(130, 2500); per = 4
    for i in range(N):
        syms = SymSrc(); gs = []
        for j in range(per):
            g = G(r, syms); g.lits = 0 if j else 2; gs.append(prog(g))
        x = syms.build('\n'.join(p[0] for p in gs), '\n'.join(p[1] for p in gs)); c.add(Unit('in%d' % i, x[0], refsrc=x[1], syms=x[2], symrefs=x[3], opts={'nummap': 1, 'max_paths': c.pick(400, 4000), 'partial': 1}))
    FIX = ['static int g{n}[] = { 1, 2, 3 }; int t_{n}(void) { return sizeof(g{n}); }', 'char g{n}[] = "hello", h{n}[3] = "hel", k{n}[] = { "ab" }; int t_{n}(void) { return sizeof(g{n}) + sizeof(h{n}) + sizeof(k{n}); }', 'int g{n}[2][3] = { 1, 2, 3, 4 }, h{n}[][2] = { { 1 }, { 2, 3 }, 4, 5, 6 }; int t_{n}(void) { return sizeof(h{n}); }', 'struct { int a : 3, : 2, b : 5; unsigned c : 20; int : 0; int d : 1; } g{n} = { -1, 9, 0xabcde, 1 };', 'static char *g{n}[] = { "a", "b" "c", 0 }; int t_{n}(int i) { return g{n}[i & 1][0]; }', 'union { char c; long l; } g{n}[2] = { 1, { 2 } };', 'int t_{n}(int i) { static int g = 5; g += i; return g; }', 'int t_{n}(int i) { int a[3] = { 0 }, b[4] = { 1, 2 }; return a[i & 1] + b[i & 3] * 8; }', 'int t_{n}(int i) { char s[10] = "abc"; char t[] = "xyz"; return s[i & 7] * 256 + t[i & 3]; }', 'int t_{n}(int i) { struct { int a; char b[4]; long c; } x = { 3, "hi" }; return x.a + x.b[i & 3] * 10 + x.c; }', 'int t_{n}(int a, int b) { int x[3] = { 1, 2, 3 }; int y = a + x[b & 1]; return y; }', 'struct S{n} { int x, y; } t_{n}(int a) { struct S{n} p = { 1, 2 }, q = p; q.x = a; return q; }', 'struct P{n} { int x, y; }; struct { struct P{n} a, b[2]; } g{n} = { { 1, 2 }, { { 3 }, 4, 5 } }, h{n} = { 1, 2, 3, 4, 5, 6 }, k{n} = { { 1 }, { 2 } };', 'float g{n}[] = { 1, 2.5, 3.25f, 1e30L }; double h{n} = 1 / 2, k{n} = 1.0f / 3; long double l{n}[2] = { 1.1L, -0.1f };', 'int g{n} = {5}; char *h{n} = {"abc"}; struct { int a[2][2]; } k{n} = { 1, 2, 3 };', 'int x{n}; int x{n} = 3; int x{n}; static int y{n}; static int y{n} = 4; int t_{n}(void) { return x{n} * 10 + y{n}; }', 'enum { A{n} = 3, B{n} }; int g{n}[B{n} + 1] = { A{n}, B{n}, [0] = 1 };' if False else 'enum { A{n} = 3, B{n} }; int g{n}[B{n} + 1] = { A{n}, B{n} };', 'static struct { char a; long double l; char b; } g{n}[2] = { { 1, 2.5L, 3 }, { 4, 5.5L, 6 } };', 'static int g{n}[3] = { 1 }, h{n}[40000] = { 1, 2 }, k{n}[2] = { 0, 7 };', 'int L{n}[] = L"ab\\n"; int M{n}[6] = L"abc";', 'unsigned char g{n}[4] = "\\377\\0\\x80"; signed char h{n}[] = "\\200\\101b\\x7fg";', 'struct { unsigned a : 31; unsigned b : 1; int c; unsigned char d; unsigned e : 8; unsigned f : 16; } g{n} = { 0x7fffffff, 1, -1, 200, 255, 65535 };', 'struct { char c; int b : 9; int d : 9; short e; } g{n}[2] = { { 1, -5, 7, -9 }, { 2, 255, -256, 32767 } };', 'struct { int a : 4; int b : 4; } g{n} = { 7 }; struct { int a : 4; int b : 4; char c[3]; int d : 4; } h{n} = { 1, -1, { 1, 2 }, -3 };']
    c.add_fns('fx', FIX, per=6)
    c.run_units(deadline=c.pick(240, 3000)); c.validate_samples(c.pick(4, 20))
    return c.finish()
