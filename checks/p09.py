"""P09: constant expressions equal the run-time value of the same expression."""
from check import *
from corpus import *
from symsrc import *
LT = ['int', 'unsigned', 'long', 'unsigned long']
BITS = {'int': 31, 'unsigned': 32, 'long': 63, 'unsigned long': 64}
ARITH = ['+', '-', '*', '&', '|', '^']; CMP = ['<', '>', '<=', '>=', '==', '!=']; LOG = ['&&', '||']
class Gen:
    def __init__(self, r): self.r = r; self.s = SymSrc()
    def leaf(self, lits):
        r = self.r
        if r.random() < .55 and lits[0] > 0:
            lits[0] -= 1; t = r.choice(LT); a, b = self.s.octal(BITS[t] if r.random() < .8 else r.choice([3, 7, 8, 15, 16]), t); e = (a, b)
        else: c = r.choice(CONST[:36]); e = (c, c)
        if r.random() < .25: t = r.choice(T); e = ('(%s) %s' % (t, e[0]), '(%s) %s' % (t, e[1])); e = ('(%s)' % e[0], '(%s)' % e[1])
        return e
    def expr(self, d, lits):
        r = self.r
        if d == 0 or r.random() < .1: return self.leaf(lits)
        x = r.random(); f = lambda k, *es: tuple(k % tuple(e[i] for e in es) for i in (0, 1))
        if x < .14: return f('(%s %%s)' % r.choice('-~+!'), self.expr(d - 1, lits))
        if x < .24: return f('((%s) %%s)' % r.choice(T), self.expr(d - 1, lits))
        if x < .33: return f('(%s ? %s : %s)', self.expr(d - 1, lits), self.expr(d - 1, lits), self.expr(d - 1, lits))
        if x < .45: return f('(%%s %s %s)' % (r.choice(['<<', '>>']), r.choice(['0', '1', '3', '7', '15', '16', '31'])), self.expr(d - 1, lits))
        if x < .52: return f('(%%s %s %%s)' % r.choice(['/', '%%']), self.expr(d - 1, lits), (lambda c: (c, c))(r.choice(['1', '3', '7', '10', '16', '(-1)', '(-7)', '5u', '100L', '255', '65537', '4294967297L', '3UL', '(-3L)'])))
        if x < .66: return f('(%%s %s %%s)' % r.choice(CMP), self.expr(d - 1, lits), self.expr(d - 1, lits))
        if x < .76: return f('(%%s %s %%s)' % r.choice(LOG), self.expr(d - 1, lits), self.expr(d - 1, lits))
        op = r.choice(ARITH[:3] * 2 + ARITH)
        if op == '*': # a product of two wide unknowns is out of reach of bit-blasting
            s = self.s.octal(r.choice([3, 5, 7]), r.choice(LT)) if lits[0] > 0 and r.random() < .5 else (lambda c: (c, c))(r.choice(CONST[:36]))
            if s[0] != s[1]: lits[0] -= 1
            return f('(%s * %s)', self.expr(d - 1, lits), s)
        return f('(%%s %s %%s)' % op, self.expr(d - 1, lits), self.expr(d - 1, lits))
CTX = [ # (context, source, reference, may the value make the compiler take different paths)
 ('sinit', 'static {t} g{n} = {e}; {t} t_{n}(void) {{ return g{n}; }}', '{t} t_{n}(void) {{ return {f}; }}', 0),
 ('ginit', 'static struct {{ char c; {t} m[2]; }} g{n} = {{ {e}, {{ {e}, {e} }} }}; {t} t_{n}(int i) {{ return i ? g{n}.m[1] + g{n}.c : g{n}.m[0]; }}', '{t} t_{n}(int i) {{ char c = {f}; {t} v = {f}; return i ? v + c : v; }}', 0),
 ('enum', 'enum {{ A{n} = (int) {e}, B{n} }}; int t_{n}(int k) {{ return k ? A{n} : B{n}; }}', 'int t_{n}(int k) {{ int v = (int) {f}; return k ? v : v + 1; }}', 1),
 ('array', 'extern char a{n}[({e} & 4095) + 1]; unsigned long t_{n}(void) {{ return sizeof(a{n}); }}', 'unsigned long t_{n}(void) {{ return ({f} & 4095) + 1; }}', 1),
 ('case', 'int t_{n}({ct} x) {{ switch (x) {{ case {e}: return 1; default: return 2; }} }}', 'int t_{n}({ct} x) {{ return x == ({ct}) {f} ? 1 : 2; }}', 1),
 ('ret', '{t} t_{n}(void) {{ return {e}; }}', '{t} t_{n}(void) {{ return {f}; }}', 1),
 ('if', 'int t_{n}(void) {{ if ({e}) return 3; return 4; }}', 'int t_{n}(void) {{ if ({f}) return 3; return 4; }}', 1),
 ('tern', 'long t_{n}(long a, long b) {{ return {e} ? a : b; }}', 'long t_{n}(long a, long b) {{ return {f} ? a : b; }}', 1),
 ('auto', '{t} t_{n}(int i) {{ {t} a[3] = {{ 1, {e}, 2 }}; return a[i & 1]; }}', '{t} t_{n}(int i) {{ {t} a[3]; a[0] = 1; a[1] = {f}; return a[i & 1]; }}', 1),
 ('arg', '{t} c{n}({t} x) {{ return x; }} {t} t_{n}(void) {{ return c{n}({e}); }}', '{t} t_{n}(void) {{ return ({t}) {f}; }}', 1),
 ('bits', 'struct B{n} {{ unsigned f : ({e} & 15) + 1; unsigned g : 16; }}; unsigned t_{n}(unsigned x) {{ struct B{n} s; s.g = 5; s.f = x; return s.f + s.g; }}', 'unsigned t_{n}(unsigned x) {{ return (x & ((2u << ({f} & 15)) - 1)) + 5; }}', 2),
 ('stmt', '{t} t_{n}({t} x) {{ x += {e}; return x; }}', '{t} t_{n}({t} x) {{ x += {f}; return x; }}', 1),
 ('sizeof', 'unsigned long t_{n}(void) {{ static unsigned long g = sizeof({e}); return g; }}', 'unsigned long t_{n}(void) {{ return sizeof({f}); }}', 0),
 ('index', 'static char s_a{n}[64]; char t_{n}(void) {{ return s_a{n}[{e} & 63]; }}', 'static char s_a{n}[64]; char t_{n}(void) {{ return s_a{n}[{f} & 63]; }}', 1)]
FCONST = ['0.0', '1.0', '-1.5', '0.5f', '2.25', '1e10', '3.0L', '1e300', '0.1', '0.1f', '16777217.0f', '1e-5', '123456789.125', '-0.0', '1e20f', '1.0e-310', '0.1L', '3.3f', '7', '-3', '10u', '100000000000L', '(char) 5']
ICONST = ['0.0', '1.0', '-1.5', '0.5f', '2.25', '3.0L', '0.1', '-0.0', '3.3f', '7', '-3', '10u', '(char) 5', '-99.75', '12345.5f', '-0.999999L']
FNZ = [x for x in FCONST if float(x.strip('fLu').replace('(char) ', '')) != 0]
def main(tier):
    c = Check('P09', 'constant expressions', 'translation_validation', tier); r = c.rnd
    n = 0
    def sub(ctx, e, f, t, ct):
        nonlocal n; n += 1
        m = {'t': t, 'ct': ct, 'e': e, 'f': f, 'n': n}
        return ctx[1].format(**m), ctx[2].format(**m)
    def unit(name, g, parts):
        x = g.s.build('\n'.join(p[0] for p in parts), '\n'.join(p[1] for p in parts)); c.add(Unit(name, x[0], refsrc=x[1], syms=x[2], symrefs=x[3], opts={'nummap': 1, 'max_paths': 4000, 'partial': 1}))
    # every operator over every pair of literal types, as a static initializer
    k = 0; parts = []; g = Gen(r)
    def flush():
        nonlocal parts, g, k
        if parts: unit('op%d' % k, g, parts); k += 1
        parts = []; g = Gen(r)
    for ta in LT:
        for tb in LT:
            for op in ARITH + CMP + LOG + ['<<', '>>', '/', '%', '?', ',']:
                if op == ',' : continue
                if c.quick and op not in '/%' and r.random() < .45: continue
                a = g.s.octal(BITS[ta], ta); nb = 5 if op in ('<<', '>>') else BITS[tb]
                if op in '/%':
                    if c.quick and r.random() < .3: continue
                    a = g.s.octal(min(BITS[ta], c.pick(12, 16)), ta); b = g.s.octal(4, tb, nonzero=True)
                else: b = g.s.octal(min(nb, 6) if op == '*' else nb, tb)
                neg = lambda p, z: tuple('(-%s)' % q for q in p) if z else p
                a = neg(a, r.random() < .3); b = neg(b, op not in ('<<', '>>') and r.random() < .3)
                if op == '?': e = tuple('(%s ? %s : %s)' % (r.choice(['0', '1', a[i]]) if 0 else a[i], a[i], b[i]) for i in (0, 1))
                else: e = tuple('(%s %s %s)' % (a[i], op, b[i]) for i in (0, 1))
                t = r.choice(['long', 'long', 'unsigned long', 'int'])
                parts.append(sub(CTX[0], e[0], e[1], t, 'int'))
                if len(parts) >= 8 or op in '/%?' or op in LOG: flush()
    flush()
    for i in range(c.pick(130, 3500)):
        g = Gen(r); ctx = r.choice(CTX); lits = [2 if ctx[3] < 2 else 1]; e, f = g.expr(r.choice([1, 2, 2, 3, 3, 4]), lits); t = r.choice(T)
        unit('e%d_%s' % (i, ctx[0]), g, [sub(ctx, e, f, t, r.choice(['int', 'unsigned', 'long']))])
    # precedence and associativity without parentheses
    from p01 import POPS
    pairs = [(x, y) for x in POPS for y in POPS]; r.shuffle(pairs); exprs = [['a', x, 'b', y, 'c'] for x, y in pairs]
    for _ in range(c.pick(60, 800)):
        e = ['a']
        for q in [r.choice(POPS) for _ in range(r.randrange(3, 5))]: e += [q, r.choice('bc') if q in ('<<', '>>', '/', '%') else r.choice(['a', 'b', 'c', '~c', '-b', '!a', '3', '(char) b', 'sizeof(int)', 'c ? b : a'][:9])]
        exprs.append(e)
    exprs += [x.split() for x in ['a ? b : c', 'a > b ? c : a ? 5 : b', 'a || b ? c : a', 'a == b ? b + 1 : c * 2', 'a ? b : c + a', '- a + b', '! a == b', '~ a & b', '- a * b', '! a + b', '( char ) a + b << c', 'sizeof(int) * b + c', '- - a', '! ~ a', 'a - - b', 'a + + b', '( short ) - a / b']]
    light = [e for e in exprs if not {'&&', '||', '?', '!a', '/', '%', '!'} & set(e)]; heavy = [e for e in exprs if e not in light]; k = 0
    for grp, per in ((light, 12), (heavy, 2)):
        for i in range(0, len(grp), per):
            g = Gen(r); ts = [r.choice(['int', 'int', 'unsigned', 'long']) for _ in range(3)]; suf = {'int': '', 'unsigned': 'u', 'long': 'L'}; L = dict(zip('abc', [g.s.lit([('0', '1'), ('0', '7')], 'oct', '0', suf[ts[0]], ts[0]), g.s.lit([('4', '7')], 'oct', '0', suf[ts[1]], ts[1]), g.s.lit([('1', '2')], 'oct', '0', suf[ts[2]], ts[2])])); parts = []
            for e in grp[i:i + per]:
                f = lambda z: ' '.join(L[t][z] if t in L else t[0] + L[t[1:]][z] if t[1:] in L and t[0] in '~-!' else '(char) ' + L['b'][z] if t == '(char) b' else t for t in e)
                parts.append(sub(CTX[0], f(0), f(1), 'long', 'int'))
            unit('prec%d' % k, g, parts); k += 1
    # floating point: the operands are concrete (the assembler text of a floating point value is not symbolic)
    fs = []
    for i in range(c.pick(150, 2500)):
        t = r.choice(['float', 'double', 'long double', 'int', 'long', 'unsigned char', 'double', 'float'])
        def ex(d):
            if d == 0: return r.choice(FCONST)
            x = r.random()
            if x < .15: return '(%s %s)' % (r.choice('-+!'), ex(d - 1))
            if x < .3: return '((%s) %s)' % (r.choice(['float', 'double', 'long double', 'float']), ex(d - 1)) if x < .25 else '((%s) %s)' % (r.choice(['int', 'long', 'short']), r.choice(ICONST))
            if x < .4: return '(%s ? %s : %s)' % (ex(d - 1), ex(d - 1), ex(d - 1))
            if x < .5: return '(%s %s %s)' % (ex(d - 1), r.choice(CMP + LOG), ex(d - 1))
            if x < .62: return '(%s * %s)' % (r.choice(FNZ), r.choice(FNZ)) # x * 0.0 is a known finding of P03
            return '(%s %s %s)' % (ex(d - 1), r.choice('+-'), ex(d - 1))
        e = ex(r.choice([1, 2, 3])); fs.append((t, e))
    src = []
    for t, e in fs:
        # conversions of out of range values are undefined
        if t in ('int', 'long', 'unsigned char'): e = '((%s) > 100 || (%s) < 0 || (%s) != (%s) ? 3 : (%s))' % (e, e, e, e, e)
        src.append('static %s g{n} = %s; %s t_{n}(int i) { %s l = %s; return i ? g{n} : l; }' % (t, e, t, t, e))
    c.add_fns('fp', src, per=12)
    # addresses
    AD = ['int s_a{n}[10]; static int *p{n} = s_a{n} + 3; static int *q{n} = &s_a{n}[9] - 2; static int *r{n} = 2 + s_a{n}; long t_{n}(void) { return (p{n} - s_a{n}) + (q{n} - s_a{n}) * 100 + (r{n} - s_a{n}) * 10000; }',
          'struct S{n} { char c; struct { int a, b[4]; } d[3]; } s_s{n}; static int *p{n} = &s_s{n}.d[1].b[2]; static int *q{n} = s_s{n}.d[2].b + 1; static char *r{n} = &s_s{n}.c; int t_{n}(void) { return *p{n} - *q{n} + *r{n}; }',
          'static long d{n} = (long) &((struct { char c; long l; int x[3]; } *) 0)->x[2]; long t_{n}(void) { return d{n}; }', 'static char *p{n} = "hello" + 2; int t_{n}(int i) { return p{n}[i & 1]; }', 'static char *p{n} = &"hello"[1]; int t_{n}(int i) { return p{n}[i & 3]; }',
          'int f{n}(int a) { return a * 3; } static int (*p{n})(int) = f{n}; static int (*q{n})(int) = &f{n}; int t_{n}(int a) { return p{n}(a) + q{n}(a + 1); }',
          'int s_a{n}[3][4]; static int (*p{n})[4] = s_a{n} + 1; static int *q{n} = s_a{n}[2]; static int *r{n} = &s_a{n}[1][3]; int t_{n}(int i) { return p{n}[i & 1][2] + q{n}[i & 3] * 5 + *r{n}; }',
          'static long n{n} = sizeof(int[3]) * 2 + sizeof(struct { char a; double b; }); long t_{n}(void) { return n{n}; }', 'static char c{n} = 300; static unsigned char u{n} = -1; static short h{n} = 70000; static int i{n} = 4294967295u; static long l{n} = -1; static unsigned w{n} = -1L; long t_{n}(void) { return c{n} + u{n} + h{n} + i{n} + l{n} + w{n}; }',
          'static int a{n} = sizeof(int) - 8 > 0; static int b{n} = -1 < sizeof(int); static int c{n} = (sizeof(int) - 8) / 2 > 100; int t_{n}(int x) { return a{n} * 4 + b{n} * 2 + c{n} + (x < sizeof(x)); }', 'static int a{n} = 1 ? 2 : 1 / 0; static int b{n} = 0 && 1 / 0; static int c{n} = 1 || 1 % 0; int t_{n}(void) { return a{n} + b{n} * 10 + c{n} * 100; }',
          'int s_x{n}; static int *p{n} = (int *) 0; static void *q{n} = &s_x{n}; static char *r{n} = (char *) &s_x{n} + 1; static unsigned long u{n} = (unsigned long) 5; int t_{n}(void) { return p{n} == 0 ? *r{n} + (q{n} == &s_x{n}) + u{n} : 0; }']
    c.add_fns('ad', AD, per=4)
    c.run_units(deadline=c.pick(300, 3000)); c.validate_samples(c.pick(4, 20))
    return c.finish()
