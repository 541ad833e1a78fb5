"""P02: integer conversions, compound assignment, increment and decrement."""
from check import *
from corpus import *
OPS = ['+=', '-=', '*=', '/=', '%=', '&=', '|=', '^=', '<<=', '>>=']
LV = ['global', 'local', 'array', 'larray', 'deref', 'member', 'arrow', 'volatile', 'param']
def corpus(r, quick):
    out = []
    def kinds(n=1): return [r.choice(LV) for _ in range(n)] if quick else LV
    # conversions: cast, assignment, initialisation, parameter, return, through several types
    for ta in T:
        for tb in T:
            for how in (r.sample(['cast', 'assign', 'init', 'arg', 'ret', 'chain', 'argproto', 'elem', 'gstore'], 5) if quick else ['cast', 'assign', 'init', 'arg', 'ret', 'chain', 'argproto', 'elem', 'gstore']):
                for k in kinds():
                    g, d, s, e = operand(r, ta, 'a', k); tc = r.choice(T)
                    if how == 'cast': b = 'return (%s) %s;' % (tb, e)
                    elif how == 'assign': d += ' %s b;' % tb; b = 'b = %s; return b;' % e
                    elif how == 'init': b = '{ %s b = %s; return b; }' % (tb, e)
                    elif how == 'arg': g += ' long f{n}(b) %s b; { return b; }' % tb if tb in ('int', 'long', 'unsigned', 'unsigned long') and ta == tb else ' long f{n}(%s b) { return b; }' % tb; b = 'return f{n}(%s);' % e
                    elif how == 'argproto': g += ' long f{n}(char z, %s b) { return b + z; }' % tb; b = 'return f{n}(a, %s);' % e
                    elif how == 'ret': g += ' %s f{n}(%s x) { return x; }' % (tb, ta); b = 'return f{n}(%s);' % e
                    elif how == 'chain': b = 'return (%s) (%s) %s;' % (tc, tb, e)
                    elif how == 'elem': d += ' %s b[3];' % tb; b = 'b[1] = %s; return b[1] ^ (b[1] >> 3);' % e
                    else: g += ' %s g_b{n};' % tb; b = 'g_b{n} = %s; return 0;' % e
                    out.append('%s\nlong t_{n}(%s a) { %s %s %s }' % (g, ta, d, s, b))
    # a register, memory and constants stored in memory, for every pair of types
    for ta in T:
        for tb in T:
            out.append('%s g_b{n}; %s s_a{n}; long t_{n}(%s a) { %s; return 0; }' % (tb, ta, ta, r.choice(['g_b{n} = a + 1', 'g_b{n} = s_a{n}', 'g_b{n} = (%s) (a * 3)' % ta, '*&g_b{n} = -a'])))
            out.append('%s g_b{n}[2]; %s *s_p; long t_{n}(%s a, int i) { %s *p; volatile %s v; p = g_b{n}; p[i & 1] = a; v = a; return v; }' % (tb, ta, ta, tb, tb))
        for c in (r.sample(CONST + NEG, 8) if quick else CONST + NEG):
            out.append('%s g_b{n}; long t_{n}(%s a) { volatile %s v; %s *p; g_b{n} = %s; v = %s; p = &g_b{n}; *p += v; return a == %s; }' % (ta, ta, ta, ta, c, c, c))
    # compound assignment, its value and the object
    for op in OPS:
        for ta in T:
            for tb in (r.sample(T, 4) if quick else T):
                for k in kinds():
                    g, d, s, e = operand(r, ta, 'a', k); rhs = 'b'
                    if op in ('<<=', '>>='): rhs = '(b & 7)'
                    elif r.random() < .25: rhs = r.choice(['1', '3', '100', '-1', '255', '65535', '7u', '5l', '4294967295l', '2147483648u'] if op != '%=' else ['3', '10', '100', '7u', '-3']) if op not in ('/=', '%=') else r.choice(['1', '3', '7', '10', '-1' if op == '/=' else '-3', '7u', '100l'])
                    use = r.choice(['return %s;', 'return %s;', 'val', 'void'])
                    if use == 'val': b = '{ long v; v = (%s %s %s); return v ^ (long) %s * 3; }' % (e, op, rhs, e)
                    elif use == 'void': b = '%s %s %s; return %s;' % (e, op, rhs, e)
                    else: b = 'return %s %s %s;' % (e, op, rhs)
                    out.append('%s\nlong t_{n}(%s a, %s b) { %s %s %s }' % (g, ta, tb, d, s, b))
    for op in ['++%s', '--%s', '%s++', '%s--']:
        for ta in T:
            for k in (r.sample(LV, 5) if quick else LV):
                g, d, s, e = operand(r, ta, 'a', k); o = op % ('(%s)' % e if k == 'deref' else e)
                for b in (['return %s;' % o, '{ long v; v = %s; return v * 3 + %s; }' % (o, e)] if not quick else [r.choice(['return %s;' % o, '{ long v; v = %s; return v * 3 + %s; }' % (o, e), '%s; return %s;' % (o, e), '{ int n = 0; while (%s) { if (++n == 2) break; } return n + %s; }' % (o, e)])]):
                    out.append('%s\nlong t_{n}(%s a) { %s %s %s }' % (g, ta, d, s, b))
    # integer promotions of mixed expressions; sizeof shows the type of an expression
    for op in ['+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>', '<', '==']:
        for ta in T:
            for tb in (r.sample(T, 4) if quick else T):
                out.append('long t_{n}(%s a, %s b) { return sizeof(a %s b) * 100 + ((a %s b) %s 0 ? 1 : 2); }' % (ta, tb, op, op if op not in ('<<', '>>', '/', '%') else r.choice('+-'), r.choice(['<', '>', '>=', '!='])))
    for e in ['a ? b : c', 'a ? (char) b : (unsigned) c', '(b, c)', '-b', '~b', '+b', '!b', 'b++', 'b = c', 'b += c', '(char) b', 'b << c', '&b', '*&b', 'b && c', "'a'", '1l', '1u', '1ul', '0xffffffff', '4294967296', '2147483648', '017777777777', '0x7fffffff', '18446744073709551615u', '9223372036854775807']:
        for tb in (r.sample(T, 3) if quick else T):
            tc = r.choice(T); out.append('long t_{n}(int a, %s b, %s c) { return sizeof(%s); }' % (tb, tc, e))
            if '&b' != e: out.append('long t_{n}(int a, %s b, %s c) { return %s > -1; }' % (tb, tc, '(%s)' % e if 'c' not in e or '<<' not in e else '(b << (c & 7))'))
    # enums, pointers to and from integers, _Bool like tests
    for t in T:
        out += ['enum E{n} { A{n} = -3, B{n}, C{n} = 70000, D{n} };\nlong t_{n}(%s a) { enum E{n} e; e = a; return e == B{n} ? 5 : (long) e; }' % t,
                'enum E{n} { A{n} = -1, B{n}, C{n} = 100 };\nenum E{n} s_e{n}; long t_{n}(%s a) { return s_e{n} + a * C{n} - (s_e{n} < a) + sizeof(enum E{n}) ; }' % t,
                'long t_{n}(%s a) { void *p; p = (void *) (long) a; return (long) p + ((unsigned long) p >> 3); }' % t,
                'long t_{n}(%s a, long b) { char *p; p = (char *) b; return (%s) (long) p; }' % (t, t),
                'long t_{n}(%s a) { return !a + !!a * 10; }' % t, 'int t_{n}(%s a, %s b) { return a && b || !a && !b; }' % (t, r.choice(T))]
    for i in range(120 if quick else 2500):
        ts = [r.choice(T) for _ in range(6)]
        st = []
        for _ in range(r.randrange(2, 6)):
            v = r.choice('abxy'); w = r.choice('abxy'); z = r.choice('abxy')
            st.append(r.choice(['%s = %s;' % (v, w), '%s %s %s;' % (v, r.choice(['+=', '-=', '*=', '^=', '|=', '&=']), w), '%s %s= (%s & 7);' % (v, r.choice(['<<', '>>']), w), '%s = (%s) %s;' % (v, r.choice(T), w), '%s%s;' % (v, r.choice(['++', '--'])), '%s = %s %s %s%s;' % (v, w, r.choice(['+', '-', '^']), r.choice(['++', '--', '']), z if z not in (v, w) else '3'), 's_g{n} %s= %s;' % (r.choice('+-^|&'), v), '%s = s_g{n};' % v, '%s = %s < %s;' % (v, w, z)]))
        for s_ in range(len(st)): st[s_] = re.sub(r'(\+\+|--)3', '3', st[s_])
        out.append('%s s_g{n}; %s t_{n}(%s a, %s b) { %s x; %s y; x = b; y = a; %s return x ^ y; }' % (ts[0], ts[1], ts[2], ts[3], ts[4], ts[5], ' '.join(st)))
    return out
def main(tier):
    c = Check('P02', 'integer conversions, compound assignment, increment and decrement', 'translation_validation', tier)
    fs = corpus(c.rnd, c.quick); c.rnd.shuffle(fs); c.add_fns('conv', fs, per=25)
    c.run_units(deadline=c.pick(200, 3000)); c.validate_samples(c.pick(4, 20))
    return c.finish()
