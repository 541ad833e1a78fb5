"""P04: control flow, sequencing and short-circuit evaluation."""
from check import *
from corpus import *
CT = ['char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned', 'long', 'unsigned long']

class Gen:
    """Random structured statements. h is a trace: every simple statement updates it with its own number, so a statement executed once too often, too rarely or in another order changes the result."""
    def __init__(s, r, floats=False, budget=7): s.r = r; s.k = 0; s.lab = 0; s.decl = []; s.cnt = 0; s.floats = floats; s.budget = budget
    def num(s): s.k += 1; return s.k
    def step(s): return 'h = h * 5 + %d;' % s.num()
    def eff(s): return '(h = h * 5 + %d)' % s.num()
    def cond(s, d=2):
        r = s.r; x = r.random(); v = r.choice('abcde')
        if d and x < .16: return '(%s && %s)' % (s.cond(d - 1), s.cond(d - 1))
        if d and x < .32: return '(%s || %s)' % (s.cond(d - 1), s.cond(d - 1))
        if d and x < .38: return '!%s' % s.cond(d - 1)
        if d and x < .43: return '(%s ? %s : %s)' % (s.cond(d - 1), s.cond(d - 1), s.cond(d - 1))
        if d and x < .50: return '(%s, %s)' % (s.eff(), s.cond(d - 1))
        if x < .58: return v
        if x < .63: return '(%s & %d)' % (r.choice('abcd'), 1 << r.randrange(7))
        if x < .68: return '(f(%d) %s %s)' % (s.num(), r.choice(['<', '==', '!=']), v)
        if x < .71: return r.choice(['0', '1', '(%s - %s)' % (v, v), "'a'", '2.5', '(1 && 0)'])
        if x < .75: return '!p' if r.random() < .5 else '(q %s p)' % r.choice(['==', '!='])
        if x < .78 and s.floats: return r.choice(['x', '(x < y)', '(x == y)', '(x != 0)', '!x', '(x >= y)'])
        if x < .9: return '(%s %s %s)' % (v, r.choice(['<', '>', '<=', '>=', '==', '!=']), r.choice(['0', '1', '-1', '5', '100', '-128', '70000', '3u']))
        return '(%s %s %s)' % (v, r.choice(['<', '>', '<=', '>=', '==', '!=']), r.choice('abcde'))
    def expr(s):
        r = s.r; x = r.random()
        if x < .2: return '%s ? %s : %s;' % (s.cond(1), s.eff(), s.eff())
        if x < .35: return '%s && %s;' % (s.cond(1), s.eff())
        if x < .5: return '%s || %s;' % (s.cond(1), s.eff())
        if x < .6: return '%s = (%s, %s);' % (r.choice('ab'), s.eff(), s.num())
        if x < .7: return '%s = %s;' % (r.choice('ab'), s.cond(1))
        if x < .8: return 'h = h * 3 + (%s ? %d : %d);' % (s.cond(1), s.num(), s.num())
        if x < .9: return 'a = (b = %d, b + %d);' % (s.num(), s.num())
        return '%s = %s ? %s : %s;' % (r.choice('ab'), s.cond(1), r.choice('cd'), r.choice('ab'))
    def block(s, d, loop, sw, n=None):
        return '{ ' + ' '.join(s.stmt(d, loop, sw) for _ in range(n or s.r.randrange(1, 4))) + ' }'
    def body(s, d, loop, sw): return s.stmt(d, loop, sw) if s.r.random() < .35 else s.block(d, loop, sw)
    def stmt(s, d, loop=False, sw=False):
        r = s.r; x = r.random(); s.budget -= 1
        if d <= 0 or s.budget <= 0:
            x = r.random()
            if x < .12 and loop: return 'if (%s) continue; %s' % (s.cond(0), s.step()) if r.random() < .5 else '{ %s continue; }' % s.step()
            if x < .2 and (loop or sw): return 'if (%s) break;' % s.cond(0)
            if x < .24: return 'if (%s) return h + %d;' % (s.cond(0), s.num())
            if x < .28: return ';'
            if x < .5: return s.expr()
            return s.step()
        if x < .22: return 'if (%s) %s' % (s.cond(), s.block(d - 1, loop, sw))
        if x < .40: return 'if (%s) %s else %s' % (s.cond(), s.block(d - 1, loop, sw), s.body(d - 1, loop, sw))
        if x < .62:
            v = 'i%d' % s.cnt; s.cnt += 1; s.decl.append('int %s;' % v); n = r.choice(['2', '3', '(a & 3)', '(c & 1) + 1', '2'])
            y = r.random(); b = s.block(d - 1, True, sw)
            if y < .3: return 'for (%s = 0; %s < %s; %s++) %s' % (v, v, n, v, b)
            if y < .45: return '%s = 0; for (;;) { if (%s++ >= %s) break; %s }' % (v, v, n, b)
            if y < .6: return '%s = %s; while (%s--) %s' % (v, n, v, b)
            if y < .75: return '%s = 0; do %s while (++%s < %s && %s);' % (v, b, v, n, s.cond(1))
            if y < .9: return 'for (%s = 0; %s < %s && %s; %s++, %s) %s' % (v, v, n, s.cond(1), v, s.eff(), b)
            return '%s = 0; while (%s < %s) { %s++; %s }' % (v, v, n, v, b)
        if x < .78: return s.switch(d, loop)
        if x < .86:
            l = 'L%d' % s.lab; s.lab += 1
            if r.random() < .6: return 'if (%s) goto %s; %s %s: %s' % (s.cond(1), l, s.stmt(d - 1, loop, sw), l, s.step())
            v = 'i%d' % s.cnt; s.cnt += 1; s.decl.append('int %s;' % v)
            return '%s = 0; %s: %s if (%s && %s++ < 2) goto %s;' % (v, l, s.step(), s.cond(1), v, l)
        return s.expr()
    def switch(s, d, loop, v=None):
        r = s.r; v = v or r.choice(['a', 'b', 'c', 'd', 'e', 'a & 3', 'b + 1', '(char) c', '(short) d'])
        pool = ['0', '1', '2', '3', '4', '-1', '7', "'a'", '100', '127', '1000']; cs = r.sample(pool, r.randrange(1, 5)); out = []
        dflt = r.choice([None, 0, len(cs) // 2, len(cs)])
        for i, c in enumerate(cs + [None]):
            if dflt == i: out.append('default: %s %s' % (s.body(d - 1, loop, True), r.choice(['break;', '', 'break;'])))
            if c is not None: out.append('case %s: %s%s' % (c, '' if r.random() < .2 else s.body(d - 1, loop, True), r.choice([' break;', ' break;', ''])))
        return 'switch (%s) { %s }' % (v, ' '.join(out) + ' ;')
def prog(r, floats, budget):
    g = Gen(r, floats, budget); body = ' '.join(g.stmt(3) for _ in range(r.randrange(1, 4))); ts = [r.choice(CT) for _ in range(5)]
    return 'int g_n{n}; int f{n}(int k) { g_n{n} = g_n{n} * 7 + k; return g_n{n} & 7; }\nlong t_{n}(%s, char *p, char *q%s) { int h; %s h = 1; %s return h * 2 + g_n{n}; }' % (
        ', '.join('%s %s' % z for z in zip(ts, 'abcde')), ', double x, float y' if floats else '', ' '.join(g.decl), body.replace('f(', 'f{n}('))

def fixed():
    out = []
    for t in CT:
        w = 'long' if 'long' in t else t
        out += [
        # every kind of case label: sparse, negative, character, beyond the narrower types, unsorted; fall-through and default anywhere
        'long t_{n}(%s a) { switch (a) { case 1: return 10; case -1: return 20; case 100: return 30; case 0: return 40; case 65535: return 50; case -128: return 60; case 255: return 65; default: return 70; } }' % t,
        'long t_{n}(%s a) { int h = 0; switch (a) { default: h += 1; case 3: h += 2; break; case 200: h += 4; case -56: h += 8; case -3: h += 16; } return h; }' % t,
        'long t_{n}(%s a) { int h = 0; switch (a) { case 2147483647: h = 1; break; case -2147483647 - 1: h = 2; break; case 32768: h = 3; break; case -32768: h = 4; } return h; }' % t,
        "long t_{n}(%s a) { switch (a) { case 'a': case 'b': case '\\377': return 1; case '\\0': return 2; case 'z': return 3; } return 4; }" % t,
        'long t_{n}(%s a) { switch (a + 1) { case 0: return 1; case 128: return 2; case 256: return 3; case 65536: return 4; } return 5; }' % t,
        'long t_{n}(%s a, int b) { switch (a) { case 1: switch (b) { case 1: return 11; case 2: break; default: return 12; } case 2: return 13; default: switch (b) { case 1: return 14; } break; } return 15; }' % t,
        'enum E{n} { A{n} = -2, B{n}, C{n}, D{n} = 300 }; long t_{n}(%s a) { switch (a) { case A{n}: return 1; case B{n}: return 2; case C{n}: return 3; case D{n}: return 4; } return 5; }' % t,
        'long t_{n}(%s a) { int n = 0, i; for (i = 0; i < 3; i++) { switch (a) { case 1: continue; case 2: break; case 3: n += 100; default: n += 10; } n++; } return n; }' % t,
        'long t_{n}(%s a) { int n = 0; a &= 7; switch (a & 3) { case 0: do { n = n * 3 + 1; case 3: n = n * 3 + 2; case 2: n = n * 3; case 1: n++; } while ((a = a - 4) > 0 && a < 8); } return n; }' % t,
        'int t_{n}(%s a) { if (a) ; else return 3; return 5; }' % t, 'int t_{n}(%s a) { while (a) { if (a) return 7; } return 9; }' % t, 'int t_{n}(%s a) { for (; a; ) return 7; return 9; }' % t, 'int t_{n}(%s a) { int n = 0; do n++; while (a && n < 3); return n; }' % t, 'int t_{n}(%s a) { int n = 0; do { if (n == 2) break; n++; if (n) continue; n = 100; } while (a); return n; }' % t,
        'int t_{n}(%s a, %s b) { int x; x = a && b; return x + (a || b) * 2 + !a * 4; }' % (t, w), '%s t_{n}(%s a, %s b) { return (a, b); }' % (t, t, t), '%s t_{n}(int c, %s a, %s b) { return c ? a : b; }' % (t, t, t), '%s t_{n}(int c, %s a, %s b, %s d) { return c > 0 ? a : c < -5 ? b : d; }' % (t, t, t, t),
        'long t_{n}(%s a) { int i, j, n = 0; for (i = 0; i < 3; i++) for (j = 0; j < 3; j++) { if (j == (a & 3)) break; if (i == 1) continue; n = n * 3 + j + 1; } return n; }' % t,
        'long t_{n}(%s a) { int n = 0; top: n++; if (n < (a & 3)) goto top; if (a & 8) goto end; n += 100; end: return n; }' % t,
        'long t_{n}(%s a) { int n = 0; goto mid; { int k; top: k = 2; n += k; mid: k = 5; n += k * 10; if (n < 60 && a) goto top; } return n; }' % t,
        'int g_z{n}; int e{n}(int x) { g_z{n} = g_z{n} * 10 + x; return x; } int t_{n}(%s a) { return (a && e{n}(1)) + (a || e{n}(2)) * 2 + (a ? e{n}(3) : e{n}(4)) * 4 + (e{n}(5), a != 0); }' % t,
        'int t_{n}(%s a) { int i, s = 0; for (i = 10; i; i /= 2) { if (i == 5) { if (a) continue; else break; } s += i; } return s; }' % t]
    out += ['int t_{n}(long a) { switch (a) { case 4294967296l: return 1; case 0: return 2; case -4294967296l: return 3; case 4294967295l: return 4; case -1: return 5; case 9223372036854775807l: return 6; } return 7; }', 'int t_{n}(unsigned long a) { switch (a) { case 18446744073709551615ul: return 1; case 0: return 2; case 9223372036854775808ul: return 3; case 4294967295u: return 4; } return 7; }',
            'int t_{n}(unsigned a) { switch (a) { case -1: return 1; case 0: return 2; case 2147483648u: return 3; } return 7; }', 'int t_{n}(int a) { switch (a) case 3: return 1; return 2; }', 'int t_{n}(int a) { switch (a) default: return 1; return 2; }', 'int t_{n}(int a) { switch (a); return 2; }', 'int t_{n}(int a) { switch (a) { } return 2; }', 'int t_{n}(int a) { int x = 5; switch (a) { x = 7; case 1: x++; } return x; }', 'int t_{n}(int a) { switch (a) { int y; case 1: y = 3; return y; } return 0; }',
            'int t_{n}(int a) { a:; if (a == 7) { a = 8; goto a; } b: { int b; b = a; return b; } goto b; }', 'int t_{n}(int a) { if (a) if (a > 3) return 1; else return 2; return 3; }', 'int t_{n}(int a) { if (a) { if (a > 3) return 1; } else return 2; return 3; }', 'int t_{n}(int a) { for (;;) { for (;;) { if (a) break; return 1; } if (a > 5) break; a = 9; } return a; }', 'int t_{n}(int a, int b) { int r = 0; while (a > 0 && a < 4) { a++; while (b > 0 && b < 3) { b++; r += 3; if (r > 7) goto out; } r++; } out: return r; }',
            'int g_v{n}; void v{n}(int x) { if (x) { g_v{n} = x; return; } g_v{n} = 77; } int t_{n}(int a) { v{n}(a); return g_v{n}; }', 'int t_{n}(int a) { return a ? a > 0 ? 1 : 2 : 3; }', 'long t_{n}(int a, char b, long c) { return a ? b : c; }', 'int t_{n}(int a, int b) { int x = a++ && b++; return x * 1000 + a * 7 + b; }', 'int t_{n}(int a, int b) { int x; x = (a = b, b = 3, a + b); return x ^ a; }', 'int t_{n}(int a) { int x = 0; a && (x = 5); a || (x = 6); return x; }', 'void *t_{n}(int a, char *p) { return a ? p : 0; }', 'void *t_{n}(int a, char *p, int *q) { return a ? (void *) p : q; }', 'int t_{n}(char *p) { if (p) return 1; return 2; }', 'int t_{n}(char *p, char *q) { return p && !q; }', 'int t_{n}(char *p) { while (!p) return 3; return !p ? 1 : p == 0 ? 2 : 4; }']
    return out
def main(tier):
    c = Check('P04', 'control flow', 'translation_validation', tier); r = c.rnd
    c.add_fns('fix', fixed(), per=12)
    c.add_fns('gen', [prog(r, i % 4 == 0, c.pick(6, 10)) for i in range(c.pick(220, 4000))], per=4)
    c.run_units(deadline=c.pick(240, 3000)); c.validate_samples(c.pick(4, 20))
    return c.finish()
