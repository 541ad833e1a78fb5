"""P13: preprocessor conditions. The source has #if groups whose controlling expressions contain symbolic literals; the reference has the
same choices as if statements over the run-time values of the literals, with all arithmetic in long as C89 prescribes, and macros as variables."""
from check import *
from corpus import *
from symsrc import *
OPS = ['+', '-', '*', '&', '|', '^', '<<', '>>', '/', '%', '<', '>', '<=', '>=', '==', '!=', '&&', '||', '?']
PREC = {'?': 1, '||': 2, '&&': 3, '|': 4, '^': 5, '&': 6, '==': 7, '!=': 7, '<': 8, '>': 8, '<=': 8, '>=': 8, '<<': 9, '>>': 9, '+': 10, '-': 10, '*': 11, '/': 11, '%': 11}
CC = [("'a'", 97), ("' '", 32), ("'\\n'", 10), ("'\\0'", 0), ("'\\377'", -1), ("'\\x7f'", 127), ("'\\''", 39), ("'\"'", 34), ("'\\\\'", 92), ("'#'", 35), ("'?'", 63)]
NUM = ['0', '1', '2', '3', '5', '7', '10', '12', '100', '017', '0x1f', '0XFF', '65535', '2147483647', '2147483648', '4294967295', '4294967296', '0x7fffffffffffffff', '3L', '7l', '1u', '5U', '9UL', '4lu', '0xffffffffu', '0777777777777777777777', '18446744073709551615u', '9223372036854775807']
NAMES = ['A', 'B', 'C']
class E:
    """expression: source, reference (typed long or unsigned long), precedence of the source, unsigned, bits of a symbolic literal"""
    def __init__(s, src, ref, p=99, u=False): s.src = src; s.ref = ref; s.p = p; s.u = u
class Gen:
    def __init__(s, r): s.r = r; s.s = SymSrc()
    def num(s):
        t = s.r.choice(NUM); u = 'u' in t.lower(); return E(t, '((%s) %s)' % ('unsigned long' if u else 'long', re.sub('[uUlL]', '', t) + ('UL' if u else 'L')), u=u)
    def sym(s, bits=None):
        r = s.r; u = r.random() < .3; x = r.random(); suf = r.choice(['', '', 'l', 'L']); suf = r.choice([suf + 'u', 'U' + suf]) if u else suf; ty = 'unsigned long' if u else 'long'; q = r.choice
        if bits or x < .5:
            b = bits or q([3, 8, 16, 31, 32, 33, 63] + [64] * u); n, k = divmod(b, 3); a, f = s.s.lit(([('0', chr(48 + (1 << k) - 1))] if k else []) + [('0', '7')] * n, 'oct', '0', suf, ty); return E(a, f, u=u)
        if x < .75: a, f = s.s.lit([('1', '9')] + [('0', '9')] * q([0, 1, 2, 4, 8]), 'dec', '', suf, ty); return E(a, f, u=u)
        H = [('0', '9'), ('a', 'f'), ('A', 'F')]
        a, f = s.s.lit([H] + [[q(H)] for _ in range(q([0, 1, 3, 7]))], 'hex', q(['0x', '0X']), suf, ty); return E(a, f, u=u)
    def leaf(s, m):
        r = s.r; x = r.random()
        if x < .45 and m.lits > 0: m.lits -= 1; return s.sym()
        if x < .6 and m.vars: n = r.choice(NAMES); return E(n, '(d%s_{n} ? v%s_{n} : 0L)' % (n, n), 0 if 0 else 99)
        if x < .68 and m.vars: n = r.choice(NAMES); return E(r.choice(['defined %s', 'defined(%s)', 'defined ( %s )']) % n, '((long) d%s_{n})' % n)
        if x < .73: n = r.choice(['UNDEFINED', 'int', 'x', 'if_', 'sizeof_', 'return']); return E(n, '0L')
        if x < .79: c, v = r.choice(CC); return E(c, '((long) %d)' % v)
        return s.num()
    def expr(s, d, m):
        r = s.r
        if d == 0 or r.random() < .08: return s.leaf(m)
        x = r.random(); par = lambda e, p: E('(%s)' % e.src, e.ref, 99, e.u) if e.p < p or r.random() < .15 else e; sp = r.choice([' ', ' ', '', '/* c */', '  ', ' \\\n', '\t'])
        if x < .18:
            o = r.choice('-~+!'); e = par(s.expr(d - 1, m), 90); return E(o + (' ' if e.src[0] in '-+' or r.random() < .1 else '') + e.src, '((long) !%s)' % e.ref if o == '!' else '(%s%s)' % (o, e.ref), 90, e.u and o != '!')
        if x < .26: # function-like macros with a constant definition
            a, b = s.expr(d - 1, m), s.expr(d - 1, m); k = r.randrange(3); ar = lambda e: E('(%s)' % e.src, e.ref) if ',' in e.src else e; a, b = ar(a), ar(b); u = a.u or b.u
            return [E('ADD(%s, %s)' % (a.src, b.src), '(%s + %s)' % (a.ref, b.ref), u=u), E('LT(%s,%s)' % (a.src, b.src), '((long) (%s < %s))' % (a.ref, b.ref)), E('ID (%s)' % a.src, a.ref, u=a.u)][k]
        o = r.choice(OPS); p = PREC[o]
        if o == '?': a, b, c = par(s.expr(d - 1, m), 2), s.expr(d - 1, m), par(s.expr(d - 1, m), 1); return E('%s ?%s%s : %s' % (a.src, sp, b.src, c.src), '(%s ? %s : %s)' % (a.ref, b.ref, c.ref), 1, b.u or c.u)
        a = par(s.expr(d - 1, m), p)
        if o in ('<<', '>>'): k = r.choice(['0', '1', '4', '31', '32', '40', '63', '3u']); b = E(k, k)
        elif o in '/%': k = r.choice(['1', '3', '10', '16', '7u', '(-1)', '(-3)', '100', '65537']); b = E(k, '(%s)' % k.replace('u', 'UL') if 'u' in k else '(long) %s' % k, u='u' in k)
        elif o == '*': b = s.num() if m.lits <= 0 or r.random() < .5 else s.sym(r.choice([3, 5])); m.lits -= 'L' in b.ref and '_(' in b.ref; b = b
        else: b = s.expr(d - 1, m)
        b = par(b, p + 1)
        if o in '+-' and b.src[0] in '+-' or o == '/' or a.src[-1] == '/': sp = ' '
        if o == '&' and b.src[0] == '&': sp = ' '
        if o in ('&&', '||', '<', '>', '<=', '>=', '==', '!='): return E('%s%s%s%s%s' % (a.src, sp, o, sp, b.src), '((long) (%s %s %s))' % (a.ref, o, b.ref), p)
        return E('%s%s%s%s%s' % (a.src, sp, o, sp, b.src), '(%s %s %s)' % (a.ref, o, b.ref), p, a.u if o in ('<<', '>>') else a.u or b.u)
    GARB = ['#error "not here"', '#include <does/not/exist.h>', '#if garbage ((( +', '#endif', '#ifdef', '#nonsense 3 4', '"unclosed', '@ ` $', '#define', '#undef A', '#define A 77', '#line 5 "zz"', '#pragma once', "it's", '#warning x', '#', '/* #endif */', 'int 3x = 0x;', '#if 1', 'q = 4;', '#else', '#endif', '#elif 1/0', '#include "nope.h"', '# define B 4', '#ifndef A', '\\', '# 7 "a.c"']
    def garbage(s):
        """what a skipped group may contain"""
        r = s.r; o = []; st = [0]
        for _ in range(r.randrange(0, 5)):
            g = r.choice(s.GARB)
            if g.startswith('#if'): st.append(0)
            elif g == '#endif':
                if len(st) == 1: continue
                st.pop()
            elif g == '#else':
                if len(st) == 1 or st[-1]: continue
                st[-1] = 1
            elif g.startswith('#elif'):
                if len(st) == 1 or st[-1]: continue
            elif g in ('"unclosed', "it's", '\\'): g = 'word' # undefined in C89 / joins lines
            o.append(g)
        return o + ['#endif'] * (len(st) - 1)
    def group(s, d, m):
        """lines of the source and of the reference"""
        r = s.r; a = []; b = []
        for _ in range(r.randrange(1, 4)):
            x = r.random(); k = r.randrange(1, 100)
            if x < .3: a.append('r = r * 7 + %d;' % k); b.append('r = r * 7 + %d;' % k)
            elif x < .42:
                n = r.choice(NAMES); v = r.choice(['0', '1', '3', '100', '(-2)', '0x7fffffffff', '']) if 0 else r.choice(['0', '1', '3', '100', '(-2)', '0x7fffffffff'])
                a += ['#undef %s' % n, '%sdefine%s%s %s' % (r.choice(['#', '# ', '  #', '#\t', '/**/#/**/']), r.choice([' ', '/* x */', '  ']), n, v)]; b.append('d%s_{n} = 1; v%s_{n} = %sL;' % (n, n, v.strip('()')))
            elif x < .48: n = r.choice(NAMES); a.append('#undef %s' % n); b.append('d%s_{n} = 0;' % n)
            elif d and m.ifs > 0:
                m.ifs -= 1; y = r.random(); done = 0
                if y < .2: n = r.choice(NAMES); z = r.random() < .5; a.append('#%s %s' % ('ifdef' if z else 'ifndef', n)); b.append('if (%sd%s_{n}) {' % ('' if z else '!', n))
                elif y < .3: a.append(r.choice(['#if 0', '#ifdef UNDEFINED', '#if UNDEFINED'])); b.append('if (0) {'); a += s.garbage(); done = 1
                else: e = s.expr(r.choice([1, 2, 2, 3]), m); a.append('#if %s' % e.src); b.append('if (%s) {' % e.ref)
                if not done: x, y = s.group(d - 1, m); a += x; b += y
                for _ in range(r.choice([0, 0, 1, 1, 2])):
                    e = s.expr(r.choice([0, 1, 2]), m); a.append('#elif %s' % e.src); b.append('} else if (%s) {' % e.ref); x, y = s.group(d - 1, m); a += x; b += y
                if r.random() < .7: a.append(r.choice(['#else', '# else', '#else /* no */'])); b.append('} else {'); x, y = s.group(d - 1, m); a += x; b += y
                a.append('#endif'); b.append('}')
        return a, b
class M: pass
MAC = '#define ADD(a, b) ((a) + (b))\n#define LT(a,b) ((a) < (b))\n#define ID(x) x\n'.replace('x) x', 'x) (x)')
def fn(g, n, lits, ifs):
    m = M(); m.lits = lits; m.vars = 1; m.ifs = ifs
    while 1:
        m.lits = lits; m.ifs = ifs; keep = list(g.s.lits); a, b = g.group(3, m)
        if m.ifs < ifs: break
        g.s.lits = keep
    N = lambda t: t.replace('{n}', str(n))
    src = '\n'.join(['#undef %s' % q for q in NAMES] + ['int t_%d(void) { int r = 1;' % n] + a + ['return r; }'])
    ref = 'int t_%d(void) { int r = 1; %s %s return r; }' % (n, ' '.join('int d%s_{n} = 0; long v%s_{n} = 0;' % (q, q) for q in NAMES), '\n'.join(b))
    return N(src), N(ref)
def main(tier):
    c = Check('P13', 'preprocessor conditions', 'translation_validation', tier); r = c.rnd; k = 0
    def unit(name, g, parts):
        x = g.s.build(MAC + '\n'.join(p[0] for p in parts) + '\n', '\n'.join(p[1] for p in parts)); c.add(Unit(name, x[0], refsrc=x[1], syms=x[2], symrefs=x[3], opts={'nummap': 1, 'max_paths': c.pick(150, 3000), 'partial': 1}))
    # every operator over two symbolic literals
    for i, o in enumerate(OPS + ['!', '~', '-', '+'] + OPS * c.pick(1, 8)):
        g = Gen(r); n = i
        a = g.sym(); b = g.sym() if o not in ('&&', '||', '?') else g.sym(r.choice([3, 16, 33]))
        if o in ('<<', '>>'): b = g.sym(r.choice([3, 5]))
        if o in '*': a = g.sym(r.choice([8, 16])); b = g.sym(r.choice([3, 5]))
        if o in '/%': a = g.sym(r.choice([8, 12])); b = g.sym(3); b = E('(%s + 1)' % b.src, '(%s + 1)' % b.ref, u=b.u)
        w = E('(-%s)' % a.src, '(-%s)' % a.ref, u=a.u) if r.random() < .3 else a
        K = r.choice(['0', '1', '5', '100', '255', '4294967296', '9223372036854775807'])
        if o in '!~-+' and i < len(OPS) + 4 and i >= len(OPS): e = E('%s %s' % (o, w.src), '((long) !%s)' % w.ref if o == '!' else '(%s %s)' % (o, w.ref))
        elif o == '?': e = E('%s ? %s : %s' % (w.src, b.src, K), '(%s ? %s : %sL)' % (w.ref, b.ref, K))
        else: e = E('%s %s %s' % (w.src, o, b.src), '%s %s %s' % (w.ref, o, b.ref)); e.ref = '((long) (%s))' % e.ref if PREC[o] < 9 and o not in '&|^' else '(%s)' % e.ref
        q = r.choice(['==', '<', '>', '!='])
        unit('op%d' % i, g, [('int t_%d(void) {\n#if (%s) %s %s\nreturn 1;\n#elif %s\nreturn 2;\n#else\nreturn 3;\n#endif\n}' % (n, e.src, q, K, e.src), 'int t_%d(void) { if (%s %s %sL) return 1; else if (%s) return 2; return 3; }' % (n, e.ref, q, K, e.ref))])
    for i in range(c.pick(150, 3000)):
        g = Gen(r); unit('g%d' % i, g, [fn(g, i, 2, r.choice([2, 3, 4]))])
    # groups without symbolic literals: structure, macros and skipped text
    for i in range(c.pick(60, 1000)):
        g = Gen(r); unit('c%d' % i, g, [fn(g, i * 10 + j, 0, 6) for j in range(6)])
    c.run_units(deadline=c.pick(300, 3000)); c.validate_samples(c.pick(4, 20))
    return c.finish()
