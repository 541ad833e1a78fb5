"""P01: integer arithmetic, comparison and logic."""
from check import *
from corpus import *
ARITH = ['+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>']
CMP = ['<', '<=', '>', '>=', '==', '!=']
LOG = ['&&', '||']

def fn(r, rt, e, ta, tb, ka, kb, how):
    ga, da, sa, ea = operand(r, ta, 'a', ka); gb, db, sb, eb = operand(r, tb, 'b', kb) if tb else ('', '', '', None)
    ex = e.format(a=ea, b=eb); pr = ', '.join(['%s a' % ta] + (['%s b' % tb] if tb else []))
    if how == 'ret': body = 'return %s;' % ex
    elif how == 'local': body = '{ %s r; r = %s; return r; }' % (rt, ex)
    elif how == 'global': ga += ' %s g_r{n};' % rt; body = 'g_r{n} = %s; return 0;' % ex
    elif how == 'if': body = 'if (%s) return 3; return 5;' % ex
    elif how == 'ifnot': body = 'if (!(%s)) return 3; return 5;' % ex
    elif how == 'cond': body = 'return (%s) ? 11 : 12;' % ex
    elif how == 'while': body = '{ int n; n = 0; while (%s) { n++; if (n == 1) break; } return n; }' % ex
    elif how == 'both': body = '{ %s r; r = %s; return r + (%s); }' % (rt, ex, ex)
    elif how == 'store': ga += ' %s g_r{n}[4];' % rt; body = 'g_r{n}[2] = %s; return 0;' % ex
    return '%s %s\n%s t_{n}(%s) { %s %s %s %s %s }' % (ga, gb, rt, pr, da, db, sa, sb, body)

HOWS = ['ret', 'ret', 'local', 'global', 'if', 'ifnot', 'cond', 'while', 'both', 'store']
def corpus(r, quick):
    out = []
    def rtype(): return r.choice(['int', 'long', 'unsigned', 'unsigned long', 'short', 'char'])
    for op in ARITH + CMP + LOG:
        for ta in T:
            for tb in T:
                if quick and (T.index(ta) + T.index(tb)) % 2 == (hash_(op) + int(SEED)) % 2 and ta not in ('int', 'long', 'unsigned'): continue
                hows = HOWS if op in CMP + LOG else ['ret', 'ret', 'local', 'global', 'both', 'store', 'if']
                combos = [(r.choice(KINDS), r.choice(KINDS))] if quick else [(ka, kb) for ka in ('param', 'global', 'local', 'deref', 'member') for kb in ('param', 'array', 'local', 'arrow')]
                for ka, kb in combos: out.append(fn(r, r.choice(['long', 'unsigned long', 'int', 'long']), '{a} %s {b}' % op, ta, tb, ka, kb, r.choice(hows)))
    for op in ARITH + CMP + LOG:
        for ta in T:
            cs = CONST + NEG
            if op in ('<<', '>>'): cs = [str(i) for i in range(0, 64 if 'long' in ta else 32)]
            if op in ('/', '%'): cs = [c for c in cs if c != '0' and not signed_pow2(op, ta, c)]
            if quick: cs = r.sample(cs, min(len(cs), 9))
            for c in cs:
                k = r.choice(KINDS); side = r.random() < 0.65 or op in ('<<', '>>')
                out.append(fn(r, r.choice(['long', 'int', 'unsigned long']), '{a} %s %s' % (op, c) if side else '%s %s {a}' % (c, op), ta, None, k, None, r.choice(HOWS if op in CMP + LOG else ['ret', 'ret', 'local', 'both', 'global', 'if'])))
    for op in ['-', '~', '!', '+', '!!', '- -', '~-', '-~', '!-', '!~']:
        for ta in T:
            for how in (['ret', 'if'] if quick else HOWS): out.append(fn(r, 'long', op + '{a}', ta, None, r.choice(KINDS), None, how))
    # registers, memory and constants on both sides, as a value and as a condition
    for op in ARITH + CMP:
        for ta in (T if op in CMP else T[4:]):
            for ka, kb in [('param', 'param'), ('param', 'global'), ('global', 'param'), ('global', 'global'), (None, 'global'), ('global', None), (None, 'param'), ('param', None)]:
                if op in ('*', '/', '%') and quick and r.random() < .5: continue
                c = r.choice(['3', '100', '77', '12', '5'] if op in ('<<', '>>') and kb is None or op in ('/', '%') else ['3', '100', '-1', '-100', '0', '1'])
                if op in ('<<', '>>') and kb is None: c = r.choice(['1', '3', '17', '31'])
                ga, da, sa, ea = operand(r, ta, 'a', ka) if ka else ('', '', '', '(%s) %s' % (ta, c)); gb, db, sb, eb = operand(r, ta, 'b', kb) if kb else ('', '', '', '(%s) %s' % (ta, c))
                e = '%s %s %s' % (ea, op, eb)
                if op in CMP: out.append('%s %s int t_{n}(%s a, %s b) { int i = %s; if (%s) return i * 2 + 5; return i; }' % (ga, gb, ta, ta, e, e))
                else: out.append('%s %s %s g_r{n}; %s t_{n}(%s a, %s b) { g_r{n} = %s; return %s; }' % (ga, gb, ta, ta, ta, ta, e, e))
    # nested expressions
    def ex(d):
        if d == 0 or r.random() < 0.15:
            x = r.random()
            return r.choice('ab') if x < 0.7 else r.choice(['c', 'd', 's_q{n}']) if x < 0.85 else r.choice(CONST[:30] + NEG[:8])
        op = r.choice(ARITH + CMP + LOG + ['-', '+', '&', '*'])
        if op in ('/', '%'): return '(%s %s (%s | 1))' % (ex(d - 1), op, ex(d - 2 if d > 1 else 0))
        if op in ('<<', '>>'): return '(%s %s (%s & 15))' % (ex(d - 1), op, ex(d - 2 if d > 1 else 0))
        if op == '*' and d > 1: return '(%s * %s)' % (ex(d - 1), r.choice(['a', 'b', '3', '8', '10', '-5']))
        if r.random() < 0.1: return '(%s%s)' % (r.choice('-~!'), ex(d - 1))
        if r.random() < 0.07: return '(%s ? %s : %s)' % (ex(d - 1), ex(d - 1), ex(d - 1))
        if r.random() < 0.07: return '((%s) %s)' % (r.choice(T), ex(d - 1))
        return '(%s %s %s)' % (ex(d - 1), op, ex(d - 1))
    for i in range(150 if quick else 3000):
        ts = [r.choice(T) for _ in range(5)]
        out.append('%s s_q{n}; %s t_{n}(%s a, %s b, %s c, %s d) { return %s; }' % (ts[0], r.choice(T + ['long', 'int']), ts[1], ts[2], ts[3], ts[4], ex(r.choice([2, 3, 3, 4]))))
    return out
# precedence and associativity: no parentheses; the operands are small so that every parse is defined, and different parses give different values
POPS = ['+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>', '<', '>', '<=', '>=', '==', '!=', '&&', '||']
def prec(r, quick):
    H = 'struct P{n} { int m, n[3]; struct P{n} *p; }; long t_{n}(%s a, %s b, %s c, %s d) { struct P{n} s, *q = &s; int x[3], *p = x; long v = 9; unsigned char *o = (unsigned char *) &s; s.m = 5; s.n[0] = 4; s.n[1] = 3; s.n[2] = 1; s.p = q; x[0] = 6; x[1] = 2; x[2] = 8; a &= 15; b = b & 3 | 4; c = (c & 1) + 1; d = (d & 1) + 2; %s }'
    T4 = lambda: tuple(r.choice(['int', 'int', 'unsigned', 'long', 'short', 'unsigned char']) for _ in range(4)); out = []
    ret = lambda e: H % (T4() + ('return %s;' % e,))
    pair = [(x, y) for x in POPS for y in POPS]
    for x, y in pair: out.append(ret('a %s b %s c' % (x, y)))
    for _ in range(120 if quick else 1500):
        k = r.randrange(3, 5); o = [r.choice(POPS) for _ in range(k)]; e = 'a'
        for i, q in enumerate(o): e += ' %s %s' % (q, 'bcdc'[i] if q in ('<<', '>>', '/', '%') else r.choice(['b', 'c', 'd', 'a', '3', '1', '~c', '-d', '!b', '(char) c', '*p', 'p[1]', 's.m', 'q->m', 'sizeof c', 'sizeof(int)', 'q->p->n[1]']))
        out.append(ret(e))
    U = ['-a', '!a', '~a', '+a', '(char) a', '(long) -a', '- -a', '!~a', '*p', '*p++', '*++p', '++*p', '(*p)++', '-p[1]', '!q->m', '-s.n[1]', '*s.n', '*q->n', '*&a', '(char) s.m', '(unsigned char) q->n[1]', 'sizeof a', 'sizeof(int)', 'sizeof p[1]', 'sizeof *p', 'sizeof(int) * 2', 'sizeof -a', '*p--', 'a++', '--a', '-a++', '!a--', '~--a', '*(p + 1)', '(*q).m', '(*q->p).m', '*&q->m', '(int) sizeof(char) - 3', '&x[2] - p', '&s.n[2] - s.n', '*q->p->n', '-q->p->m']
    for u in U:
        for op in (r.sample(POPS, 5) if quick else POPS): out.append(ret('%s %s %s' % (u, op, 'd' if op in ('<<', '>>') else r.choice(['b', 'd']))) if r.random() < .5 or op in ('/', '%', '<<', '>>') else ret('d %s %s' % (op, u)))
    S = ['a ? b : c', 'a > 3 ? b : c ? d : 5', 'a ? b > 4 ? 1 : 2 : c', 'a ? b, c : d', 'a || b ? c : d', 'a == b ? c + 1 : d * 2', 'v = a ? b : c', 'v = a, b', '(v = a, b)', 'v = b = a + c', 'v += b = a', 'v -= a - b', 'v *= a + b', 'v <<= c + d', 'v >>= c | 1', 'v |= a == b', 'v ^= a & b', 'v &= a || b', 'v %= b + c', 'v /= b - c', 'v = a < b == c', 'v = a & b == c', 'v = a ^ b | c', 'v = a == b & c', 'v = !a == b', 'v = -a + b', 'v = a - -b', 'v = a+++b', 'v = a-- - b', 'v = a - --b', 'v = ~a & b', 'v = a ? b = c, 7 : d', 'v = 1, a ? b : c', 'v = a << b + 1 < c', 'v = a < b << c', 'v = a <= b >> c', 'v = a > b << 1', 'v = a >= b >> 1', 'v = a + b < c << d', 'a = b ? c : d, v = a', 'v = a && b || c && d', 'v = a || b && c', 'v = a | b && c ^ d', 'v += a ? b : c', 'v = (char) a + b << c', 'v = sizeof a + b', 'v = a * *p', 'v = a / *p', 'v = a & *&b', 'v = a && *p', 'v = a - *p++', '*p = a, v = x[0]', '*p++ = a, v = p - x', '*p += b, v = *x', 'q->m = s.n[1] = a, v = s.m', 'v = q->p->p->m++ + a', 'v = x[c ? 1 : 2]', 'v = x[c = 1, c]', 'v = x[a & 1] + b']
    for t in S:
        for e in ([t] if quick else [t, t, t]): out.append(H % (T4() + ('%s; return v * 31 + a * 17 + b * 5 + c;' % e if '=' in e.replace('==', '').replace('<=', '').replace('>=', '').replace('!=', '') else 'return %s;' % e,)))
    return out
def hash_(s): return sum(map(ord, s))
def main(tier):
    c = Check('P01', 'integer arithmetic', 'translation_validation', tier)
    fs = corpus(c.rnd, c.quick); c.rnd.shuffle(fs)
    c.add_fns('int', fs, per=25)
    c.add_fns('modpow2', ['%s t_{n}(%s a) { return a %% %s; }' % (t, t, k) for t, k in [('int', '8'), ('int', '2'), ('int', '1073741824'), ('long', '16'), ('short', '4'), ('char', '64'), ('long', '4294967296l')]])
    c.add_fns('prec', prec(c.rnd, c.quick), per=20)
    c.run_units(deadline=c.pick(200, 3000)); c.validate_samples(c.pick(4, 20))
    return c.finish()
