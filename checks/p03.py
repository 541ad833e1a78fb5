"""P03: floating point arithmetic, comparison and conversion (float, double, long double)."""
from check import *
from corpus import operand, T
F = ['float', 'double', 'long double']
KINDS = ['param', 'param', 'global', 'local', 'array', 'larray', 'deref', 'member', 'arrow', 'call', 'volatile']
FC = ['1.0', '2.0', '-1.0', '0.5', '3.25', '1e10', '1.5f', '2.5l', '100.0', '3.0f', '7.0l', '-2.5']      # exact in every type
INEX = {'float': ['0.1', '0.1f', '0.1l', '1e-5', '123456789.0', '1e300'], 'double': ['0.1', '0.1l', '1e-5', '123456789.0', '1e300'], 'long double': ['0.1l', '1e-3l']}   # C89 allows constants excess precision: only where that cannot show
CMP = ['<', '<=', '>', '>=', '==', '!=']
def fn(r, rt, e, ta, tb, ka, kb, how, extra=''):
    ga, da, sa, ea = operand(r, ta, 'a', ka); gb, db, sb, eb = operand(r, tb, 'b', kb) if tb else ('', '', '', '')
    ex = e.format(a=ea, b=eb); pr = ', '.join(['%s a' % ta] + (['%s b' % tb] if tb else []))
    b = {'ret': 'return %s;', 'if': 'if (%s) return 3; return 5;', 'ifnot': 'if (!(%s)) return 3; return 5;', 'cond': 'return (%s) ? 11 : 12;', 'while': '{ int n; n = 0; while (%s) { n++; if (n == 1) break; } return n; }', 'and': 'return (%s) && 1;', 'or': 'return (%s) || 0;', 'not': 'return !(%s);', 'for': '{ int i; for (i = 0; %s; i++) if (i) return 9; return 2; }', 'do': '{ int i = 0; do { if (i++) return 9; } while (%s); return 2; }'}.get(how)
    if how == 'local': b = '{ %s r; r = %s; return r; }' % (rt, ex)
    elif how == 'global': ga += ' %s g_r{n};' % rt; b = 'g_r{n} = %s; return 0;' % ex
    elif how == 'store': ga += ' %s g_r{n}[3];' % rt; b = 'g_r{n}[1] = %s; return 0;' % ex
    elif how == 'arg': ga += ' %s f{n}(char z, %s y) { return y; }' % (rt, rt); b = 'return f{n}(1, %s);' % ex
    elif how == 'init': b = '{ %s r = %s; return r; }' % (rt, ex)
    else: b = b % ex
    return '%s %s\n%s t_{n}(%s) { %s %s %s %s %s }' % (ga, gb, 'int' if how in ('if', 'ifnot', 'cond', 'while', 'and', 'or', 'not', 'for', 'do', 'global', 'store') else rt, pr, da, db, sa, sb, b)
def corpus(r, quick):
    out = []; VAL = ['ret', 'ret', 'local', 'global', 'store', 'arg', 'init']; BOOL = ['if', 'ifnot', 'cond', 'while', 'and', 'or', 'not', 'ret', 'for', 'do']
    def kk(): return r.choice(KINDS)
    N = 1 if quick else 5
    for op in ['+', '-', '*', '/']:
        for ta in F:
            for tb in F + T:
                for _ in range(N): out.append(fn(r, max(ta, tb if tb in F else ta, key=F.index), '{a} %s {b}' % op, ta, tb, kk(), kk(), r.choice(VAL)))
                for _ in range(N): out.append(fn(r, max(ta, tb if tb in F else ta, key=F.index), '{b} %s {a}' % op, ta, tb, kk(), kk(), r.choice(VAL)))
    for op in CMP:
        for ta in F:
            for tb in F + ['int', 'long', 'char', 'unsigned', 'unsigned long']:
                for how in (r.sample(BOOL, 3) if quick else BOOL): out.append(fn(r, 'int', '{a} %s {b}' % op, ta, tb, kk(), kk(), how))
                out.append(fn(r, 'int', '{b} %s {a}' % op, ta, tb, kk(), kk(), r.choice(BOOL)))
            for c in (r.sample(FC + INEX[ta] + ['0.0', '0', '1', '-5', '0.0f', '0.0l'], 5) if quick else FC + INEX[ta] + ['0.0', '0', '1', '-5', '0.0f', '0.0l']):
                out.append(fn(r, 'int', ('{a} %s ' + c) % op, ta, None, kk(), None, r.choice(BOOL))); out.append(fn(r, 'int', (c + ' %s {a}') % op, ta, None, kk(), None, r.choice(BOOL)))
    for ta in F:
        cst = {'float': '1.5f', 'double': '1.5', 'long double': '1.5l'}[ta]
        for op in '+-*/':
            for ka in ['param', 'global', None]:
                for kb in ['param', 'global', None]:
                    if ka == kb == None: continue
                    if op == '/' and ta == 'long double' and quick and r.random() < .5: continue
                    ga, da, sa, ea = operand(r, ta, 'a', ka) if ka else ('', '', '', cst); gb, db, sb, eb = operand(r, ta, 'b', kb) if kb else ('', '', '', cst)
                    out.append('%s %s %s g_r{n}; %s t_{n}(%s a, %s b) { %s }' % (ga, gb, ta, ta, ta, ta, r.choice(['return %s %s %s;' % (ea, op, eb), 'g_r{n} = %s %s %s; return 0;' % (ea, op, eb)])))
    # every comparison of registers, memory and constants, as a value and as a condition
    for ta in F:
        cst = {'float': '1.5f', 'double': '1.5', 'long double': '1.5l'}[ta]
        for op in CMP:
            for ka in ['param', 'global', None]:
                for kb in ['param', 'global', None]:
                    if ka == kb == None: continue
                    ga, da, sa, ea = operand(r, ta, 'a', ka) if ka else ('', '', '', cst); gb, db, sb, eb = operand(r, ta, 'b', kb) if kb else ('', '', '', cst)
                    out.append('%s %s int t_{n}(%s a, %s b) { int i = %s %s %s; if (%s %s %s) return i * 2 + 5; return i; }' % (ga, gb, ta, ta, ea, op, eb, ea, op, eb))
    for op in ['+', '-', '*', '/']:
        for ta in F:
            for c in (r.sample(FC + INEX[ta], 6) if quick else FC + INEX[ta]):
                ft = 'float' if c.endswith('f') else 'long double' if c.endswith('l') else 'double'
                out.append(fn(r, max(ta, ft, key=F.index), ('{a} %s ' + c) % op, ta, None, kk(), None, r.choice(VAL))); out.append(fn(r, max(ta, ft, key=F.index), (c + ' %s {a}') % op, ta, None, kk(), None, r.choice(VAL)))
    # conversions between all arithmetic types
    for ta in F + T:
        for tb in F + T:
            if ta not in F and tb not in F: continue
            for e in ['({t}) {{a}}'.format(t=tb), '{a}']:
                for _ in range(1 if quick else 4): out.append(fn(r, tb, e, ta, None, kk(), None, r.choice(VAL)))
    for ta in F:
        for op in ['-', '+', '!', '!!', '- -', '!-']:
            for how in (r.sample(VAL + BOOL, 2)): out.append(fn(r, ta if '!' not in op else 'int', op + '{a}', ta, None, kk(), None, how))
        for how in BOOL: out.append(fn(r, 'int' if how != 'ret' else ta, '{a}', ta, None, kk(), None, how))
        for k in ['global', 'local', 'array', 'deref', 'member', 'volatile', 'param']:
            for o in ['++%s', '--%s', '%s++', '%s--']:
                g, d, s, e = operand(r, ta, 'a', k); out.append('%s %s t_{n}(%s a) { %s %s { %s v; v = %s; return v + %s; } }' % (g, ta, ta, d, s, ta, o % (e if k != 'deref' else '(%s)' % e), e))
            for op in ['+=', '-=', '*=', '/=']:
                tb = r.choice(F + ['int', 'long', 'char']); g, d, s, e = operand(r, ta, 'a', k); out.append('%s %s t_{n}(%s a, %s b) { %s %s %s %s b; return %s; }' % (g, ta, ta, tb, d, s, e, op, e))
            if k != 'param':
                it = r.choice(['int', 'long', 'short', 'unsigned char']); g, d, s, e = operand(r, it, 'b', k); out.append('%s long t_{n}(%s b, %s a) { %s %s return %s %s a; }' % (g, it, ta, d, s, e, r.choice(['+=', '-=', '*=', '='])))
        out += ['%s t_{n}(int c, %s a, %s b) { return c ? a : b; }' % (x, ta, tb) for tb in F + ['int', 'long', 'char'] for x in [ta if tb not in F else max(ta, tb, key=F.index)]]
        out += ['int t_{n}(%s a, %s b) { return a && b; }' % (ta, tb) for tb in F + ['int']] + ['int t_{n}(%s a, %s b) { return a || b; }' % (tb, ta) for tb in F + ['int']]
        out += ['int t_{n}(%s a, %s b) { return a < b || a > b || a == b; }' % (ta, ta), 'int t_{n}(%s a) { return a != a; }' % ta, 'int t_{n}(%s a, %s b) { int r = a < b; return r + (a >= b) * 2 + (a == b) * 4; }' % (ta, ta), 'long t_{n}(%s a) { return sizeof(a) + sizeof(a + 1) + sizeof(a + 1.0f) + sizeof(a * 1.0) + sizeof(a ? a : 1) + sizeof(a == a) + sizeof(!a) + sizeof(-a); }' % ta,
                'int t_{n}(%s a) { switch (a > 1) { case 0: return 5; default: return 7; } }' % ta, '%s t_{n}(%s a, %s b, %s c, %s d) { return a * b + c / d - a; }' % (ta, ta, ta, ta, ta), '%s t_{n}(%s a, int i) { %s x[4]; x[i & 3] = a; x[(i + 1) & 3] = 1; return x[i & 3]; }' % (ta, ta, ta)]
    for i in range(60 if quick else 1500):
        ts = [r.choice(F + ['int', 'long', 'float', 'double', 'unsigned', 'char']) for _ in range(4)]
        def ex(d):
            if d == 0 or r.random() < .2: return r.choice(['a', 'b', 'c', 'd', r.choice(FC), '3'])
            x = r.random()
            if x < .1: return '(- %s)' % ex(d - 1)
            if x < .2: return '((%s) %s)' % (r.choice(F), ex(d - 1))
            if x < .3: return '(%s %s %s ? %s : %s)' % (ex(d - 1), r.choice(CMP), ex(d - 1), ex(d - 1), ex(d - 1))
            if x < .35: return '(%s %s %s)' % (ex(d - 1), r.choice(CMP), ex(d - 1))
            return '(%s %s %s)' % (ex(d - 1), r.choice('++-*'), ex(d - 1))
        out.append('double t_{n}(%s) { return a + %s; }' % (', '.join('%s %s' % (t, v) for t, v in zip(ts, 'abcd')), ex(3)))
    return out
def main(tier):
    c = Check('P03', 'floating point arithmetic, comparison and conversion', 'translation_validation', tier)
    fs = corpus(c.rnd, c.quick); c.rnd.shuffle(fs); c.add_fns('fp', fs, per=25)
    for t in F: c.add(Unit('fold0' + t[0], '%s t_0(%s a) { return a * 0; } %s t_1(%s a) { return 0.0f * a; } %s t_2(%s a) { return a / 0.0f; } %s t_3(%s a) { return 1 / (a * 0.0f); }\n' % ((t,) * 8)))
    c.run_units(deadline=c.pick(240, 3000)); c.validate_samples(c.pick(4, 20))
    return c.finish()
