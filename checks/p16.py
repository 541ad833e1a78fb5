"""P16: register pressure, spilling, coalescing and phi elimination. Programs keep more values live than there are registers,
across calls, loops, divisions, shifts and copies; every variable is stored to a global at the end and compared with the reference."""
from check import *
from corpus import *
IT = ['char', 'unsigned char', 'short', 'unsigned short', 'int', 'int', 'unsigned', 'long', 'long', 'unsigned long']
CLOB = '__asm__ volatile("movq $-3, %%rax\\n movq $-5, %%rcx\\n movq $-7, %%rdx\\n movq $-9, %%rsi\\n movq $-11, %%rdi\\n movq $-13, %%r8\\n movq $-15, %%r9\\n movq $-17, %%r10\\n movq $-19, %%r11\\n" ::: "rax", "rcx", "rdx", "rsi", "rdi", "r8", "r9", "r10", "r11");' + '__asm__ volatile("%s" ::: %s);' % (' '.join('movq %%%%rax, %%%%xmm%d\\n' % i for i in range(16)), ', '.join('"xmm%d"' % i for i in range(16)))
FLAGS = [(), (), ('-fno-live-range-coalescing',), ('-fspill-furthest-liveness-end',), ('-fno-dont-spill-short-live-ranges',), ('-fPIC',), ('-fno-optimize-arithmetic',), ('-fno-vreg-renumbering',), ('-fno-live-range-coalescing', '-fspill-furthest-liveness-end'), ('-fno-dont-spill-short-live-ranges', '-fno-vreg-renumbering', '-g')]
class G:
    def __init__(s, r, nv, np, fp, calls): s.r = r; s.fp = fp; s.calls = calls; s.t = [r.choice(IT) for _ in range(nv)]; s.np = np; s.forks = 0; s.div = 0; s.loops = 0; s.cnt = 0; s.decl = []; s.nf = 6 if fp else 0; s.ft = [r.choice(['double', 'double', 'float']) for _ in range(s.nf)]; s.fb = r.choice([2, 4]); s.ops = r.choice([['+', '-'], ['+', '-'], ['^', '|', '&'], ['^']])
    def v(s): return 'v%d' % s.r.randrange(len(s.t))
    def p(s): return 'p%d' % s.r.randrange(s.np) if s.np else s.v()
    def pv(s): return s.p() if s.r.random() < .6 else s.v()
    def sv(s): return 'v%d' % (s.r.randrange(len(s.t)) if s.r.random() < .5 else min(len(s.t) - 1, s.cnt % len(s.t)))
    def cond(s): s.forks += 1; return '%s %s %s' % (s.v(), s.r.choice(['<', '>', '<=', '>=', '==', '!=']), s.r.choice([s.v(), s.v(), '3', '-1', '100']))
    def expr(s, d):
        r = s.r
        if d <= 0 or r.random() < .15: return s.pv() if r.random() < .9 else str(r.choice([1, 3, 255, 65537, 4294967297]))
        x = r.random()
        if x < .6: return '(%s %s %s)' % (s.expr(d - 1), r.choice(s.ops), s.expr(d - 1))
        if x < .68: return '(%s %s %d)' % (s.p(), r.choice(['<<', '>>']), r.randrange(1, 8))
        if x < .76: return '(%s %s (%s & 7))' % (s.p(), r.choice(['<<', '>>']), s.p())
        if x < .82: return '(%s) %s' % (r.choice(IT), s.v())
        if x < .88 and s.div < 2: s.div += 1; return '((unsigned char) %s %s ((%s & 7) + 1))' % (s.p(), r.choice(['/', '%']), s.p())
        if x < .93: return '-' + s.v() if s.ops[0] == '+' else '~' + s.v()
        if s.calls and r.random() < .6: return 'f{n}(%s, %s)' % (s.v(), s.v())
        return '(%s * %d)' % (s.p(), r.choice([3, 5, 8, 10]))
    def fstmt(s):
        r = s.r; a, b, c = ('d%d' % r.randrange(s.nf) for _ in range(3)); x = r.random()
        if x < .3: return '%s = %s %s %s;' % (a, r.choice(['d0', 'd1']), r.choice(['+', '-']), r.choice(['d0', 'd1']))
        if x < .5: return '%s = %s;' % (a, b)
        if x < .65: return '%s = %s;' % (a, s.p())
        if x < .8 and s.forks < s.fb: s.forks += 1; return 'if (%s %s %s) %s = %s;' % (b, r.choice(['<', '==', '>=']), c, a, r.choice([b, c]))
        if x < .9: return '%s = %s %s %s;' % (s.v(), b, r.choice(['<', '!=']), c)
        return 'z = %s; %s = %s; %s = z;' % (a, a, b, b)
    def stmt(s, d=2):
        r = s.r; x = r.random(); s.cnt += 1
        if s.fp and r.random() < .4: return s.fstmt()
        if x < .46: return '%s = %s;' % (s.v(), s.expr(r.choice([1, 2, 3, 4])))
        if x < .56: return '%s %s= %s;' % (s.v(), r.choice(s.ops), s.expr(2))
        if x < .60: return '%s = %s %s (%s & 7);' % (s.v(), s.p(), r.choice(['<<', '>>']), s.p())
        if x < .64: return s.v() + r.choice(['++;', '--;'])
        if x < .70 and s.calls: return r.choice(['clob();', 'clob();', '%s = f{n}(%s, %s);' % (s.v(), s.expr(1), s.v()), 'g{n}(&%s, %s);' % ('w', s.v()), '%s = h{n}(%s, %s, %s, %s, %s, %s, %s, %s);' % tuple(s.v() for _ in range(9))])
        if x < .76: a, b = s.v(), s.v(); return 'y = %s; %s = %s; %s = y;' % (a, a, b, b)
        if x < .80: return 'w = %s; %s = w + 1;' % (s.v(), s.v())
        if x < .84: return 's_o{n}[%d] = %s; %s = s_o{n}[%d];' % (r.randrange(4), s.v(), s.v(), r.randrange(4))
        if x < .92 and s.forks < s.fb and d: return 'if (%s) { %s } else { %s }' % (s.cond(), ' '.join(s.stmt(d - 1) for _ in range(r.randrange(1, 4))), ' '.join(s.stmt(d - 1) for _ in range(r.randrange(0, 3))))
        if s.loops < 1 and d == 2:
            s.loops += 1; i = 'i%d' % s.loops; s.decl.append('int %s;' % i); a = r.sample(range(len(s.t)), min(len(s.t), r.randrange(2, 7))); rot = 'y = v%d; ' % a[0] + ' '.join('v%d = v%d;' % (p, q) for p, q in zip(a, a[1:])) + ' v%d = y;' % a[-1]
            fs = s.forks; s.forks = 99; b = ' '.join(s.stmt(0) for _ in range(r.randrange(0, 4))); s.forks = fs
            return 'for (%s = 0; %s < %s; %s++) { %s %s }' % (i, i, r.choice(['2', '3', '(v0 & 3)', '(v1 & 1) + 1']), i, rot, b)
        if s.forks < s.fb: return '%s = %s ? %s : %s;' % (s.v(), s.cond(), s.v(), s.expr(1))
        return '%s = %s;' % (s.v(), s.expr(3))
def prog(r, nv, np, n, fp, calls):
    np = min(np, nv); g = G(r, nv, np, fp, calls); b = ' '.join(g.stmt() for _ in range(n))
    out = ' '.join('s_o{n}[%d] = v%d;' % (i, i) for i in r.sample(range(nv), nv)); fo = ' '.join('s_d{n}[%d] = d%d;' % (i, i) for i in range(g.nf))
    ini = ' '.join('v%d = %s;' % (i, r.choice(['v%d + %d' % (r.randrange(i), i), 'v%d ^ v%d' % (r.randrange(i), r.randrange(i)), 'v%d - v%d' % (r.randrange(i), r.randrange(i)), 's_o{n}[%d]' % r.randrange(nv)])) for i in range(np, nv))
    fi = ''.join('d%d = %s; ' % (i, 's_d{n}[%d]' % i) for i in range(2, g.nf)); t = lambda i: g.t[i]
    H = 'long s_o{n}[%d]; ' % nv + ('double s_d{n}[%d]; ' % g.nf if fp else '')
    if calls: H += 'extern void clob(void); static long f{n}(long a, int b) { clob(); return a - b; } static void g{n}(long *p, int b) { *p += b; } static int h{n}(int a, long b, char c, short d, unsigned e, long f, long g, int h) { clob(); return a ^ b ^ c ^ d ^ e ^ f ^ g ^ h; }\n'
    ini = ' '.join('v%d = p%d;' % (i, i) for i in range(np)) + ' ' + ini
    ps = ['%s p%d' % (t(i), i) for i in range(np)] + (['%s d%d' % (g.ft[i], i) for i in range(2)] if fp else [])
    return H + 'void t_{n}(%s) { long y = 0, w = 1; %s %s %s %s %s %s %s %s s_o{n}[0] ^= w + y; }' % (', '.join(ps), 'double z = 0;' if fp else '', ' '.join('%s v%d;' % (t(i), i) for i in range(nv)), ' '.join('%s d%d;' % (g.ft[i], i) for i in range(2, g.nf)), ' '.join(g.decl), fi + ini, b, out, fo)
def tree(r, d, vs, fp):
    """an expression tree whose evaluation needs d registers, without common parts"""
    if d == 0: return r.choice(vs)
    return '(%s %s %s)' % (tree(r, d - 1, vs, fp), r.choice(['+', '-'] if fp else ['+', '-', '^', '|', '&']), tree(r, d - 1 if r.random() < .8 else max(0, d - 2), vs, fp))
def fixed(r, quick):
    """fixed shapes: phi cycles, the swap and lost copy problems, values pinned to rax, rcx, rdx, wide expression trees"""
    out = []
    for k in (2, 3, 4, 6, 9, 13):
        n = list(range(k)); sh = n[1:] + n[:1]; rv = n[::-1]
        for perm in (sh, rv, r.sample(n, k)):
            out.append('long s_o{n}[%d]; void t_{n}(int n, %s) { long y%s; int i; n &= 3; for (i = 0; i < n; i++) { %s %s } %s }' % (k, ', '.join('int v%d' % i for i in n), ''.join(', u%d' % i for i in n), ' '.join('u%d = v%d;' % (i, j) for i, j in zip(n, perm)), ' '.join('v%d = u%d;' % (i, i) for i in n), ' '.join('s_o{n}[%d] = v%d;' % (i, i) for i in n)))
        out.append('long s_o{n}[%d]; void t_{n}(int n, %s) { int i; n &= 3; do { %s } while (n--); %s }' % (k, ', '.join('long v%d' % i for i in n), ' '.join('{ long y = v%d; v%d = v%d; v%d = y; }' % (i, i, (i + 1) % k, (i + 1) % k) for i in n), ' '.join('s_o{n}[%d] = v%d;' % (i, i) for i in n)))
        out.append('long s_o{n}[%d]; void t_{n}(int c, %s) { long x = 1; %s if (c) { %s } else { %s } %s s_o{n}[0] += x; }' % (k, ', '.join('long v%d' % i for i in n), ' '.join('v%d += x++;' % i for i in n), ' '.join('v%d ^= v%d;' % (i, (i + 1) % k) for i in n), ' '.join('v%d -= v%d;' % (i, (i + k // 2) % k) for i in n), ' '.join('s_o{n}[%d] = v%d;' % (i, i) for i in n)))
    out += ['int t_{n}(int n, int a) { int x, y = a; n &= 3; x = a; while (n--) { y = x; x = x + 1; } return y; }', 'int t_{n}(int n, int a) { int x = a, y; n &= 3; do { y = x; x++; } while (n--); return y * 2 + x; }', 'int s_q{n}[4]; int t_{n}(int n) { int x = 1, y = 2, i; n &= 3; for (i = 0; i < n; i++) { int t = x; x = y; y = t; s_q{n}[i] = x; } return x * 10 + y; }', 'int t_{n}(int n, int a, int b) { n &= 3; while (n-- > 0) { int t = a; a = b; b = t; if (a < b) { t = b; b = a + 1; a = t; } } return a * 3 ^ b; }']
    for t in ('int', 'long', 'unsigned', 'unsigned long', 'short', 'char'):
        for k in (3, 7, 12):
            vs = ['v%d' % i for i in range(k)]
            out.append('long s_o{n}[%d]; void t_{n}(%s) { %s q = v0 / ((v1 & 7) + 1), m = v1 %% ((v2 & 15) + 1), s = v2 << (v0 & 7), u = v1 >> (v2 & 7); s_o{n}[0] = q; s_o{n}[1] = m; s_o{n}[2] = s + u; %s }' % (k + 3, ', '.join('%s %s' % (t, v) for v in vs), t, ' '.join('s_o{n}[%d] = %s + %s;' % (i + 3, v, r.choice(vs)) for i, v in enumerate(vs))))
    for d in (3, 4, 5):
        for fp in (0, 1):
            for _ in range(2 if quick else 10):
                ts = ['double', 'float', 'double'] if fp else ['int', 'long', 'unsigned char', 'short', 'unsigned long']; vs = ['v%d' % i for i in range(7)]
                if fp and d > 4: continue
                out.append('%s t_{n}(%s) { return %s; }' % (r.choice(['double', 'float']) if fp else r.choice(['long', 'int']), ', '.join('%s %s' % (r.choice(ts), v) for v in vs), tree(r, d, vs, fp)))
                if not fp: out.append('static int f{n}(int x) { clob(); return x + 1; } long t_{n}(%s) { return %s; }' % (', '.join('%s %s' % (r.choice(ts), v) for v in vs), tree(r, d, vs + ['f{n}(v%d)' % r.randrange(7)], fp)))
    return out
def main(tier):
    c = Check('P16', 'register pressure and spilling', 'translation_validation', tier); r = c.rnd; X = 'extern void clob(void);\n'
    def add(prefix, fns, per, flags=()):
        i = 0
        for k in range(0, len(fns), per):
            t = ''
            for f in fns[k:k + per]: t += f.replace('{n}', str(i)) + '\n'; i += 1
            c.add(Unit('%s%d' % (prefix, k // per), X + t, refsrc='static void clob(void) { }\n' + t.replace('extern void clob(void);', ''), asmsrc=['void clob(void) { %s }' % CLOB], flags=flags(k // per) if callable(flags) else flags, opts={'max_paths': c.pick(60, 500), 'rlimit': c.pick(2000000, 10000000)}))
    fx = fixed(r, c.quick); add('fix', fx, 8)
    for i, f in enumerate(FLAGS[2:] if not c.quick else r.sample(FLAGS[2:], 2)): add('fix%s' % chr(97 + i), fx, 12, f)
    ps = []
    for i in range(c.pick(160, 2000)):
        nv = r.choice([5, 9, 12, 14, 16, 20]); ps.append(prog(r, nv, r.choice([2, 4, 6, 8, 10]), r.choice([6, 10, 16, 24]), r.random() < .25, r.random() < .6))
    add('rnd', ps, 4, lambda k: FLAGS[k % len(FLAGS)])
    c.run_units(deadline=c.pick(300, 3000)); c.validate_samples(c.pick(4, 20))
    return c.finish()
