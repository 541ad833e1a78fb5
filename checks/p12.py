"""P12: literals with symbolic digits and characters."""
from check import *
from corpus import *
from symsrc import *
HDR = '''
static int ty_(UL_ v, int dec, int u, int l) { if (u && l) return 3; if (u) return v > 4294967295ul ? 3 : 1; if (l) return v > 9223372036854775807ul ? 3 : 2; if (v <= 2147483647) return 0; if (!dec && v <= 4294967295ul) return 1; return v <= 9223372036854775807ul ? 2 : 3; }
static int sz_(int t) { return t > 1 ? 8 : 4; }
static UL_ neg_(UL_ v, int t) { return t == 0 ? (UL_) (long) -(int) v : t == 1 ? (UL_) -(unsigned) v : -v; }
static UL_ sar_(UL_ v, int t) { return t == 0 ? (UL_) (long) (~(int) v >> 1) : t == 1 ? (UL_) (~(unsigned) v >> 1) : t == 2 ? (UL_) (~(long) v >> 1) : ~v >> 1; }
static int d_(char c) { return c >= '0' && c <= '7'; }
static int x_(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
/* the k-th character of the body of a character or string literal; k < 0: their number */
static int chr_(const char *p, int n, int k, int wide) { int i = 0, j = 0, v; while (i < n) { if (p[i] != '\\\\') v = p[i++]; else { i++; if (d_(p[i])) { int q = 0; v = 0; while (q < 3 && i < n && d_(p[i])) { v = v * 8 + (p[i] - '0'); i++; q++; } if (!wide) v = (char) v; } else if (p[i] == 'x') { i++; v = 0; while (i < n && x_(p[i]) >= 0) { v = v * 16 + x_(p[i]); i++; } if (!wide) v = (char) v; } else { char c = p[i++]; v = c == 'n' ? 10 : c == 't' ? 9 : c == 'b' ? 8 : c == 'r' ? 13 : c == 'f' ? 12 : c == 'v' ? 11 : c == 'a' ? 7 : c; } } if (j == k) return v; j++; } return k < 0 ? j : 0; }
static int ch_(const char *p, int n, int k) { return chr_(p, n, k, 0); }
static int chw_(const char *p, int n, int k) { return chr_(p, n, k, 1); }
'''
SUF = [('', 0, 0), ('u', 1, 0), ('U', 1, 0), ('l', 0, 1), ('L', 0, 1), ('ul', 1, 1), ('UL', 1, 1), ('lu', 1, 1), ('LU', 1, 1), ('Ul', 1, 1), ('lU', 1, 1)]
RAW = '32-33,35-38,40-91,93-126'; ANY = '9-9,32-33,35-38,40-91,93-126,128-255'
def rng(s): return [(chr(int(a)), chr(int(b))) for a, b in (x.split('-') for x in s.split(','))]
class One(Exception): pass
def main(tier):
    c = Check('P12', 'literals', 'translation_validation', tier); r = c.rnd; n = 0; um = 0
    def unit(name, parts, s):
        x = s.build('\n'.join(p[0] for p in parts), '\n'.join(p[1] for p in parts)); c.add(Unit(name, x[0], refsrc=x[1].replace(REFHDR, REFHDR + HDR, 1), syms=x[2], symrefs=x[3], opts={'nummap': 1, 'max_paths': c.pick(1200, 4000), 'partial': 1}))
    # ---- integers
    CTX = [('unsigned long t_{n}(void) {{ return {a}; }}', 'unsigned long t_{n}(void) {{ return {v}; }}'), ('int t_{n}(void) {{ return sizeof({a}); }}', 'int t_{n}(void) {{ return sz_({t}); }}'), ('int t_{n}(void) {{ return ({a} & 0) - 1 < 0; }}', 'int t_{n}(void) {{ return {t} == 0 || {t} == 2; }}'), ('long t_{n}(void) {{ return -{a}; }}', 'long t_{n}(void) {{ return neg_({v}, {t}); }}'), ('long t_{n}(void) {{ return ~{a} >> 1; }}', 'long t_{n}(void) {{ return sar_({v}, {t}); }}'),
           ('static long g{n} = -{a}; long t_{n}(void) {{ return g{n}; }}', 'long t_{n}(void) {{ return neg_({v}, {t}); }}'), ('static long g{n} = ~{a} >> 1; long t_{n}(void) {{ return g{n}; }}', 'long t_{n}(void) {{ return sar_({v}, {t}); }}'), ('static int g{n} = ({a} & 0) - 1 < 0; int t_{n}(void) {{ return g{n} * 8 + sizeof({a}); }}', 'int t_{n}(void) {{ return ({t} == 0 || {t} == 2) * 8 + sz_({t}); }}'), ('unsigned long t_{n}(unsigned long x) {{ return x ^ {a}; }}', 'unsigned long t_{n}(unsigned long x) {{ return x ^ {v}; }}'), ('int t_{n}(long x) {{ return x == {a}; }}', 'int t_{n}(long x) {{ return x == (long) {v}; }}')]
    def digits(base, k):
        if base == 'dec':
            if k == 20: return ['1', ('0', '7')] + [('0', '9')] * 18
            return [('1', '9')] + [('0', '9')] * (k - 1)
        if base == 'oct': return ([('0', '1')] + [('0', '7')] * 21 if k == 22 else [('0', '7')] * k) if k <= 22 else ['0'] * (k - 22) + [('0', '1')] + [('0', '7')] * 21
        ds = [('0', '9') if x < .4 else ('a', 'd') if x < .7 else ('A', 'D') for x in (r.random() for i in range(k))]
        for i in r.sample(range(k), min(k, c.pick(1, 3))): ds[i] = r.choice([('a', 'f'), ('A', 'F'), [('0', '9'), ('e', 'f')]])      # each e may begin an exponent
        if k < 3: ds[0] = [('0', '9'), ('a', 'f'), ('A', 'F')]
        return ds
    specs = [(b, k) for b, m in (('dec', 20), ('oct', 24), ('hex', 16)) for k in range(1, m + 1)]
    if c.quick: specs = [('dec', k) for k in (1, 2, 5, 9, 10, 11, 18, 19, 20)] + [('oct', k) for k in (1, 3, 10, 11, 12, 21, 22, 24)] + [('hex', k) for k in (1, 2, 7, 8, 9, 15, 16)]
    for b, k in specs:
        for q in range(c.pick(2, 6)):
            suf, u, l = SUF[(q + k) % len(SUF)] if q else SUF[0]
            s = SymSrc(); parts = []
            a, v = s.lit(digits(b, k), b, {'dec': '', 'oct': '0', 'hex': r.choice(['0x', '0X'])}[b], suf, 'UL_'); t = 'ty_(%s, %d, %d, %d)' % (v, b == 'dec', u, l)
            for x in (CTX if not c.quick else [CTX[i] for i in sorted(r.sample(range(len(CTX)), 3))]): n += 1; m = {'n': n, 'a': a, 'v': v, 't': t}; parts.append((x[0].format(**m), x[1].format(**m)))
            unit('int_%s%d_%d' % (b, k, q), parts, s)
    # ---- characters
    def lit(s, spec):
        k = len(s.lits); s.lits.append((spec, '', '')); return '\x01%d\x02' % k, 'L%d_, %d' % (k, len(spec))
    HEX = [('0', '9'), ('a', 'f'), ('A', 'F')]; OCT = [('0', '7')]; ESC = [(x, x) for x in 'ntbrfva\'"\\?']
    chars = [[rng(ANY)], ['\\', ESC], ['\\', OCT], ['\\', OCT, OCT], ['\\', [('0', '3')], OCT, OCT], ['\\', 'x', HEX], ['\\', 'x', HEX, HEX], [[('"', '"')]], ['\\', 'x', [('1', '9')], HEX, HEX], ['\\', [('4', '7')], OCT, OCT]]
    CC = [('int t_{n}(void) {{ return {p}\'{a}\'; }}', 'int t_{n}(void) {{ return {m}ch_({v}, 0); }}'), ('static {ct} g{n} = {p}\'{a}\'; {ct} t_{n}(void) {{ return g{n}; }}', '{ct} t_{n}(void) {{ return {m}ch_({v}, 0); }}'), ('int t_{n}(int x) {{ switch (x) {{ case {p}\'{a}\': return 1; }} return 2; }}', 'int t_{n}(int x) {{ return x == ({m}ch_({v}, 0)) ? 1 : 2; }}'), ('int t_{n}(void) {{ return sizeof({p}\'{a}\') + ({p}\'{a}\' > 100) * 16; }}', 'int t_{n}(void) {{ return 4 + (({m}ch_({v}, 0)) > 100) * 16; }}'), ('long t_{n}(long x) {{ return x + {p}\'{a}\'; }}', 'long t_{n}(long x) {{ return x + ({m}ch_({v}, 0)); }}')]
    for i, spec in enumerate(chars):
        for wide in (0, 1) if i < 8 else (1,):
            if wide and (i == 0): spec = [rng(RAW)]
            s = SymSrc(); parts = []; a, v = lit(s, spec)
            for x in CC:
                n += 1; x = tuple(y.replace('ch_(', 'chw_(') for y in x) if wide else x; m = {'n': n, 'a': a, 'v': v, 'p': 'L' if wide else '', 'ct': r.choice(['int', 'char', 'long', 'unsigned']), 'm': ''}; parts.append((x[0].format(**m), x[1].format(**m)))
            unit('chr%d_%d' % (i, wide), parts, s)
    # ---- strings: bodies of symbolic bytes, with escapes among them
    def piece():
        x = r.random()
        if x < .36: return [rng(RAW) if x < .2 else rng(ANY) if x < .28 else [('0', '9'), ('a', 'f')]]
        if x < .5: return ['\\', ESC]
        if x < .78: return ['\\'] + [OCT] * r.choice([1, 1, 2]) if x < .66 else ['\\', [('0', '3')], OCT, OCT]
        if x < .88: return ['\\', 'x', HEX] + ([HEX] if r.random() < .5 else [])
        return [r.choice('az5%/?*')]
    REF = 'long t_{n}(void) {{ long v = 0; int k; for (k = 0; k < {m}; k++) v = v * {b} + (k < {len} ? {chk} : 0); return v; }}'; GET = 'long t_{n}(void) {{ long v = 0; int k; for (k = 0; k < {m}; k++) v = v * {b} + {g}[k]; return v; }}'
    def sc(decl, g, m, mr, b, local=''):
        f = lambda t, g, m: t.replace('{g}', g).replace('{m}', m).replace('{b}', str(b))
        return decl + f(GET, g, m).replace('int k;', 'int k; ' + local), f(REF, '', mr)
    SC = [sc('static char g{n}[8] = {q}; ', 'g{n}', '8', '8', 256), ('int t_{n}(void) {{ return sizeof({q}); }}', 'int t_{n}(void) {{ return {len} + 1; }}'), ('static char g{n}[] = {q}; int t_{n}(void) {{ return sizeof(g{n}); }}', 'int t_{n}(void) {{ return {len} + 1; }}'), sc('', 'p', '(int) sizeof({q})', '{len} + 1', 256, 'char *p = {q}; '), sc('', 'a', '(int) sizeof(a)', '{len} + 1', 256, 'char a[] = {q}; '), sc('char *g{n} = {q}; ', 'g{n}', '(int) sizeof({q})', '{len} + 1', 256)]
    WC = [sc('static int g{n}[8] = {q}; ', 'g{n}', '8', '8', 65536), ('int t_{n}(void) {{ return sizeof({q}); }}', 'int t_{n}(void) {{ return 4 * ({len} + 1); }}'), sc('', 'p', '(int) sizeof({q}) / 4', '{len} + 1', 65536, 'int *p = {q}; '), sc('', 'a', '(int) sizeof(a) / 4', '{len} + 1', 65536, 'int a[] = {q}; ')]
    for i in range(c.pick(60, 900)):
        wide = i % 5 == 4; s = SymSrc(); parts = []; ps = []; e = 0; f = 'chw_' if wide else 'ch_'
        for j in range(r.choice([1, 1, 1, 2])):
            spec = []
            for q in range(r.randrange(0 if j else 1, 5)):
                p = piece()
                if wide and r.random() < .3: p = r.choice([['\\', 'x', [('1', '9')], HEX, HEX], ['\\', [('4', '7')], OCT, OCT]])
                if wide and p == [rng(ANY)]: p = [rng(RAW)]
                e += len(p) > 1 or p == [rng(ANY)]
                if e > c.pick(1, 2) and (len(p) > 1 or p == [rng(ANY)]): p = [rng(RAW)]
                if len(spec) + len(p) <= 9: spec += p
            ps.append(lit(s, spec))
        q = ' '.join('%s"%s"' % ('L' if wide else '', a) for a, v in ps)
        if len(ps) == 1: ln = '%s(%s, -1)' % (f, ps[0][1]); chk = '%s(%s, k)' % (f, ps[0][1])
        else: l0 = '%s(%s, -1)' % (f, ps[0][1]); ln = '(%s + %s(%s, -1))' % (l0, f, ps[1][1]); chk = '(k < %s ? %s(%s, k) : %s(%s, k - %s))' % (l0, f, ps[0][1], f, ps[1][1], l0)
        if sum(int(v.split(', ')[1]) for a, v in ps) > 11 or 'g{n}[8]' in (WC if wide else SC)[0] and len(ps) > 9: continue
        for x in (WC if wide else SC)[i // 5 % 4 if wide else i % 6:][:1]: n += 1; m = {'n': n, 'q': q, 'len': ln, 'chk': chk, 'max': ln}; parts.append((x[0].format(**m), x[1].format(**m)))
        unit('str%d' % i, parts, s)
    # ---- floating point: the digits are concrete
    fl = ['1.', '.5', '0.', '.0', '1e5', '1E5', '1e+5', '1e-5', '1.e3', '.5e-3', '00.5', '010.25', '08.', '9.e0', '1e308', '1.7976931348623157e308', '4.9e-324', '2.2250738585072014e-308', '1e-320', '123456789012345678901234567890.', '0.1', '0.2', '0.3', '3.14159265358979323846', '1.0000001', '16777217.0', '9007199254740993.0', '9007199254740992.5', '1e22', '1e23', '8.5e-46', '3.4028235e38', '0e0', '0.000000000000000000000000000001', '5e-1', '1e0', '12.5', '6.02214076e23', '1.17549435e-38', '1e-45', '0.99999999999999999']
    for i in range(c.pick(120, 3000)): fl.append('%s%s%s' % (r.choice(['', '%d' % r.randrange(10 ** r.randrange(1, 20))]) or '0', '.' + ''.join(r.choice('0123456789') for _ in range(r.randrange(0, 18))), r.choice(['', 'e%d' % r.randrange(-30, 30), 'E+%02d' % r.randrange(30), 'e-%d' % r.randrange(300), 'e%d' % r.randrange(280)])))
    src = []
    for x in fl:
        big = float(x) > 3e38 or 0 < float(x) < 1e-44
        for suf in r.sample(['', 'f', 'F', 'l', 'L'], 2):
            if suf in ('f', 'F') and big: suf = ''
            y = x + suf; t = {'': 'double', 'f': 'float', 'l': 'long double'}[suf.lower()]
            k = r.random()
            if k < .4: src.append('static %s g{n} = %s; int t_{n}(void) { return sizeof(%s); }' % (t, y, y))
            elif k < .7: src.append('%s t_{n}(void) { return %s; }' % (t, y))
            else: src.append('%s t_{n}(%s x) { return x + %s; }' % (t, t, y) if t != 'long double' else 'long double g{n} = -%s;' % y)
    c.add_fns('flt', src, per=24)
    c.units.sort(key=lambda u: not u.name.startswith('int'))
    c.run_units(deadline=c.pick(240, 3000)); c.validate_samples(c.pick(4, 20))
    return c.finish()
