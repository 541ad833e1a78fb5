"""P15: lexical presentation. White space, comments, backslash-newlines, trigraphs and the split into tokens do not
change the program that is compiled; `-E` followed by a compilation gives the program that a direct compilation gives."""
import os, re, subprocess
from check import *
from corpus import *
from symsrc import *
TOK = re.compile(r'''L?"(?:\\.|[^"\\])*"|L?'(?:\\.|[^'\\])*'|[A-Za-z_][A-Za-z_0-9]*|\.?[0-9](?:[eE][+-]|[A-Za-z_0-9.])*|\.\.\.|<<=|>>=|->|\+\+|--|<<|>>|<=|>=|==|!=|&&|\|\||[-+*/%&^|]=|//|/\*|.''', re.S)
FN = [ 'int t_{n}(int a, int b) { return a - - b + + + a * - ~ b / ( b | 1 ) ; }',
 'int t_{n}(int a, int b) { a += b ; a -= 3 ; a *= b ; a ^= 7 ; a |= b >> 1 ; a &= ~ 2 ; a <<= 2 ; a >>= 1 ; b %= 7 ; a /= 3 ; return a + b ; }',
 'int t_{n}(int a, int b) { int c = a ++ + ++ b ; c -= a -- - -- b ; c += a ++ + b ; c = c - -- a ; return c * a - b ; }',
 'int t_{n}(int a, int b) { return a && b || ! a & & b [ & a ] != & a ; }'.replace('& & b [ & a ] != & a', '& b'),
 'int t_{n}(int a, int b) { int * p = & a , * q = & b ; int c = 12 / * p * 0 ; return * p - * q + ( p == q ) + ( a & * q ) + c ; }'.replace('12 / * p * 0', 'a * * q'),
 'int t_{n}(int a, int b) { int * p = & a ; int * * q = & p ; * * q = b ; return a & & * p == p ; }'.replace('a & & * p == p', '& * p == p && a == b'),
 'struct s{n} { int x ; struct s{n} * n ; char c [ 3 ] ; } ; int t_{n}(int a, int b) { struct s{n} s , * p = & s ; s . x = a ; p -> n = p ; p -> n -> x += b ; s . c [ 1 ] = 3 ; return p -> n -> n -> x - - p -> c [ 1 ] ; }',
 'double t_{n}(double d, int a) { return d + .5 - 1. * 1.e1 + 1e+2 - 1E-2 * d + 1.5f - a - .25e-1 + 1e3 ; }',
 'long t_{n}(long a) { return a + 0x1F - 0Xe + 1 - 017 + 0xfUL + 3L - 0 + 1u + 0x1e+1 ; }'.replace('0x1e+1', '0x1d + 1'),
 'unsigned char t_{n}(unsigned char i) { static const char s [ ] = "ab" "c\\n" "\\"" "/*" "x" "*/" "//" "\\\\" "" "\'" ; return s [ i % sizeof ( s ) ] ; }',
 'int t_{n}(int a) { return \'a\' + \'"\' * a - \'\\\'\' + \'\\\\\' * \'/\' + \'*\' + \'\\n\' ; }',
 'unsigned char t_{n}(unsigned char i) { static const int s [ ] = L"ab" L"c" ; return s [ i % 4 ] + L\'x\' ; }',
 'int t_{n}(int a) { int r = 0 ; do { switch ( a & 3 ) { case 0 : r ++ ; case 1 : r += 2 ; break ; default : r -= 5 ; goto l ; } a >>= 2 ; } while ( r < 9 && a > 0 ) ; l : return r ; }',
 'int t_{n}(int a, int b) { int L = 3 , e = 4 , x1 = 5 , E = 6 ; return L + e - x1 * E + a ? b : - 1 ; }',
 'int t_{n}(int a, int b) { if ( a >= b ) return a <= 3 ? a >> 1 : a << 1 ; else if ( a != b ) return a > b == a < b ; return sizeof ( int [ 3 ] ) ; }'.replace('a > b == a < b', '( a > b ) == ( a < b )'),
 'enum e{n} { A{n} = - 1 , B{n} , C{n} = 7 } ; int t_{n}(enum e{n} a) { unsigned long long int u = ( unsigned char ) a ; return u + A{n} - B{n} * C{n} ; }'.replace('unsigned long long int', 'unsigned long int'),
 'int t_{n}(int a) { int i , s = 0 ; for ( i = 0 ; i < 3 ; i ++ ) { if ( i == a ) continue ; s += i * a ; } while ( s > 100 ) s /= 2 ; return s ; }',
 'static int f_{n}( const char * f , ... ) { return * f ; } int t_{n}(int a) { return f_{n} ( "x" , a , 1.5 ) ; }',
 'int t_{n}(int a, int b) { typedef int T ; T ( * g ) ( T ) = 0 ; return ( T ) a * ( T ) - b + ( g == 0 ) + ( T ) ( a ) ; }',
 'int t_{n}(int a, int b) { return a < b | a > b ^ a == b & a | ! b ; }',
 'int t_{n}(int a, int b) { int c [ 3 ] ; c [ 0 ] = a , c [ 1 ] = b , c [ 2 ] = a ^ b ; { int d = c [ c [ 0 ] & 1 ] ; return d | ~ c [ 2 ] ; } }',
 'int t_{n}(int a) { register int ifx = a , do_ = 2 , whilex = 3 , int1 = 4 , _ = 5 , __ = 6 , returnx = 7 , L1 = 8 , u = 9 , U = 10 , l = 11 ; return ifx + do_ * whilex - int1 + _ * __ - returnx + L1 + u * U - l ; }',
 'int t_{n}(int a) { return a ? a > 3 ? 1 : 2 : a ; }' ]
TRI = {'#': '??=', '[': '??(', '\\': '??/', ']': '??)', '^': "??'", '{': '??<', '|': '??!', '}': '??>', '~': '??-'}
class R:
    def __init__(s, r, tri=0): s.r = r; s.tri = tri; s.p = r.choice([0.05, 0.2, 0.5]); s.line = 0
    def cm(s):
        r = s.r
        b = ''.join(r.choice(['"', "'", '/*', '//', '*', '**', ' ', 'x', '\n', '\\n', '#', '\\', '??/', '??', '#define x', '\n#if 0', 'int', ';', '}', '{', '\t', '@', '`', '$', '%', '\x80\xff']) for _ in range(r.randrange(0, 5)))
        while '*/' in b or b.endswith('\\'): b = b.replace('*/', '+').rstrip('\\')
        if b.startswith('/'): b = ' ' + b
        return '/*' + b + '*/'
    def lc(s): return '//' + re.sub(r'[\n\\?]', ' ', s.cm()[2:-2]).replace('/', '|') + '\n'
    def sp(s): return ('\\' if not s.tri or s.r.random() < .5 else '??/') + '\n'
    def gap(s, need):
        r = s.r
        if r.random() > s.p: return ' ' if need or r.random() < .3 else ''
        g = ''.join(r.choice([' ', ' ', '\t', '\n', '\n\n', '\f', '\v', '  ' * r.randrange(1, 8), '\r']) if r.random() < .5 else r.choice([s.cm, s.cm, s.lc])() for _ in range(r.randrange(1, 4)))
        return g
    def splice(s, t):  # a backslash-newline inside a token (or a comment)
        if len(t) < 2 or s.r.random() > s.p / 3: return t
        k = s.r.randrange(1, len(t))
        if '?' in t[max(0, k - 3):k + 3] or t[k - 1] in '\\' or t[k] == '\n': return t
        return t[:k] + s.sp() + t[k:]
    def trig(s, t): return ''.join(TRI[c] if c in TRI and s.tri and s.r.random() < s.tri else c for c in t)
    def text(s, t):
        o = []; prev = ''
        for k in TOK.findall(t):
            if k in ' \n': continue
            need = prev and (TOK.findall(prev + k)[0] != prev or prev + k in ('//', '/*')); g = s.gap(need)
            if prev and prev[-1] == '/' and g[:1] == '/': g = ' ' + g
            q = s.trig(k) if not k.startswith('"') or 1 else k
            o.append(s.splice(g) if g.startswith('/*') else g); o.append(s.splice(q)); prev = k
            if s.r.random() < s.p / 5: o.append(s.sp() * s.r.randrange(1, 3)); 
        return ''.join(o)
def main(tier):
    c = Check('P15', 'lexical presentation', 'translation_validation', tier); r = c.rnd
    c.tree.wcc
    k = 0
    for i in range(c.pick(60, 1000)):
        fs = [(f.replace('{n}', str(j))) for j, f in enumerate(r.sample(FN, 6))]; tri = r.choice([0, 0, .1, .6])
        plain = '\n'.join(fs) + '\n'; R1 = R(r, tri); t = '\n'.join(R1.text(f) for f in fs) + r.choice(['', '\n', '/* end */', '// end', '\n\n\n', ' ', '\t\n'])
        c.add(Unit('lex%d' % i, t.encode('latin-1').decode('latin-1'), refsrc=plain, flags=['--trigraphs'] if tri else []))
    # line numbers after any presentation; the reference is the same text
    for i in range(c.pick(25, 300)):
        fs = [f.replace('{n}', str(j)) for j, f in enumerate(r.sample(FN, 3))]; R1 = R(r); R1.p = .6
        t = ''
        for j, f in enumerate(fs): t += R1.text(f) + '\nint t_%d(int a) { return __LINE__ + a * %s __LINE__; }%s' % (j + 7, R1.sp() * r.randrange(3), r.choice(['\n', ' ', R1.cm()]))
        t = t.replace('\r', ' '); c.add(Unit('line%d' % i, t + '\n', refsrc=t + '\n'))
    # -E followed by a compilation
    for i in range(c.pick(40, 600)):
        fs = [f.replace('{n}', str(j)) for j, f in enumerate(r.sample(FN, 5))]; R1 = R(r); t = '#define K(x, y) ((x) %s (y))\n#define N __LINE__\n#define S(x) #x\n#define O %s\n#define P ( 1\n' % (r.choice(['+', '-', '^', '<<']), r.choice(['-', '+', '~', '- -', '+ -', '&aa+', '!', '/ 3 + ', '* 2 - ', '.1 + ', '- ++ ', '-- '][:7] + ['- -']))
        for j, f in enumerate(fs): t += R1.text(f) + r.choice(['', '\n' * r.randrange(1, 14)]) + '\n#if %d\nint u_%d;\n#endif\n' % (r.randrange(2), j) + 'int t_%d(int a) { static const char s[] = S(a "\\n%s" %s); int aa[2]; aa[0] = a; return K(a,%s%d) -O a -P)%sN+s[a&3]-O-a%s; }' % (j + 7, r.choice(['', '\\0', '\\"']), r.choice(["'\"'", '1.e+3', 'x ## y', '/* c */ z']), r.choice(['', '-', '\n']), r.randrange(7), r.choice('+-^'), r.choice(['', '\n', ' /* e */'])) + '\n'
        t = t.replace('\r', ' ').replace('O -a', 'O a')
        if '&aa+' in t: t = t.replace('&aa+', '+')
        p = c.work.write('pre%d/p.c' % i, t.encode('latin-1')); q = p[:-1] + 'i'
        x = subprocess.run([c.tree.wcc, '-E', 'p.c', '-o', 'p.i'], cwd=os.path.dirname(p), capture_output=True)
        if x.returncode or not os.path.exists(q): c.add(Unit('pre%d' % i, t, refsrc=t)); continue
        c.add(Unit('pre%d' % i, open(q, encoding='latin-1').read(), refsrc=t))
    # symbolic characters
    def sym(name, src, ref, s, **kw):
        x = s.build(src, ref); c.add(Unit(name, x[0], refsrc=x[1], syms=x[2], symrefs=x[3], opts={'nummap': 1, 'max_paths': c.pick(300, 3000)}, **kw))
    CH = [('\x01', '.'), ('0', '\xff')]  # everything but the slash and NUL
    NN = [('\x01', '\t'), ('\v', '.'), ('0', '['), (']', '\xff')]
    WS = [('\t', '\r'), (' ', ' ')]
    for i in range(c.pick(27, 200)):
        s = SymSrc(); x = i % 9; lit = lambda sp, *a: s.lit(sp, *a); q = r.randrange(1, 3) + (x < 2)
        if x == 0: a, f = lit([CH] * q); sym('cmt%d' % i, 'int t_0(int a) { return a/* %s*/+/**/1 /*%s*/; }' % (a, a), 'int t_0(int a) { return a + 1; }', s)
        elif x == 1: a, f = lit([NN] * q); sym('lcm%d' % i, 'int t_0(int a) { return a// %s\n+ 1; }' % a, 'int t_0(int a) { return a + 1; }', s)
        elif x == 2: a, f = lit([WS] * q); sym('ws%d' % i, 'int%st_0(int%sa) {%sreturn%sa%s+%s1%s;%s}%sint b%s;' % ((a,) * 10), 'int b; int t_0(int a) { return a + 1; }', s)
        # two operators without white space: the longest token is taken
        elif x == 3: a, f = lit([[('%', '&'), ('*', '+'), ('-', '-'), ('<', '<'), ('>', '>'), ('^', '^'), ('|', '|')]]); b, g = lit([[('!', '!'), ('~', '~'), (' ', ' ')]]); sym('op%d' % i, 'int t_0(int a, int b) { return a%s%sb; }' % (a, b), 'int t_0(int a, int b) { int x = b; switch (L1_[0]) { case \'!\': x = !b; break; case \'~\': x = ~b; } switch (L0_[0]) { case \'%\': return a % x; case \'&\': return a & x; case \'*\': return a * x; case \'+\': return a + x; case \'-\': return a - x; case \'<\': return a < x; case \'>\': return a > x; case \'^\': return a ^ x; default: return a | x; } }', s)
        elif x == 4: a, f = lit([[('<', '>'), ('!', '!')]]); sym('eq%d' % i, 'int t_0(int a, int b) { return a%s=b; }' % a, "int t_0(int a, int b) { switch (L0_[0]) { case '<': return a <= b; case '>': return a >= b; case '=': return a == b; default: return a != b; } }", s)
        elif x == 5: a, f = lit([[('%', '&'), ('*', '+'), ('-', '-'), ('^', '^'), ('|', '|')]]); sym('as%d' % i, 'int t_0(int a, int b) { a%s=b; return a; }' % a, "int t_0(int a, int b) { switch (L0_[0]) { case '%': return a % b; case '&': return a & b; case '*': return a * b; case '+': return a + b; case '-': return a - b; case '^': return a ^ b; default: return a | b; } }", s)
        # three of the same sign: a++ + b
        elif x == 6: a, f = lit([[('+', '+'), ('-', '-')]]); d = r.choice('+-'); sym('inc%d' % i, 'int t_0(int a, int b) { int r = a%s%sb; return r * 3 + a; }' % (d * 2, a), "int t_0(int a, int b) { int r = L0_[0] == '+' ? a%s + b : a%s - b; return r * 3 + a; }" % (d * 2, d * 2), s)
        # the third character of a trigraph and what is none
        elif x == 7: a, f = lit([[(' ', '!'), ('#', '.'), ('0', '['), (']', '~')]]); sym('tri%d' % i, 'unsigned char t_0(unsigned char i) { static const char s[8] = "a??%sb"; return s[i & 7]; }' % a, 'unsigned char t_0(unsigned char i) { const char *m = "=#([)]\\047^<{!|>}-~"; char v[8] = "a"; int k = 0, j; for (j = 0; j < 16; j += 2) if (L0_[0] == m[j]) k = m[j + 1]; if (k) { v[1] = k; v[2] = 98; } else { v[1] = v[2] = 63; v[3] = L0_[0]; v[4] = 98; } return v[i & 7]; }', s, flags=['--trigraphs'])
        # without the option there are none
        else: a, f = lit([[(' ', '!'), ('#', '['), (']', '~')]]); sym('ntr%d' % i, 'unsigned char t_0(unsigned char i) { static const char s[8] = "a??%sb"; return s[i & 7]; }' % a, 'unsigned char t_0(unsigned char i) { char v[8] = "a??xb"; v[3] = L0_[0]; return v[i & 7]; }', s)
    c.run_units(deadline=c.pick(300, 3000)); c.validate_samples(c.pick(4, 20))
    return c.finish()
