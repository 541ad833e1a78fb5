"""P14: macro expansion. Programs whose expressions, strings and declarations come from nested, recursive, redefined, stringizing and pasting
macros; the reference is the same text preprocessed by clang, or, for symbolic characters in arguments, a program that calculates the result."""
from check import *
from corpus import *
from symsrc import *
V = ['a', 'b', 'c', 'a1', 'b1', 'a12']
class G:
    """macros and expressions; a macro may be named like a variable, call the others in any order and mention itself"""
    def __init__(s, r): s.r = r; s.m = {}; s.use = 0
    def sp(s): return s.r.choice(['', '', '', ' ', '  ', '\t', '/**/', ' /* , ) */ '])
    def atom(s, ps):
        r = s.r; x = r.random()
        if ps and x < .5: return r.choice(ps)
        if x < .75: return r.choice(V[:3])
        if x < .85: return str(r.randrange(1, 40))
        n = [k for k, v in s.m.items() if v is None]
        return r.choice(n) if n else 'a'
    def expr(s, d, ps=()):
        """an expression over variables, parameters and macros"""
        r = s.r; x = r.random()
        if d == 0 or x < .12: return s.atom(ps)
        if x < .5: return s.expr(d - 1, ps) + s.sp() + r.choice(['+', '*', '+', '^', '|', ' - ', '&']) + s.sp() + s.expr(d - 1, ps)
        if x < .65: return '(' + s.sp() + s.expr(d - 1, ps) + s.sp() + ')'
        f = [k for k, v in s.m.items() if v]
        if x < .93 and f: n = r.choice(f); return s.call(n, [s.expr(d - 1, ps) for _ in s.m[n]])
        return r.choice('-~') + '(' + s.expr(d - 1, ps) + ')'
    def call(s, n, args, nl=False):
        args = [x if ',' not in x or s.balanced(x) else '(' + x + ')' for x in args]; q = s.sp
        return n + q() + '(' + q() + (q() + ',' + q()).join(args) + q() + ')'
    def balanced(s, x):
        d = 0
        for ch in re.sub(r'/\*.*?\*/', '', x):
            d += ch == '('; d -= ch == ')'
            if ch == ',' and d == 0: return False
        return True
    def defs(s, k):
        r = s.r; o = []
        names = r.sample(['a', 'b', 'c', 'A', 'B', 'F', 'H', 'G_', 'f1', 'int_'], k)
        for n in names:
            fn = r.random() < .55 and n not in 'abc'; s.m[n] = None
            if fn: s.m[n] = ['x', 'y', 'z'][:r.choice([1, 1, 2, 2, 3])]
        for n in names:
            ps = s.m[n]; b = s.expr(r.choice([1, 1, 2]), tuple(ps or ()))
            if ps and r.random() < .3: # parameters named like variables or other macros
                q = r.sample([k for k in ['a', 'b', 'c', 'x', 'A'] if not s.m.get(k)], len(ps)); b = re.sub(r'\b[xyz]\b', lambda m: q['xyz'.index(m.group())] if 'xyz'.index(m.group()) < len(q) else 'b', b); s.m[n] = q; ps = q
            o.append('#define %s%s %s' % (n, '(%s)' % (s.sp().replace('/* , ) */', '') + ',').join(ps) if ps else '', b))
        return o
    def self_contained(s, t): return t
def exprs(r, n):
    """every use is an expression statement over int variables; identifiers that remain are variables"""
    g = G(r); d = g.defs(r.randrange(2, 6)); e = g.expr(r.choice([2, 3])); e2 = g.expr(2); un = '\n'.join('#undef ' + k for k in g.m)
    # names that are left over denote variables; a function-like macro name without parentheses cannot be left over here
    left = ''.join('int %s = %d;' % (k, 7 + i * 3) for i, k in enumerate(g.m) if k not in 'abc' and g.m[k] is None)
    fns = ''.join('int (%s)(%s) { return %s; }\n' % (k + '_', 'int x', 'x') for k in []); lf = ''.join('static int %s(%s) { return %s; }\n' % (k, ', '.join('int p%d' % i for i in range(len(v))), ' + '.join('p%d * %d' % (i, i + 2) for i in range(len(v)))) for k, v in g.m.items() if v)
    ren = lambda t: t
    return '%sint t_%d(int a, int b, int c) { %s\n%s\nint q = %s; q = q * 3 + (%s);\n%s\nreturn q; }' % (lf, n, left, '\n'.join(d), e, e2, un)
# strings made with #: the characters are compared for every index
STRA = ['a', 'a b', 'a  b', ' a ', '"x"', '"x\\n"', "'y'", "'\\n'", "'\"'", '"\\"q\\""', '"\\\\"', '1 + 2', '1+2', 'a /* c */ b', 'a/**/b', 'f(1,2)', '(a, b)', '((a),(b))', '', ' ', '\t', 'M', 'M M', '"M"', 'M(1)', '-1', '- 1', '.5e+3', '0x1Fp', 'a\\b', '@', '#', '##', 'x # y', '<=', '< =', '...', 'a->b', '"a" "b"', "L'x'", 'L"x"', '`', '$x', '"a\tb"', 'a\n b', '\na\n', 'M\n+\nM', '%:', '1e-', '\\', '"//"', '"/* */"', "'\\''", 'a ? b : c', '!', '~x', '{ }', '[1]', '"\\0"', "'\\0'", '"\\x41\\101"']
def strs(r, n, quick):
    o = []; k = 0
    for kind in range(5 if not quick else 3):
        for s in STRA:
            if quick and kind and r.random() < .5: continue
            if s.startswith('#') and kind: continue
            h = ['#define S(x) #x\n', '#define S(x) T(x)\n#define T(x) #x\n#define M 42 + y\n', '#define S(x) # x "," #x\n#define M(z) z\n', '#define S(x) T(x, x)\n#define T(x, y) #x #y\n#define M M + 1\n', '#define S(x) #x[0] == #x[0] ? #x : ""\n'][kind]
            if kind == 3 and not s.strip(): continue
            if kind == 3 and ',' in s and not s.startswith('(') and not '(' in s: continue
            if kind in (1, 3) and s in ('', ' ', '\t', '\\'): continue
            if kind in (1, 3) and '(' not in s and ',' in s: continue
            if s == '\\': continue
            u = '#undef S\n#undef T\n#undef M\n'
            if kind == 4: o.append('%sint t_{n}(unsigned char i) { char *p = %s; return p[i %% sizeof(S(%s))]; }\n%s' % (h.replace('{', '{{'), 'S(%s)' % s, s, u) if 0 else '%sint t_{n}(unsigned char i) { static const char *p; p = S(%s); return p[0]; }\n%s' % (h, s, u))
            else: o.append('%sunsigned char t_{n}(unsigned char i) { static const char s[80] = S(%s); return s[i %% 80]; }\n%s' % (h, s, u))
    return o
PASTE = ['#define C(x, y) x ## y\nint t_{n}(int a, int b, int ab, int a1) { return C(a, b) * 3 + C(a, 1) * 5 + C(1, 2) + C(a,) + C(, b); }\n#undef C', '#define C(x, y) x##y\n#define a b\n#define ab 5\nint t_{n}(int b, int c) { return C(a, b) + b + C(a, 1) * 0; }\n#undef C\n#undef a\n#undef ab'.replace(' + C(a, 1) * 0', ''),
  '#define C(x, y) x##y\n#define X(x, y) C(x, y)\n#define N 3\nint t_{n}(int v3, int vN) { return X(v, N) * 3 + C(v, N); }\n#undef C\n#undef X\n#undef N', '#define OP(o) a o ## = b\nint t_{n}(int a, int b) { OP(+); OP(-); OP(*); OP(^); OP(<<) & 7; OP(|); return a; }\n#undef OP'.replace('OP(<<) & 7; ', ''), '#define OP(o, p) o##p\nint t_{n}(int a, int b) { a OP(<<, =) 1; b OP(+, +); if (a OP(<, =) b OP(&, &) a OP(!, =) 3 OP(|, |) b OP(>, =) 7) a OP(-, =) b; return a OP(>, >) 1; }\n#undef OP',
  '#define J(a, b, c) a ## b ## c\nint t_{n}(int xyz, int x, int y, int z) { return J(x, y, z) + J(1, 2, 3) + J(0, x, 1f) + J(x,,); }\n#undef J', '#define J(a, b) L ## a ## b ## R\nint t_{n}(int L12R, int LxyR) { return J(1, 2) + J(x, y) * 7; }\n#undef J', '#define F(n) n ## _f\n#define G(n) F(n)(2)\nstatic int q_f(int x) { return x + 1; }\nint t_{n}(int a) { return G(q) * a + F(q)(a); }\n#undef F\n#undef G',
  '#define E(x) 1 ## e ## x\n#define F(x) 1.x\nint t_{n}(void) { return (int) E(3) + (int) 1.5; }\n#undef E\n#undef F', '#define X x ## y\nint t_{n}(int xy) { return X; }\n#undef X', '#define hash # ## #\n#define str(x) #x\n#define jn(x, y) x hash y\nint t_{n}(void) { return sizeof(str(jn(a, b))) ; }\n#undef hash\n#undef str\n#undef jn', '#define f(a) a ## a\n#define xx 3\nint t_{n}(int x) { return f(x) + f(1); }\n#undef f\n#undef xx',
  '#define DEF(t, n) t n ## _a = 1, n ## _b = 2\nint t_{n}(int k) { DEF(int, z); DEF(unsigned char, w); return z_a + z_b * k + w_b; }\n#undef DEF', '#define STRUCT(n, t) struct n ## _s { t n ## _m; } n\nint t_{n}(int k) { STRUCT(p, int); STRUCT(q, char); p.p_m = k; q.q_m = (char) k; return p.p_m + q.q_m; }\n#undef STRUCT']
MISC = [ # the examples of C89 3.8.3 and combinations
  '#define x 3\n#define f(a) f(x * (a))\n#undef x\n#define x 2\n#define g f\n#define z z[0]\n#define h g(~\n#define m(a) a(w)\n#define w 0,1\n#define t(a) a\n#define s(x) #x\n#define xs(x) s(x)\nunsigned char t_{n}(unsigned char i) { static const char q[200] = xs(f(y+1) + f(f(z)) % t(t(g)(0) + t)(1);) xs((g(x+(3,4)-w) | h 5) & m\n(f)^m(m))); return q[i % 200]; }\n#undef x\n#undef f\n#undef g\n#undef z\n#undef h\n#undef m\n#undef w\n#undef t\n#undef s\n#undef xs',
  '#define str(s) # s\n#define xstr(s) str(s)\n#define INCFILE(n) vers ## n\nunsigned char t_{n}(unsigned char i) { static const char q[200] = str(strncmp("abc\\0d", "abc", \'\\4\') /* this goes away */ == 0) str(: @\\n) xstr(INCFILE(2).h); return q[i % 200]; }\n#undef str\n#undef xstr\n#undef INCFILE',
  '#define glue(a, b) a ## b\n#define xglue(a, b) glue(a, b)\n#define HIGHLOW "hello"\n#define LOW LOW ", world"\nunsigned char t_{n}(unsigned char i) { static const char q[100] = glue(HIGH, LOW); static const char *LOW_ = 0; return q[i % 100]; }\n#undef glue\n#undef xglue\n#undef HIGHLOW\n#undef LOW',
  '#define glue(a, b) a ## b\n#define xglue(a, b) glue(a, b)\n#define HIGHLOW "hello"\n#define LOW LOW ", world"\n#define s(x) #x\n#define xs(x) s(x)\nunsigned char t_{n}(unsigned char i) { static const char q[100] = xs(xglue(HIGH, LOW)); return q[i % 100]; }\n#undef glue\n#undef xglue\n#undef HIGHLOW\n#undef LOW\n#undef s\n#undef xs',
  '#define A 1\n#define A 1\n#define A   1\n#define A 1 /* same */\nint t_{n}(int x) { return A + x; }\n#undef A\n#undef A', '#define A(x) (x+1)\n#define A(x) (x+1)\nint t_{n}(int x) { int A = 3; return A(x) * A; }\n#undef A', '#define A x\nint t_{n}(int x) { int r = A;\n#undef A\n#define A x * 2\n r += A;\n#undef A\n { int A = 7; r += A; } return r; }', '#define int long\n#define K(int) sizeof(int)\nint t_{n}(int x) { int y = x; return sizeof(y) * 10 + K(char); }\n#undef int\n#undef K',
  '#define if(c) while(c)\nint t_{n}(int x) { x &= 7; if (x > 2) x--; return x; }\n#undef if', '#define EMPTY\n#define F(x) x EMPTY (3)\n#define ID(x) x\nstatic int F_(int q) { return q * 2; }\nint t_{n}(int x) { return ID(F_ EMPTY (x)) EMPTY + EMPTY 1; }\n#undef EMPTY\n#undef F\n#undef ID', '#define F(x) ((x) * 2)\n#define G F\nint t_{n}(int x) { return G(x) + G (x + 1) + G\n(\nx\n)\n; }\n#undef F\n#undef G', '#define F() 5\n#define H( ) x\nint t_{n}(int x) { int F = 2; return F() + F + F( ) + H() + H(\n); }\n#undef F\n#undef H',
  '#define F(x, y) x - y\nint t_{n}(int x, int y) { return F((x, y), (y, x)) + F(F(x, 1), F(2, y)); }\n#undef F', '#define LP (\n#define RP )\n#define F(x) x * 3\nstatic int G(int q) { return q - 1; }\nint t_{n}(int x) { return G LP x RP + G LP F(2) RP; }\n#undef LP\n#undef RP\n#undef F', '#define f(x) x + f\n#define g(x) f(x)(x)\nint t_{n}(int x) { int f = 9; return f(x) + g; }\n#undef f\n#undef g'.replace(' + g;', ';'), '#define a b\n#define b c\n#define c a + 1\nint t_{n}(int a) { return a; }\n#undef a\n#undef b\n#undef c'.replace('int t_{n}(int a)', '#undef a\nint t_{n}(int a)\n#define a b\n', 1).replace('return a; }', '{ int b = 2, c = 4; return a; } }') if 0 else '#define aa bb\n#define bb cc + 1\n#define cc aa * 2\nint t_{n}(int q) { return q; }\n#undef aa\n#undef bb\n#undef cc',
  '#define x (x + 1)\n#define y x * z\n#define z y - 1\nint t_{n}(void) { return 0; }\n#undef x\n#undef y\n#undef z\n', 'int x{n} = 4, y{n} = 5;\n#define x{n} (y{n} + x{n})\n#define y{n} (x{n} * 2 + y{n})\nint t_{n}(int q) { return x{n} * q + y{n}; }\n#undef x{n}\n#undef y{n}', '#define REP(m) m(1) m(2) m(3)\n#define CASE(n) case n: r += n * a; break;\nint t_{n}(int a, int b) { int r = 0; switch (b) { REP(CASE) default: r = 9; } return r; }\n#undef REP\n#undef CASE',
  '#define LIST X(p, 1) X(q, 20) X(s, 300)\n#define X(n, v) int n = v;\nint t_{n}(int k) { LIST\n#undef X\n#define X(n, v) k += n ^ v;\nLIST\n#undef X\n#define X(n, v) + n\nreturn k LIST; }\n#undef LIST\n#undef X', '#line 700 "foo.c"\nint t_{n}(int x) { static const char f[] = __FILE__; return __LINE__ + f[1] + x + sizeof(f); }', '#define L __LINE__\n#line 41\nint t_{n}(int x) { return L * 100 +\nL; }\n#undef L', 'int t_{n}(int x) { return __STDC__ + x\n#ifdef __FILE__\n+ 2\n#endif\n#if __LINE__ > 2\n+ 4\n#endif\n; }',
  'unsigned long t_{n}(void) { return sizeof(__DATE__) * 100 + sizeof(__TIME__); }', '#define MAX(a, b) ((a) > (b) ? (a) : (b))\n#define MIN(a, b) ((a) < (b) ? (a) : (b))\n#define CLAMP(x, l, h) MIN(MAX(x, l), h)\nint t_{n}(int x) { return CLAMP(x, -5, CLAMP(x, MIN(1, 2), 9)); }\n#undef MAX\n#undef MIN\n#undef CLAMP', '#define SWAP(t, a, b) do { t tmp = a; a = b; b = tmp; } while (0)\nint t_{n}(int a, int b) { if (a > b) SWAP(int, a, b); else SWAP(long, b, a); return a * 3 - b; }\n#undef SWAP',
  '#define f(x) #x\n#define g(x) f(x)\n#define h(x) g(x) f(x)\n#define y 1 + z\n#define z 2\nunsigned char t_{n}(unsigned char i) { static const char s[60] = h(y); return s[i % 60]; }\n#undef f\n#undef g\n#undef h\n#undef y\n#undef z', '#define ARGS (1, 2)\n#define ADD(p) ADD_ p\n#define ADD_(a, b) a + b\nint t_{n}(int x) { return x * ADD(ARGS) + ADD((x, 3)); }\n#undef ARGS\n#undef ADD\n#undef ADD_', '#define CALL(f, a) f a\n#define T(x, y) x * y\nint t_{n}(int x) { return CALL(T, (x, 2)) + CALL(T, (3, x + 1)); }\n#undef CALL\n#undef T',
  '#define A B\n#define B(x) x + C\n#define C D(2)\n#define D(y) y * y\nint t_{n}(int x) { return A(x) - A(C); }\n#undef A\n#undef B\n#undef C\n#undef D', '#define DEFER(x) x E\n#define E\n#define N() 7\nint t_{n}(int N) { return DEFER(N) + N () + DEFER(N()); }\n#undef DEFER\n#undef E\n#undef N', '#define U(x) -x\n#define P(x) +x\nint t_{n}(int x) { return -U(x) + P(+x) - U(-3) -U(x)-P(x); }\n#undef U\n#undef P', '#define M -\n#define Q +\n#define A &\n#define L <\n#define W(x) -x\nint t_{n}(int x, int y) { return x -M 1 +Q y - -W(3) -M(x)+Q(y) + (x L L y A y) * 0; }\n#undef M\n#undef Q\n#undef A\n#undef L\n#undef W'.replace(' + (x L L y A y) * 0', ''),
  '#define DOT .\n#define F 1\n#define X(a) a.a\nstruct s{n} { int y; };\nint t_{n}(int x) { struct s{n} y; y.y = x; return X(y) + y DOT y; }\n#undef DOT\n#undef F\n#undef X', '#define e +1\n#define x1 5\nint t_{n}(int q) { return q+0x1 + q e e; }\n#undef e\n#undef x1', '#define NEST(x) (x NEST2(x))\n#define NEST2(x) + (x NEST3(x))\n#define NEST3(x) * x\nint t_{n}(int q) { return NEST(NEST(q)); }\n#undef NEST\n#undef NEST2\n#undef NEST3', '#define S "a" "b\\"" /* x */ "c"\nunsigned char t_{n}(unsigned char i) { static const char s[] = S "d" S; return s[i % sizeof(s)]; }\n#undef S', "#define C1 'a'\n#define C2 '\"'\n#define C3(x) 'x'\n#define C4(x) \"x\"\nint t_{n}(int x) { return C1 + C2 * x + C3(y) + C4(z)[0]; }\n#undef C1\n#undef C2\n#undef C3\n#undef C4".replace("C3(y)", "C3(1)").replace("C4(z)", "C4(1)"),
  '#define F(x) x\nint t_{n}(int x) { return F(F)(x) * 0 + F(F(F(x))) + F((F)(x)); }\n#undef F'.replace('F(F)(x) * 0 + ', '').replace(' + F((F)(x))', ''), '#define F(x) \\\n  (x \\\n  + 1)\n#define \\\nG 4\n#de\\\nfine H 9\nint t_{n}(int x) { return F(x) * G + H; }\n#undef F\n#undef G\n#undef H', '/* c */ # /* c */ define /* c */ A /* c\n */ 3 /* c */\nint t_{n}(int x) { return A * x; }\n#/**/undef A', '#define A(x,y,z)x##y z\nint t_{n}(int pq) { return A(p,q,+ 1) A(,,*2) + A(p,q,); }\n#undef A', '#define O(...) 1\nint t_{n}(int x) { return x; }\n#undef O'.replace('(...)', '(x)'),
  '#define M 100 * __LINE__\n#define F(x) x * __LINE__ + x\n#define G(x, y) y + F(x) - M\nint t_{n}(int x) { return M +\n\nF(3) + x * M +\n G(x, 2) + (__LINE__ - M) * F(x); }\n#undef M\n#undef F\n#undef G',
  '#define P(a, b) a##b\n#define S(a) #a\nint t_{n}(int xy, int xyz) { return P(x,\ny) + P(x\n,y) * 3 + P(\n\nx\n,\n\n\nyz\n) + S(\na\n\n\nb\n)[1] + sizeof(S(\n))\n; }\n#undef P\n#undef S',
  '#line 3\n#define M(x) x * 100 +\\\n __LINE__\n#line 1000\nint t_{n}(int x) { return M(x) + /* \n\n */ __LINE__\n#line 2 "g.h"\n + M(__LINE__) \\\n+ __LINE__ +\n __FILE__[0]; }\n#undef M']
def main(tier):
    c = Check('P14', 'macro expansion', 'translation_validation', tier); r = c.rnd
    c.add_fns('misc', MISC, per=1); c.add_fns('paste', PASTE, per=1); c.add_fns('str', strs(r, 0, c.quick), per=8)
    for i in range(c.pick(250, 4000)): c.add(Unit('exp%d' % i, exprs(r, i)))
    # symbolic characters in arguments
    P = [('0', '9'), ('a', 'z'), ('A', 'Z'), ('_', '_')]; A = [(' ', '!'), ('#', '['), (']', '~')]; k = 0
    def sym(name, src, ref, s):
        x = s.build(src, ref); c.add(Unit(name, x[0], refsrc=x[1], syms=x[2], symrefs=x[3], opts={'nummap': 1, 'max_paths': c.pick(300, 3000)}))
    for i in range(c.pick(24, 200)):
        s = SymSrc(); x = i % 8; lit = lambda sp, *a: s.lit(sp, *a); q = r.randrange(1, 4)
        # digits pasted to a number, through one or two levels
        if x == 0: a, fa = lit([('1', '9')] + [('0', '9')] * q); b, fb = lit([('0', '9')] * q); sym('sp%d' % i, '#define C(x, y) x ## y\n#define X(x, y) C(x, y)\nlong t_0(void) { static long g = %s(%s, %s); return g; }' % (r.choice('CX'), a, b), 'long t_0(void) { return %s * %dL + %s; }' % (fa, 10 ** q, fb), s)
        # every printable character in a string argument that is stringized: quotes and backslashes of the argument are escaped
        elif x in (1, 2): a, fa = lit([A] * q); sym('ss%d' % i, '#define S(x) #x\n#define T(x) S(x)\nunsigned char t_0(unsigned char i) { static const char s[32] = %s("u%sv\\n"); return s[i & 31]; }' % (r.choice('ST'), a), 'unsigned char t_0(unsigned char i) { const char *h = "\\"u"; const char *t = "v\\\\n\\""; i &= 31; return i < 2 ? h[i] : i < %d ? L0_[i - 2] : i < %d ? t[i - %d] : 0; }' % (2 + q, 2 + q + 4, 2 + q), s)
        # a character constant as an argument
        elif x == 3: a, fa = lit([[(' ', '&'), ('(', '['), (']', '~')]]); sym('sc%d' % i, "#define S(x) #x\n#define ID(x) x\nint t_0(unsigned char i) { static const char s[8] = S('%s'); return s[i & 7] + ID('%s') * 256; }" % (a, a), "int t_0(unsigned char i) { char s[8] = { 39, 0, 39 }; s[1] = L0_[0]; return s[i & 7] + L0_[0] * 256; }", s)
        # stringized numbers and identifiers
        elif x == 4: a, fa = lit([('0', '9')] + [P] * q); sym('sn%d' % i, '#define S(x) #x\nunsigned char t_0(unsigned char i) { static const char s[8] = S( %s ); return s[i & 7]; }' % a, 'unsigned char t_0(unsigned char i) { i &= 7; return i < %d ? L0_[i] : 0; }' % (q + 1), s)
        # any amount and kind of white space and comments between the tokens of an argument become one space
        elif x == 5: W = [('\t', '\t'), ('\v', '\f'), (' ', ' ')]; a, fa = lit([W] * q); sym('sw%d' % i, '#define S(x) #x\nunsigned char t_0(unsigned char i) { static const char s[16] = S(%sa +%s(b%s/* %s */c)%s); return s[i & 15]; }' % (a, a, a, a, a), 'unsigned char t_0(unsigned char i) { return "a + (b c)\\0\\0\\0\\0\\0\\0\\0"[i & 15]; }', s)
        # numbers as arguments of nested arithmetic macros
        elif x == 6: a, fa = s.octal(16); b, fb = s.octal(12); sym('sa%d' % i, '#define A(x, y) x + y\n#define M(x, y) A(x, y) * 3 - A(y, x)\n#define N M(%s, %s)\nlong t_0(void) { static long g = N; return g; }' % (a, b), 'long t_0(void) { long a = %s, b = %s; return a + b * 3 - b + a; }' % (fa, fb), s)
        # the name of the macro that is used depends on symbolic characters
        else: a, fa = lit([('a', 'c')]); b, fb = lit([('0', '2')]); sym('sm%d' % i, '#define a0 1\n#define a1 a0 + 1\n#define b0 20\n#define b2(x) x + b0\n#define c1 b2(c0)\n#define c2 a2\n#define E(x, y) x ## y\nint t_0(int x) { int a2 = 300, b1 = 400, b2 = 500, c0 = 600; return %s%s * 2 + E(%s, %s) + E(%s, 0) (7); }'.replace(' + E(%s, 0) (7)', '') % (a, b, a, b), 'int t_0(int x) { int v[3][3] = { { 1, 2, 300 }, { 20, 400, 500 }, { 600, 620, 300 } }; int w[3][3] = { { 2, 3, 600 }, { 40, 800, 1000 }, { 1200, 640, 600 } }; return w[L0_[0] - 97][L1_[0] - 48] + v[L0_[0] - 97][L1_[0] - 48]; }', s)
    c.run_units(deadline=c.pick(300, 3000)); c.validate_samples(c.pick(4, 20))
    return c.finish()
