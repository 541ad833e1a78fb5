"""P18: the compiler survives any text. Programs of every kind are cut short or changed in places where any byte (or any of the characters that
matter) may stand; wcc runs on them in the symbolic executor, which decides for every memory access on every path that it stays inside a live
object. Exit status 0 and 1 are allowed; signals, memory errors and endless loops are not."""
from check import *
B = '0-255'; C = ','.join(str(ord(x)) for x in '\n"\'\\(#0a /*.)x,;{}')
# %b: any byte, %c: one of the characters above
PRE = ['%b%c', 'a%b%cc\n', '#%b%c\n', '#define %b%c\n', '#define F(%b%c) x\nF(1)\n', '#define F(x,%c%c) x\n', '#define F(x) x%c%bx\nF(1)\n', '#define F(x) #%c%b\nF(1)\n', '#define F(x,y) #x y\nF(%c%b)\n', '#define F(x,y) x y\nF%c%b1,2)\n', '#define F(x) x\nF(%c', '#define F(x) [x]\nF%c', '#define F(x,y) x##%cy\nF(%c,%c)\n', '#define F(x...%c',
 '#if %b%c\n#endif\n', '#if 1%b%c\n#endif\n', '#define A\n#if A%c%c\n#endif\n', '#define A(x) x\n#if A(%c%c)\n#endif\n', '#define A(x) x\n#line A(%c)\n', '#if (%c%c\n#endif\n', '#if defined%c%c\n#endif\n', '#if 1 ? %c : %c\n#endif\n', "#if '%c%c\n#endif\n", '#if 0x%c%c\n#endif\n', '#if 1/%c0\n#endif\n', '#if 0\n%c%b', '#if 0\n#%c%b\n#endif\n', '#if 1\n#el%bf 1%c', '#ifdef %b%c', '#ifndef A%c\n#else%c\n#endif%c', '#else%b\n', '#endif%c', '#elif %c%c', '#if 1\n#else\n#el%b\n#endif\n',
 '#include %b%c\n', '#include "%c%c\n', '#include <%c%c', '#define A %c%c\n#include A\n', '#line %b%c\n', '#line 1 %c"%c"\n', '#line 1 "%c%b\n', '#line 99999999999%c\n', '# 1 "%b%c', '#undef %b%c', '#undef%c', '#error%b%c', '#warning %c%c', '#pragma%b%c', '#%c\n#%c', '"%b%c', "'%b%c", '"a\\%b%c"', "'\\%b%c'", '1%b%c', '1.e%b%c', '.%b%c', '0x%b%c', '??%b%c', '\\%b%c', '\\%c', '//%b\\%c', '/%c%c', '/*%b%c', '/**%c%c', 'L%c%c', '__FILE__%c%c', '__LINE__%c', '_%b%c', '%c' * 3, 'x%c\\\n%c']
SRC = ['int x = %b%c;', 'int x%b%c', 'int %b%c;', '%b%c', 'int f(void) { %b%c }', 'int f(int a) { return a%b%c; }', 'int f(int a) { a%c%c; return%c a; }', 'struct s {%b%c} x;', 'struct s { int a%b%c; } x;', 'struct %c%c x;', 'union { int a:%b%c; };', 'char s[] = "%b%c";', 'char s[] = "\\%b%c";', 'char s[] = "\\x%b%c";', 'char s[3] = "ab%c%c;', 'char *s = "a" %b%c;', "char c = '%b%c';", "char c = '\\%b%c;", "char c = '\\x%b%c;", "int c = L'%b%c;", 'int c = L"%c%c;', 'int c = L%b%c;', 'int a[%b%c] = {1, 2};', 'int a[] = {%b%c};', 'int a[2] = {1,%b%c', 'int a[2][2] = {{1,%b},%c};', 'struct { int a, b; } x = { %b%c };', 'struct { int a, b; } x = { .%b = %c };',
 'enum e {%b%c};', 'enum e {a = %b%c};', 'enum %b%c;', 'typedef%b%c;', 'typedef int t; t%b%c', 'typedef int t; t %b%c;', 'float f = 1%b%c;', 'double f = 1.5%b%c;', 'double f = .%b%c;', 'double f = 1e%b%c;', 'long x = 1%b%c;', 'long x = 0x%b%c;', 'long x = 0%b%c;', 'int (*%b%c)(int);', 'int (*f)(int%b%c;', 'int f(%b%c);', 'int f(int a, %b%c) { return a; }', 'int f(int a, ..%b);', 'int f(a%b%c { return 1; }', 'int f(a) int %b%c { return a; }', 'int f(int a) { return f(%b%c); }', 'int f(int a) { return f(1%b%c; }', 'int x = sizeof %b%c;', 'int x = sizeof(%b%c);', 'int f(int a) { return a ? %b : %c; }', 'int f(int a) { for (%b;%c;) a++; return a; }', 'int f(int a) { for (;;%b%c a++; return a; }',
 'int f(int a) { while (%b%c) a--; return a; }', 'int f(int a) { do %b%c while (a--); return a; }', 'int f(int a) { if (%b%c return a; else a++; }', 'int f(int a) { switch (a) { case %b%c: return 1; } return 2; }', 'int f(int a) { switch (a) { %b%c } }', 'int f(int a) { goto %b%c; l: return a; }', 'int f(int a) { l%b%c return a; }', 'int f(int a) { break%b%c }', 'int f(int a) { %b continue; %c}', 'int f(int a) { default%b%c }', 'int f(int a) { { int b%b%c } }', 'int f(int *a) { *a%b%c 1; }', 'int f(int *a) { return &%b%c; }', 'struct s { int a; }; int f(struct s *p) { return p%b%ca; }', 'struct s { int a; }; int f(struct s p) { return p.%b%c; }', 'int f(int a) { return (%b%c) a; }', 'int f(int a) { return (int%b%c a; }', 'int f(int a) { return -%b%c; }', 'int f(int a[]) { return a[%b%c; }',
 'extern%b%c int x;', 'static%b%c', 'const%b int%c x;', 'unsigned%b%c x;', 'long%b long%c x;', 'int f(void) { return "a%b%c }', '__attribute__((%b%c)) int x;', 'int x __attribute__%b%c;', 'int f(int a) { asm(%b%c); }', '#pragma%b%c\nint x;', '# 1 "a%b%c\nint x;', 'int f(int n, ...) { __builtin_va_list%b%c; }', 'int f(float a) { return a%b%c1; }', 'struct s { struct s%b%c; };', 'struct s { int a; struct { int b; %b%c } x;', 'int f(struct s%b%c;', 'void f(void) { return%b%c; }', 'void f(void) { int a%b, b%c; }', 'int x; int x%b%c;', 'static int x; extern int x%b%c', 'int f(int a) { int b = {%b%c}; }', 'int f(int a) { int b[2] = {%c', 'int f(int a) { char b[] = %b%c', '']
PROG = ['struct s { int a, b:3; char c[4]; struct s *n; union { int u; float v; } w; };\nenum e { A, B = 4, C };\ntypedef struct s T;\nstatic int g(T *p, enum e q) { return p->a + q + p->n->w.u; }\nint h(int x) { T t = { 1, 2, "ab" }; int i; for (i = 0; i < x; i++) { if (i & 1) continue; t.a += i ? x : -1; } return g(&t, B) + sizeof(T); }\n',
 'int a[2][3] = { { 1, 2 }, { 3 } }; char *s[] = { "x\\n", "y" "z" }; double d = 1.5e3; int (*f)(int, char *); extern int k(int, ...);\nint m(int x, double y) { switch (x) { case 1: case 2: return a[x][1]; default: break; } while (x--) { do { y *= 2; } while (y < 10); } goto l; l: return k(x, y, s[0], \'c\') + f(1, "q"); }\n',
 '#define F(x, y) x ## y + #x\n#define G(z) z z\n#if defined(F) && !defined Q\nint G(a) F(b, c)\n#elif 1 + 2 > 3\n#include "h.h"\n#else\n#error no\n#endif\n/* c */ int x; // d\n#undef F\n#line 7 "a.c"\nint y = __LINE__ + G(1);\n',
 'unsigned long u = 0xffffUL, v = 017, w = \'\\x41\'; long double l = 1.25L; float f(float a, long double b) { a += b; b = a * 2.0f; return -a / b + !a + ~(int) a; }\nstatic const volatile int * const p = &(*(int *) 0); void q(int n, ...) { unsigned char c = n; c <<= 3; c ^= n | 1; n = c, n; *(char *) &n = 1; }\n']
def build(name, t):
    out = ''; syms = []; k = 0; i = 0
    while i < len(t):
        if t[i] == '%' and t[i + 1:i + 2] in ('b', 'c'): k += 1; syms.append((name, len(out), 'X%d' % k, B if t[i + 1] == 'b' else C)); out += 'a'; i += 2
        else: out += t[i]; i += 1
    return out, syms
def main(tier):
    c = Check('P18', 'any input text', 'bounded', tier); r = c.rnd; q = c.quick; k = [0]
    H = {'h.h': 'int h;\n'}
    def unit(name, t, flags, files=None, syms=None, opts=None):
        k[0] += 1; s, y = build('p.c', t)
        c.add(Unit('%s%d' % (name, k[0]), s, argv=list(flags) + ['p.c'] + ([] if '-E' in flags else ['-o', 'out.s']), syms=y if syms is None else syms, ref=False, exit_ok=2, files=dict(H, **(files or {})), opts=dict({'max_paths': c.pick(40, 3000), 'max_steps': 60000000, 'cpu': c.pick(25, 900)}, **(opts or {}))))
    S = ['-S']; E = ['-E']
    def one(t): # keep one of the symbolic places, chosen at random, in half of the quick runs
        n = len(re.findall('%[bc]', t))
        if not q or n < 2 or r.random() < .4: return t
        j = r.randrange(n); m = [0]
        def f(x): m[0] += 1; return x.group(0) if m[0] - 1 == j else r.choice(['a', ' ', '1', '(', '"', '\n', ''])
        return re.sub('%[bc]', f, t)
    for t in PRE:
        unit('pre', one(t), E)
        if not q: unit('prs', t, S)
    for t in SRC:
        unit('src', one(t), S)
        if r.random() < c.pick(.2, 1): unit('sre', t.replace('%b', '').replace('%c', ''), S + ['-g'])
    # programs cut short and changed in one place
    for i in range(c.pick(70, 1500)):
        t = r.choice(PROG); j = r.randrange(len(t)); t = t.replace('%', '')
        x = r.random()
        if x < .35: t = t[:j] + '%b'
        elif x < .6: t = t[:j] + '%b' + t[j + 1:]
        elif x < .8: t = t[:j] + '%b' + t[j:]
        else: a, b = sorted((j, r.randrange(len(t)))); t = t[:a] + '%c' + t[b:]
        unit('cut', t, E if r.random() < .25 else S)
    # lengths at the limits of the buffers
    for n in (1022, 1023, 1024, 1025, 5000):
        unit('ws', 'int' + ' ' * n + '%cx;\n', E); unit('ws', 'int' + '\t' * (n // 2) + '/**/' * (n - n // 2) + 'x%c', E)
    for n in (254, 255, 256, 257, 1022, 1023, 1024, 1025, 4095, 4096, 5000):
        unit('id', 'int ' + 'x' * n + '%c;\n', S); unit('def', '#define ' + 'x' * n + ' 1%c\nx' + 'x' * n, E)
        unit('line', '#line 3 "' + 'x' * n + '%c"\nint x\n;\n', S); unit('inc', '#include "' + 'x' * n + '%c"\n', E); unit('num', 'int x = ' + '1' * n + '%c;\n', S); unit('dbl', 'double x = .' + '1' * n + '%c;\n', S)
        unit('arg', '#define F(x) #x x\n' + 'F(' * min(n, c.pick(60, 300)) + '%c' + ')' * min(n, c.pick(60, 300)), E)
        unit('fn', 'int ' + 'f' * n + '(int a) { static int ' + 'g' * n + '; return a ? ' + 'f' * n + '(a%c1) : ' + 'g' * n + '; }\n', S)
    for n in (4094, 4095, 4096, 4097, 10240, 16383, 16384): unit('str', 'char *s = "' + 'x' * n + '%c";\n', S); unit('str', 'char *s = "' + 'x' * n + '" "%cx";\n', S); unit('str', 'int *s = L"' + 'x' * n + '" L"%cx";\n', S)
    c.run_units(deadline=c.pick(300, 3000))
    return c.finish()
