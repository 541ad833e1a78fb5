"""Sources with symbolic literals: the digits of an integer or character literal are symbolic bytes of the file the compiler
reads, and the reference program sees the same bytes in an array, from which it calculates the value by the rules of C89."""
REFHDR = '''typedef unsigned long UL_;
static UL_ oct_(const char *p, int n) { UL_ v = 0; int i; for (i = 0; i < n; i++) v = v * 8 + (p[i] - '0'); return v; }
static UL_ dec_(const char *p, int n) { UL_ v = 0; int i; for (i = 0; i < n; i++) v = v * 10 + (p[i] - '0'); return v; }
static UL_ hex_(const char *p, int n) { UL_ v = 0; int i; for (i = 0; i < n; i++) v = v * 16 + (p[i] >= 'a' ? p[i] - 'a' + 10 : p[i] >= 'A' ? p[i] - 'A' + 10 : p[i] - '0'); return v; }
'''
class SymSrc:
    """lit() returns a (token for the source, expression for the reference) pair; build() the Unit arguments."""
    def __init__(self): self.lits = []
    def lit(self, spec, kind='dec', prefix='', suffix='', ty='int'):
        """spec: list of digits, each a fixed character or a (lo, hi) string of two characters or a list of such ranges"""
        k = len(self.lits); self.lits.append((spec, prefix, suffix)); n = len(spec)
        return '\x01%d\x02' % k, '((%s) %s_(L%d_, %d))' % (ty, kind, k, n)
    def octal(self, bits, ty='int', suffix=None, nonzero=False):
        """every value of the given number of bits"""
        n, r = divmod(bits, 3); spec = ([('0', chr(48 + (1 << r) - 1))] if r else []) + [('0', '7')] * n
        if nonzero: spec[-1] = ('1', '7')
        return self.lit(spec, 'oct', '0', {'int': '', 'unsigned': 'u', 'long': 'L', 'unsigned long': 'UL'}[ty] if suffix is None else suffix, ty)
    def build(self, src, ref, name='p.c'):
        """Replace the tokens by template digits; returns (src, refsrc, syms, symrefs)"""
        out = ''; syms = []; srefs = {}; i = 0; decl = ''
        while i < len(src):
            if src[i] != '\x01': out += src[i]; i += 1; continue
            j = src.index('\x02', i); k = int(src[i + 1:j]); spec, pre, suf = self.lits[k]; i = j + 1; out += pre; names = []
            for d, s in enumerate(spec):
                nm = 'L%d_%d' % (k, d)
                if isinstance(s, str): rng = '%d' % ord(s); c = s
                else:
                    rs = [s] if isinstance(s, tuple) else s; rng = ','.join('%d-%d' % (ord(a), ord(b)) for a, b in rs); c = rs[0][0]
                if k not in srefs or True: syms.append((name, len(out), nm, rng))
                out += c; names.append(nm)
            out += suf; srefs[k] = names
        for k, names in srefs.items(): decl += 'extern char L%d_[%d];\n' % (k, len(names))
        return out, REFHDR + decl + ref, syms, [('L%d_' % k, n) for k, n in sorted(srefs.items())]
