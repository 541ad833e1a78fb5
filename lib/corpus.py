"""Pieces of the C corpora."""
T = ['char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned', 'long', 'unsigned long']
CONST = ['0', '1', '2', '3', '4', '5', '7', '8', '9', '10', '15', '16', '31', '32', '33', '63', '64', '100', '127', '128', '255', '256', '1000', '1024', '32767', '32768', '65535', '65536', '1000000', '1073741824', '2147483647', '2147483648u', '4294967295u', '2147483648l', '4294967295l', '4294967296l', '1099511627776l', '4611686018427387904l', '9223372036854775807l', '9223372036854775808ul', '18446744073709551615ul']
NEG = ['(-1)', '(-2)', '(-3)', '(-8)', '(-127)', '(-128)', '(-129)', '(-32768)', '(-32769)', '(-2147483647-1)', '(-1l)', '(-2147483649l)', '(-9223372036854775807l-1)']

def operand(r, t, v, kind):
    """(global decls, local decls, setup, expression) of an operand of type t with the value of parameter v"""
    if kind == 'param': return '', '', '', v
    if kind == 'global': return '%s s_%s{n};' % (t, v), '', '', 's_%s{n}' % v
    if kind == 'local': return '', '%s l%s;' % (t, v), 'l%s = %s;' % (v, v), 'l' + v
    if kind == 'array': return '%s s_%s{n}[5];' % (t, v), '', '', 's_%s{n}[%d]' % (v, r.randrange(5))
    if kind == 'larray': return '', '%s l%s[3];' % (t, v), 'l%s[1] = %s;' % (v, v), 'l%s[1]' % v
    if kind == 'deref': return '', '%s l%s; %s *p%s;' % (t, v, t, v), 'l%s = %s; p%s = &l%s;' % (v, v, v, v), '*p' + v
    if kind == 'member': return 'struct S%s{n} { char c; %s m; } s_%s{n};' % (v, t, v), '', '', 's_%s{n}.m' % v
    if kind == 'arrow': return 'struct S%s{n} { char c; %s m; } s_%s{n};' % (v, t, v), 'struct S%s{n} *p%s;' % (v, v), 'p%s = &s_%s{n};' % (v, v), 'p%s->m' % v
    if kind == 'call': return '%s c%s{n}(%s x) { return x; }' % (t, v, t), '', '', 'c%s{n}(%s)' % (v, v)
    if kind == 'volatile': return '', 'volatile %s l%s;' % (t, v), 'l%s = %s;' % (v, v), 'l' + v
    raise KeyError(kind)
KINDS = ['param', 'param', 'global', 'local', 'array', 'larray', 'deref', 'member', 'arrow', 'call', 'volatile']

def signed_pow2(op, t, c):
    """signed % 2^n is a known finding (unit modpow2) and kept out of the other programs"""
    if op != '%' or t.startswith('unsigned') and t != 'unsigned short' and t != 'unsigned char': return False
    if t in ('unsigned short', 'unsigned char') or ('u' in c and t != 'long') or 'ul' in c or c.startswith('(') or not c.rstrip('lu').isdigit(): return False
    n = int(c.rstrip('lu')); return n > 1 and n & (n - 1) == 0
