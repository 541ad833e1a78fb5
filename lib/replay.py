"""Native replay of counterexamples: the real wcc, the real assembler and the real processor."""
import os, re, subprocess
from vf import *

TRAMP = r'''
.globl vf_tramp
.text
vf_tramp:
 popq vf_ret(%rip)
 movq %rbx, vf_save(%rip)
 movq %rbp, vf_save+8(%rip)
 movq %r12, vf_save+16(%rip)
 movq %r13, vf_save+24(%rip)
 movq %r14, vf_save+32(%rip)
 movq %r15, vf_save+40(%rip)
 movq %rsp, vf_save+48(%rip)
 movq %rdi, vf_tmp(%rip)
 movq %rcx, vf_tmp+8(%rip)
 movq %rax, vf_tmp+16(%rip)
 leaq -16384(%rsp), %rdi
 movq $16384, %rcx
 movb vf_fill(%rip), %al
 rep stosb
 movq vf_tmp(%rip), %rdi
 movq vf_tmp+8(%rip), %rcx
 movq vf_tmp+16(%rip), %rax
 movq vf_cs(%rip), %rbx
 movq vf_cs+8(%rip), %rbp
 movq vf_cs+16(%rip), %r12
 movq vf_cs+24(%rip), %r13
 movq vf_cs+32(%rip), %r14
 movq vf_cs+40(%rip), %r15
 movq vf_cs+8(%rip), %r10
 movq vf_cs(%rip), %r11
 call TARGET
 cmpq vf_save+48(%rip), %rsp
 je 1f
 movl $1, vf_bad(%rip)
1: cmpq vf_cs(%rip), %rbx
 jne 2f
 cmpq vf_cs+8(%rip), %rbp
 jne 2f
 cmpq vf_cs+16(%rip), %r12
 jne 2f
 cmpq vf_cs+24(%rip), %r13
 jne 2f
 cmpq vf_cs+32(%rip), %r14
 jne 2f
 cmpq vf_cs+40(%rip), %r15
 je 3f
2: movl $2, vf_bad(%rip)
3: movq vf_save(%rip), %rbx
 movq vf_save+8(%rip), %rbp
 movq vf_save+16(%rip), %r12
 movq vf_save+24(%rip), %r13
 movq vf_save+32(%rip), %r14
 movq vf_save+40(%rip), %r15
 movq vf_save+48(%rip), %rsp
 jmp *vf_ret(%rip)
.data
vf_ret: .quad 0
vf_save: .zero 64
vf_tmp: .zero 64
.globl vf_cs
vf_cs: .zero 64
.globl vf_fill
vf_fill: .byte 0
.globl vf_bad
vf_bad: .long 0
.section .note.GNU-stack,"",@progbits
'''
HELP = r'''
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
struct g { const char *n; char *a; unsigned long s; }; extern struct g vf_tab[]; extern int vf_bad; extern unsigned long vf_cs[]; extern unsigned char vf_fill;
void vf_init(void) { int i; char *e = getenv("VF_FILL"); vf_fill = e ? atoi(e) : 0; for (i = 0; i < 6; i++) { vf_cs[i] = 0x1111111111111111ul * vf_fill + 0x123456789abcdeful * i; } }
void vf_dump(const char *what, char *p, int bits, int kind) { int i;
    printf("%s=", what); if (!p) { printf("absent\n"); return; }
    if (kind == 'f' && bits == 32) { float f; memcpy(&f, p, 4); if (f != f) { printf("nan\n"); return; } }
    if (kind == 'f' && bits == 64) { double f; memcpy(&f, p, 8); if (f != f) { printf("nan\n"); return; } }
    if (kind == 'f' && bits == 80) { long double f; memcpy(&f, p, 10); if (f != f) { printf("nan\n"); return; } }
    if (kind == 'p') { char *v; struct g *g; memcpy(&v, p, 8); if (!v) { printf("null\n"); return; }
        for (g = vf_tab; g->n; g++) if (g->a && v >= g->a && v <= g->a + g->s) { printf("%s+%ld\n", g->n, (long) (v - g->a)); return; }
        if ((unsigned long) v < 4096 || (unsigned long) v > 0x7fffffffffff) { printf("%lx\n", (unsigned long) v); return; }
        for (i = 0; i < 64; i++) { printf("%02x", (unsigned char) v[i]); if (!v[i]) break; } printf("\n"); return; }
    for (i = 0; i < (bits + 7) / 8; i++) printf("%02x", (unsigned char) p[i]); printf("\n"); }
void vf_final(void) { printf("abi=%s\n", vf_bad == 0 ? "ok" : vf_bad == 1 ? "stack pointer" : "callee saved register"); fflush(stdout); }
'''
def split_args(s):
    out, d, cur = [], 0, ''
    for c in s:
        if c in '({[<': d += 1
        if c in ')}]>': d -= 1
        if c == ',' and d == 0: out.append(cur.strip()); cur = ''
        else: cur += c
    if cur.strip(): out.append(cur.strip())
    return out

def m_byte(model, name, off): return (model.get('%s.%d' % (name, off)), off)

def val(model, name): return int(model.get(name, '0'), 16) if isinstance(model.get(name, '0'), str) else int(model[name])

def const(ty, v):
    if ty in ('float', 'double', '<2 x float>'):
        w = {'float': 32, 'double': 64, '<2 x float>': 64}[ty]; return 'bitcast (i%d %d to %s)' % (w, v, ty)
    if ty == 'x86_fp80': return '0xK%020X' % v
    if ty == 'ptr': return 'inttoptr (i64 %d to ptr)' % v
    return str(v)

def driver(ll, fn, model, globs, symrefs, loc):
    """LLVM IR of a main function which calls fn with the values of the model and prints what is to be compared."""
    d = re.search(r'^define (.*?)@%s\((.*?)\)(?: unnamed_addr| local_unnamed_addr)? #' % re.escape(fn), ll, re.M) if fn else None
    o = ['target triple = "x86_64-pc-linux-gnu"'] + re.findall(r'^%[\w.]+ = type .*$', ll, re.M)
    o += ['declare void @vf_init()', 'declare void @vf_final()', 'declare void @vf_dump(ptr, ptr, i32, i32)']
    b = []; n = [0]
    def tmp(): n[0] += 1; return '%%v%d' % n[0]
    consts = {}
    def cstr(s):
        if s not in consts: consts[s] = '@.vfs%d' % len(consts); o.append('%s = private constant [%d x i8] c"%s\\00"' % (consts[s], len(s) + 1, s))
        return consts[s]
    gl = {}
    for m in re.finditer(r'^@([\w.]+) = ([^\n]*?)(?:global|constant) ([^\n]*)$', ll, re.M):
        if m.group(1).startswith('.') or 'private' in m.group(2) or 'internal' in m.group(2) and not (loc and loc[0] == m.group(1)): continue
        gl[m.group(1)] = m.group(3)
    sizes = dict(globs)
    for g, names in symrefs: # the bytes of the source which the reference reads
        if g in gl and re.search(r'^@%s = external' % re.escape(g), ll, re.M): o.append('@%s = global [%d x i8] [%s]' % (g, len(names), ', '.join('i8 %d' % (val(model, nm) & 255) for nm in names))); gl.pop(g)
    symrefs = [(g, names) for g, names in symrefs if g in gl]
    for g in gl: o.append('@%s = extern_weak global i8' % g)
    ents = []
    for g in gl: ents.append('%%g { ptr %s, ptr @%s, i64 %d }' % (cstr(g), g, sizes.get(g, 1)))
    fnames = sorted(set(re.findall(r'^(?:define|declare) [^\n]*?@(\w+)\(', ll, re.M)))
    for f in fnames:
        if f == fn or f.startswith('llvm') or f == 'main': continue
        if re.search(r'^define internal [^\n]*@%s\(' % f, ll, re.M): continue
        o.append('declare extern_weak void @%s()' % f); ents.append('%%g { ptr %s, ptr @%s, i64 0 }' % (cstr(f), f))
    ents.append('%g { ptr null, ptr null, i64 0 }')
    o.append('%g = type { ptr, ptr, i64 }'); o.append('@vf_tab = global [%d x %%g] [%s]' % (len(ents), ', '.join(ents)))
    b.append('call void @vf_init()')
    def dump_loc(tag):
        if not loc or loc[0] not in gl: return
        p = tmp(); b.append('%s = getelementptr i8, ptr @%s, i64 %d' % (p, loc[0], loc[1])); b.append('call void @vf_dump(ptr %s, ptr %s, i32 %d, i32 %d)' % (cstr(tag), p, loc[2], ord(loc[3])))
    dump_loc('initial')
    if fn:
        for k, v in sorted(model.items()):
            m = re.match(r'^(s_\w+)\.(\d+)$', k)
            if m and m.group(1) in gl:
                nb = max(1, len(v) // 2) if isinstance(v, str) else 8
                w = widths.get((m.group(1), int(m.group(2))), None) if False else None
                x = int(v, 16) if isinstance(v, str) else v
                p = tmp(); b.append('%s = getelementptr i8, ptr @%s, i64 %s' % (p, m.group(1), m.group(2)))
                wbits = symw(ll, model, k); b.append('store i%d %d, ptr %s, align 1' % (wbits, x & ((1 << wbits) - 1), p))
    for g, names in symrefs:
        cnd = tmp(); n[0] += 1; l = n[0]; b.append('%s = icmp ne ptr @%s, null' % (cnd, g)); b.append('br i1 %s, label %%L%d, label %%M%d' % (cnd, l, l)); b.append('L%d:' % l)
        for i, nm in enumerate(names):
            p = tmp(); b.append('%s = getelementptr i8, ptr @%s, i64 %d' % (p, g, i)); b.append('store i8 %d, ptr %s' % (val(model, nm) & 255, p))
        b.append('br label %%M%d' % l); b.append('M%d:' % l)
    if fn:
        ret = d.group(1); ret = re.sub(r'\b(dso_local|noundef|zeroext|signext|internal|hidden)\b', '', ret).strip()
        sig, args = [], []; sret = None
        for i, a in enumerate(split_args(d.group(2))):
            if a == '...': sig.append('...'); continue
            a = re.sub(r'\s*%[\w.]+$', '', a).replace('noundef', '').replace('  ', ' ').strip()
            if 'sret(' in a:
                ty = re.search(r'sret\((.*?)\)', a).group(1); p = tmp(); b.append('%s = alloca %s, align 16' % (p, ty)); sret = p; sig.append(a); args.append('%s %s' % (re.sub(r'\b(noalias|writable|dead_on_unwind)\b', '', a), p)); continue
            if 'byval(' in a:
                ty = re.search(r'byval\((.*?)\)', a).group(1); p = tmp(); b.append('%s = alloca %s, align 16' % (p, ty))
                for k, v in sorted(model.items()):
                    m = re.match(r'^a%d\.(\d+)$' % i, k)
                    if m:
                        w = symw(ll, model, k); q = tmp(); b.append('%s = getelementptr i8, ptr %s, i64 %s' % (q, p, m.group(1))); b.append('store i%d %d, ptr %s, align 1' % (w, val(model, k), q))
                sig.append(a); args.append('%s %s' % (a, p)); continue
            ty = a.split(' signext')[0].split(' zeroext')[0].strip(); ty = ty.split(' align')[0]; v = val(model, 'a%d' % i)
            if ty == 'i32': v |= 0xdeadbeef00000000; ty = a = 'i64'
            sig.append(a); args.append('%s %s' % (a, const(ty, v)))
        o.append('declare %s @vf_tramp(%s)' % (ret, ', '.join(re.sub(r'\b(noalias|writable|dead_on_unwind)\b', '', s) for s in sig)))
        rb = re.sub(r'\b(zeroext|signext)\b', '', d.group(1)); rb = re.sub(r'\b(dso_local|noundef|internal|hidden)\b', '', rb).strip()
        if ret == 'void' or not ret: b.append('call void @vf_tramp(%s)' % ', '.join(args))
        else:
            r = tmp(); b.append('%s = call %s @vf_tramp(%s)' % (r, ret, ', '.join(args))); p = tmp(); b.append('%s = alloca %s, align 16' % (p, rb)); b.append('store %s %s, ptr %s' % (rb, r, p))
            parts = [rb] if not rb.startswith('{') else split_args(rb[1:-1])
            for i, ty in enumerate(parts):
                q = tmp(); b.append('%s = getelementptr %s, ptr %s, i32 0%s' % (q, rb, p, ', i32 %d' % i if len(parts) > 1 else ''))
                for t2, off in ([('float', 0), ('float', 4)] if ty == '<2 x float>' else [(ty, 0)]):
                    q2 = tmp(); b.append('%s = getelementptr i8, ptr %s, i64 %d' % (q2, q, off)); w = {'float': 32, 'double': 64, 'x86_fp80': 80, 'ptr': 64}.get(t2) or int(t2[1:])
                    k = 'f' if t2 in ('float', 'double', 'x86_fp80') else 'p' if t2 == 'ptr' else 'i'
                    b.append('call void @vf_dump(ptr %s, ptr %s, i32 %d, i32 %d)' % (cstr('ret%d' % (i * 2 + off // 4)), q2, w, ord(k)))
        if sret and loc and loc[0] == '<sret>':
            q = tmp(); b.append('%s = getelementptr i8, ptr %s, i64 %d' % (q, sret, loc[1])); b.append('call void @vf_dump(ptr %s, ptr %s, i32 %d, i32 %d)' % (cstr('sret'), q, loc[2], ord(loc[3])))
        dump_loc('final')
    b.append('call void @vf_final()')
    return '\n'.join(o) + '\ndefine i32 @main() {\n' + '\n'.join(b) + '\nret i32 0\n}\n'

def symw(ll, model, k):
    """Width in bits of a model value: the model carries it as the number of hex digits."""
    v = model[k]; return max(8, len(v) * 4) if isinstance(v, str) else 64

LOCRE = re.compile(r'(?:final value of|initial contents of) (\w+)\+(\d+) differs? \((\d+)(\w)\)')
def parse_loc(msg):
    m = LOCRE.search(msg)
    if m: return (m.group(1), int(m.group(2)), int(m.group(3)), m.group(4))
    m = re.search(r'returned structure differs at offset (\d+) \((\d+)(\w)\)', msg)
    if m: return ('<sret>', int(m.group(1)), int(m.group(2)), m.group(3))
    return None

def sh(cmd, cwd=None, timeout=60, env=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, stdin=subprocess.DEVNULL, env=env); return p.returncode, p.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired: return 'timeout', ''

def concrete_source(unit, model):
    """The unit's files with the symbolic bytes replaced by the model's values."""
    out = {n: bytearray(t.encode('latin-1') if isinstance(t, str) else t) for n, t in unit.files.items()}
    for f, off, name, rng in unit.syms: out[f][off] = val(model, name) & 255
    return {n: bytes(t) for n, t in out.items()}

def run_wcc(tree, unit, model, d, asan=False, timeout=30, fill='165', argv=None):
    os.makedirs(d, exist_ok=True)
    for n, t in concrete_source(unit, model).items():
        p = os.path.join(d, n); os.makedirs(os.path.dirname(p), exist_ok=True); open(p, 'wb').write(t)
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=86', MALLOC_PERTURB_=fill)
    return sh(['prlimit', '--cpu=%d' % timeout, '--core=0', tree.sanitized() if asan else tree.wcc] + (argv or unit.argv), cwd=d, timeout=timeout * 2, env=env)

def replay_tv(tree, unit, v, d):
    """Returns (reproduced, text)."""
    model = v.get('model', {}); kind = v['kind']; fn = v['fn'] if v['fn'] != '<data>' else None
    os.makedirs(d, exist_ok=True)
    if kind == 'differs':
        o = {}
        for fill in ('0', '90', '165'):
            rc, out = run_wcc(tree, unit, model, d, fill=fill)
            if rc: return True, 'wcc exit status %s: %s' % (rc, out[-400:])
            txt = lambda: out.encode() if unit.out == '<stdout>' else open(os.path.join(d, unit.out), 'rb').read()
            o[fill] = txt()
            if unit.out == '<stdout>':
                if o[fill][:len(o[fill]) // 2] != o[fill][len(o[fill]) // 2:]: return True, 'preprocessing the same file twice gives different texts:\n' + out[-1000:]
                continue
            rc, out = run_wcc(tree, unit, model, d, fill=fill, argv=unit.alone)
            if rc: return True, 'wcc exit status %s: %s' % (rc, out[-400:])
            o[fill + ' alone'] = txt()
        if len(set(o.values())) > 1:
            k = list(o); b = next(x for x in k if o[x] != o[k[0]]); df = [(x, y) for x, y in zip(o[k[0]].decode('latin-1').splitlines() + [''], o[b].decode('latin-1').splitlines() + ['']) if x != y]
            return True, 'the outputs for the same file differ:\n%s: %s\n%s: %s' % (k[0], df[0][0] if df else '', b, df[0][1] if df else '')
        return False, 'not reproduced'
    if kind == 'compiler' or not unit.refsrc:
        rc, out = run_wcc(tree, unit, model, d)
        if rc == 'timeout' or rc == -24 or rc == 152: return True, 'wcc does not terminate'
        if rc != 0 and not (isinstance(rc, int) and rc >= 0 and (unit.exit_ok >> rc & 1)): return True, 'wcc exit status %s: %s' % (rc, out[-400:])
        rc, out = run_wcc(tree, unit, model, d, asan=True)
        if rc == 86 or 'AddressSanitizer' in out: return True, 'memory error: ' + '\n'.join(out.splitlines()[:12])
        rc, out = sh(['valgrind', '-q', '--error-exitcode=87', tree.wcc] + unit.argv, cwd=d, timeout=120)
        if rc == 87: return True, 'valgrind: ' + '\n'.join(out.splitlines()[:12])
        return False, 'not reproduced'
    rc, out = run_wcc(tree, unit, model, d)
    if rc != 0: return True, 'wcc exit status %s: %s' % (rc, out[-400:])
    s = os.path.join(d, unit.out)
    if not os.path.exists(s): return True, 'no output file'
    rc, out = sh(['gcc', '-c', s, '-o', d + '/w.o'])
    if rc: return True, 'the assembler rejects the output: ' + out[-400:]
    ll = subprocess.run([CLANG, '-S', '-emit-llvm', '-o', '-', unit.bc], stdout=subprocess.PIPE).stdout.decode()
    rc, out = sh([CLANG, '-w', '-c', unit.bc, '-fPIC' if '-fPIC' in unit.argv else '-fno-pic', '-o', d + '/r.o'])
    if rc: return False, 'reference: ' + out
    extra = []
    for i, a in enumerate(unit.asms):
        rc, out = sh([CLANG, '-c', os.path.splitext(a)[0] + '.s', '-o', d + '/x%d.o' % i]); extra.append(d + '/x%d.o' % i)
        if rc: return False, 'assembling the other half: ' + out[-400:]
    loc = parse_loc(v['msg'])
    if loc and re.match(r'^\w+$', loc[0]):
        for x in ('w.o', 'r.o'): sh(['objcopy', '--globalize-symbol=' + loc[0], d + '/' + x])
    _, nm = sh(['nm', '-S', d + '/r.o']); globs = [(m.group(2), int(m.group(1), 16)) for m in re.finditer(r'^\w+ (\w+) [BDRCVbdr] (\w+)$', nm, re.M)]
    open(d + '/d.ll', 'w').write(driver(ll, fn, model, globs, unit.symrefs, loc)); open(d + '/h.c', 'w').write(HELP)
    open(d + '/t.s', 'w').write(TRAMP.replace('TARGET', fn or 'vf_ret'))
    rc, out = sh([CLANG, '-w', '-O0', '-c', d + '/d.ll', '-o', d + '/d.o'])
    if rc: return False, 'driver: ' + out[-600:]
    sh(['gcc', '-c', d + '/t.s', '-o', d + '/t.o']); sh(['gcc', '-w', '-O1', '-c', d + '/h.c', '-o', d + '/h.o'])
    for e, obj in (('w', 'w.o'), ('r', 'r.o')):
        rc, out = sh(['gcc', '-no-pie', '-o', d + '/' + e, d + '/d.o', d + '/t.o', d + '/h.o', d + '/' + obj] + (extra if e == 'w' else []) + ['-lm'])
        if rc:
            if e == 'w': return True, 'linking the output of wcc: ' + out[-400:]
            return False, 'link: ' + out[-400:]
    for fill in (0, 90, 165):
        env = dict(os.environ, VF_FILL=str(fill))
        ra, oa = sh(['prlimit', '--cpu=10', '--core=0', d + '/w'], timeout=20, env=env); rb, ob = sh(['prlimit', '--cpu=10', '--core=0', d + '/r'], timeout=20, env=env)
        if rb != 0: return False, 'the reference fails natively: %s %s' % (rb, ob[-200:])
        if (ra, oa) != (rb, ob): return True, 'wcc: status %s\n%s\nreference:\n%s' % (ra, oa, ob)
    return False, 'not reproduced'
