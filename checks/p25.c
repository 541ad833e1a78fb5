/* Harness of P25: wcc's driver (main.c) with the phases and the tools it runs replaced by stand-ins that record their arguments. */
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <string.h>
#include "sx.h"
static int st_system(const char *cmd); static void st_exit(int code); static char *st_getenv(const char *k); static int st_printf(const char *f, ...);
#define main wcc_driver_main
#define preprocess st_preprocess
#define preprocess_to_file st_preprocess_to_file
#define compile st_compile
#define system st_system
#define make_temp_filename st_temp
#define exit st_exit
#define simple_error st_error
#define getenv st_getenv
#define printf st_printf
#define init_instruction_selection_rules st_rules_i
#define free_instruction_selection_rules st_rules_f
#define process_memory_allocation_stats st_stats
#define init_memory_management_for_translation_unit st_mem_i
#define free_memory_for_translation_unit st_mem_f
#define free_cpp_allocated_garbage st_cpp
#define print_rules st_print_rules
#include "main.c"
#undef main
#undef exit
#undef printf
#undef getenv
#undef system
#undef simple_error
/* ---- what the command line asks for, from its own reading */
#define MF 8
static char *files[MF], *dirs[MF], *incs[MF], *libp[MF], *libs[MF], *wl[MF], *out; static int nf, nd, ni, nlp, nl, nw, stop, shared_, verbose_, bad, missing; /* stop: 0 link, 1 -c, 2 -S, 3 -E */
static char *argv_[24]; static int argc_, pic, dbg, werr, nocoal, noarith, noren, spillf, noshort, tri;
static void arg(char *s) { argv_[argc_++] = s; }
static char *chr(const char *pre, int i) { char *r = malloc(32); int n = strlen(pre); char c = sx_sym("chr", i, 8); sx_assume(c > 0); memcpy(r, pre, n); r[n] = c; r[n + 1] = 0; return r; }
static char *dup_(const char *s) { char *r = malloc(strlen(s) + 1); strcpy(r, s); return r; }
static void file(char *f) { arg(f); files[nf++] = f; }
static void lower(int s) { if (stop < s) stop = s; }
/* Alphabet of command line elements */
#define NTOK 36
static void token(int k, int i) {
    if (bad) { return; }
    switch (k) {
        case 0: file("a.c"); break; case 1: file("d.x/b.c"); break; case 2: file("s.s"); break; case 3: file("o.o"); break; case 4: file("lib.so"); break; case 5: file("noext"); break;
        case 6: arg("-c"); lower(1); break; case 7: arg("-S"); lower(2); break; case 8: arg("-E"); lower(3); break;
        case 9: arg("-o"); arg("out"); out = "out"; break;
        case 10: { char *s = chr("-DX=", i); arg(s); dirs[nd++] = s + 2; break; } case 11: { char *s = chr("Y", i); arg("-D"); arg(s); dirs[nd++] = s; break; }
        case 12: arg(dup_("-Iinc/")); incs[ni++] = "inc"; break; case 13: arg("-I"); arg(dup_("/")); incs[ni++] = "/"; break; case 14: arg("-I"); arg(dup_("i2")); incs[ni++] = "i2"; break;
        case 15: arg(dup_("-Lp")); libp[nlp++] = "p"; break; case 16: arg("-L"); arg(dup_("p2/")); libp[nlp++] = "p2"; break;
        case 17: arg(dup_("-lm")); libs[nl++] = "m"; break; case 18: arg("-l"); arg("q"); libs[nl++] = "q"; break;
        case 19: arg("-Wl,z"); wl[nw++] = "-Wl,z"; break; case 20: arg("-shared"); shared_ = 1; break; case 21: arg("-v"); verbose_ = 1; break; case 22: arg("-O2"); break;
        case 23: arg("-fPIC"); pic = 1; break; case 24: arg("-g"); dbg = 1; break; case 25: arg("-Werror"); werr = 1; break; case 26: arg("-fno-live-range-coalescing"); nocoal = 1; break; case 27: arg("-fno-optimize-arithmetic"); noarith = 1; break;
        case 28: arg("-fno-vreg-renumbering"); noren = 1; break; case 29: arg("-fspill-furthest-liveness-end"); spillf = 1; break; case 30: arg("-fno-dont-spill-short-live-ranges"); noshort = 1; break; case 31: arg("--trigraphs"); tri = 1; break;
        case 32: arg("-q"); bad = 1; break; case 33: arg("--unknown"); bad = 1; break;
        case 34: { char *s = chr("-f", i); arg(s); bad = 1; break; }   /* -f and any character */
        case 35: arg("-"); bad = 1; break;
    }
}
static int ends(const char *s, const char *e) { int a = strlen(s), b = strlen(e); return a > b && !strcmp(s + a - b, e); }
static int kind(const char *f) { return ends(f, ".s") ? 1 : ends(f, ".o") || ends(f, ".so") ? 2 : 0; }
static char *ext(const char *f, char e) { char *r = malloc(strlen(f) + 3); int i, d = -1; strcpy(r, f); for (i = 0; r[i]; i++) { if (r[i] == '.') d = i; } if (d < 0) d = i; r[d] = '.'; r[d + 1] = e; r[d + 2] = 0; return r; }
/* ---- the phases that must run, in order */
enum { E_PP, E_PREP, E_COMP, E_SYS };
static struct ev { int k; char *a, *b; } exp_[32]; static int ne, pos, ntemp, failed, quit_ok, finished, as_env, announced;
static char *tmpn(int i) { static char t[16][16]; sprintf(t[i], "/tmp/T%d", i); return t[i]; }
static int temp_expect; static char *asm_in[MF], *link_in[MF];
static void ev(int k, char *a, char *b) { exp_[ne].k = k; exp_[ne].a = a; exp_[ne++].b = b; }
static void plan(void) {
    int i, t = 0;
    if (stop == 3) { for (i = 0; i < nf; i++) if (ends(files[i], ".c")) ev(E_PP, files[i], out); return; }
    for (i = 0; i < nf; i++) { asm_in[i] = link_in[i] = 0; if (kind(files[i]) == 1) asm_in[i] = files[i]; if (kind(files[i]) == 0) { char *o = stop == 2 ? (out ? out : ext(files[i], 's')) : tmpn(t++); ev(E_PREP, files[i], 0); ev(E_COMP, files[i], o); asm_in[i] = o; } }
    if (stop == 2) return;
    for (i = 0; i < nf; i++) if (asm_in[i]) { char *o = stop == 1 ? (out ? out : ext(files[i], 'o')) : tmpn(t++); ev(E_SYS, asm_in[i], o); link_in[i] = o; } else link_in[i] = files[i];
    if (!stop) ev(E_SYS, 0, out ? out : "a.out");
}
static struct ev *nextev(int k) { sx_assert(!finished, "nothing runs after a failure"); sx_assert(pos < ne && exp_[pos].k == k, "the phases run in order, no more and no fewer"); return &exp_[pos++]; }
static void same_dirs(List *l) { int i; sx_assert(l->length == nd, "macro definitions are passed on"); for (i = 0; i < nd; i++) sx_assert(!strcmp(l->elements[i], dirs[i]), "macro definitions are passed on in order"); }
static void same_options(void) {
    CliIncludePath *p = cli_include_paths; int i;
    for (i = 0; i < ni; i++) { sx_assert(p != 0 && !strcmp(p->path, incs[i]), "include paths are kept in order"); p = p->next; } sx_assert(!p, "include paths");
    sx_assert(!!opt_PIC == pic, "-fPIC"); sx_assert(!!opt_debug_symbols == dbg, "-g"); sx_assert(!!opt_warnings_are_errors == werr, "-Werror"); sx_assert(!opt_enable_live_range_coalescing == nocoal, "coalescing"); sx_assert(!opt_optimize_arithmetic_operations == noarith, "arithmetic");
    sx_assert(!opt_enable_vreg_renumbering == noren, "renumbering"); sx_assert(!!opt_spill_furthest_liveness_end == spillf, "spilling"); sx_assert(!opt_short_lr_infinite_spill_costs == noshort, "short live ranges"); sx_assert(!!opt_enable_trigraphs == tri, "trigraphs");
}
static char text_[] = "text";
char *st_preprocess(char *f, List *d) { struct ev *e = nextev(E_PREP); sx_assert(!strcmp(f, e->a), "the named file is preprocessed"); same_dirs(d); same_options(); { char *r = wmalloc(8); strcpy(r, text_); return r; } }
void st_preprocess_to_file(char *f, char *o, List *d) { struct ev *e = nextev(E_PP); sx_assert(!strcmp(f, e->a), "the named file is preprocessed"); sx_assert(!o == !e->b && (!o || !strcmp(o, e->b)), "preprocessed text goes where it was asked"); same_dirs(d); same_options(); }
void st_compile(char *t, char *f, char *o) { struct ev *e = nextev(E_COMP); sx_assert(!strcmp(t, text_), "the preprocessed text is compiled"); sx_assert(!strcmp(f, e->a), "the file is named"); sx_assert(!strcmp(o, e->b), "assembly goes where it was asked"); same_options(); }
static int tok(char *s, char **v) { int n = 0; while (*s) { while (*s == ' ') *s++ = 0; if (!*s) break; v[n++] = s; while (*s && *s != ' ') s++; } return n; }
static int st_system(const char *cmd) {
    struct ev *e = nextev(E_SYS); static char buf[1024]; char *v[64], *o = 0, *in[32], *l[16], *lp[16], *w[16]; int n, i, nin = 0, sh = 0, nl_ = 0, nlp_ = 0, nw_ = 0, vb = 0, r;
    sx_assert(strlen(cmd) < sizeof buf, "command"); strcpy(buf, cmd); n = tok(buf, v);
    sx_assert(n > 0 && !strcmp(v[0], e->a ? (as_env ? "myas" : "as") : "gcc"), "the right tool runs");
    for (i = 1; i < n; i++) {
        if (!strcmp(v[i], "-o") && i + 1 < n) { sx_assert(!o, "one output"); o = v[++i]; }
        else if (!strcmp(v[i], "-L") && i + 1 < n) lp[nlp_++] = v[++i]; else if (!strncmp(v[i], "-L", 2)) lp[nlp_++] = v[i] + 2;
        else if (!strcmp(v[i], "-l") && i + 1 < n) l[nl_++] = v[++i]; else if (!strncmp(v[i], "-l", 2)) l[nl_++] = v[i] + 2;
        else if (!strncmp(v[i], "-Wl,", 4)) w[nw_++] = v[i]; else if (!strcmp(v[i], "-shared")) sh = 1; else if (!strcmp(v[i], "-v")) vb = 1; else if (e->a && (!strcmp(v[i], "-64") || !strcmp(v[i], "--64"))) ;
        else { sx_assert(v[i][0] != '-', "no other options"); sx_assert(nl_ == 0, "libraries follow the files that need them"); in[nin++] = v[i]; }
    }
    sx_assert(o && !strcmp(o, e->b), "the tool writes the requested output"); sx_assert(vb == verbose_, "-v is passed on");
    if (e->a) { sx_assert(nin == 1 && !strcmp(in[0], e->a), "the compiled file is assembled"); sx_assert(!nl_ && !nlp_ && !nw_ && !sh, "linker options"); }
    else {
        sx_assert(nin == nf, "every file is linked"); for (i = 0; i < nf; i++) sx_assert(!strcmp(in[i], link_in[i]), "files are linked in order");
        sx_assert(nl_ == nl && nlp_ == nlp && nw_ == nw && sh == shared_, "linker options are passed on");
        for (i = 0; i < nl; i++) sx_assert(!strcmp(l[i], libs[i]), "libraries in order"); for (i = 0; i < nlp; i++) sx_assert(!strcmp(lp[i], libp[i]), "library paths in order"); for (i = 0; i < nw; i++) sx_assert(!strcmp(w[i], wl[i]), "linker arguments in order");
    }
    r = sx_sym("status", pos, 32); sx_assume(sx_either(r == -1, sx_both(r >= 0, r < 65536))); if (r) { failed = 1; finished = 1; } return r;
}
char *st_temp(char *t) { char *r = wmalloc(16); strcpy(r, tmpn(ntemp++)); sx_assert(!strncmp(t, "/tmp/", 5), "temporary files"); return r; }
static void end(int code) {
    int err = bad || (!nf) || (out && nf > 1 && stop);
    if (missing) err = 1;
    if (err) { sx_assert((code & 255) != 0, "a wrong command line is refused"); sx_assert(pos == 0, "and nothing runs"); sx_assert(announced, "with a message"); sx_cover("refused"); sx_done(); }
    if (failed) { sx_assert((code & 255) != 0, "a failing step makes the driver fail"); sx_cover("failed"); sx_done(); }
    sx_assert(code == 0, "success is reported"); sx_assert(pos == ne, "every requested phase ran"); sx_cover("ok"); sx_done();
}
static void st_exit(int code) { end(code); }
void st_error(char *f, ...) { announced = 1; end(1); }
static char *st_getenv(const char *k) { return as_env && !strcmp(k, "AS") ? "myas" : 0; }
static int st_printf(const char *f, ...) { announced = 1; return 1; }
void st_rules_i(void) {} void st_rules_f(void) {} void st_stats(void) {} char st_mem_i(void) { return 0; } char st_mem_f(void) { return 0; } void st_cpp(void) {} void st_print_rules(void) {}
static void go(void) { if (missing) { static char *m[6] = { "-o", "-L", "-l", "-I", "-D", "--rule-coverage-file" }; arg(dup_(m[missing - 1])); } argv_[argc_] = 0; if (!bad) plan(); { int r = wcc_driver_main(argc_, argv_); end(r); } }
#ifndef NT
#define NT 2
#endif
/* one file and NT arbitrary elements before it; a second file and one element after it */
void h_cmd(void) { int i; arg("wcc"); for (i = 0; i < NT; i++) token(sx_choose(NTOK), i); token(sx_choose(6), 8); go(); }
void h_tail(void) { arg("wcc"); token(sx_choose(6), 8); token(6 + sx_choose(4), 0); token(sx_choose(NTOK), 1); token(sx_choose(6), 9); go(); }
/* several files: every kind of file, every place to stop */
void h_files(void) { int i, n = 2 + sx_choose(2), st = sx_choose(4); arg("wcc"); if (st) token(5 + st, 0); for (i = 0; i < n; i++) token(sx_choose(6), i); if (n == 2 && sx_choose(2)) token(9, 0); as_env = sx_choose(2); go(); }
/* options of one kind repeated, and a failing step anywhere */
void h_repeat(void) { static const int g[5][3] = { { 10, 11, 10 }, { 12, 13, 14 }, { 15, 16, 15 }, { 17, 18, 17 }, { 19, 19, 9 } }; int i, k = sx_choose(5); arg("wcc"); for (i = 0; i < 3; i++) token(g[k][sx_choose(3)], i); token(sx_choose(4), 8); token(sx_choose(3), 8); if (sx_choose(2)) token(g[(k + 1) % 5][1], 5); go(); }
void h_missing(void) { arg("wcc"); if (sx_choose(2)) token(sx_choose(6), 8); missing = 1 + sx_choose(6); go(); }
void h_nothing(void) { arg("wcc"); if (sx_choose(2)) token(6 + sx_choose(NTOK - 6), 8); go(); }
/* file names: any bytes */
void h_names(void) {
    char *f = malloc(6); int i; sx_bytes(f, 4, "name"); f[4] = 0; for (i = 0; i < 4; i++) sx_assume(sx_both(f[i] != 0, f[i] != ' ')); sx_assume(f[0] != '-');
    arg("wcc"); i = sx_choose(3); if (i) token(5 + i, 0); file(f); go();
}
