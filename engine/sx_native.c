#define _GNU_SOURCE
/* Native replay of harnesses: values come from the file named by SX_MODEL (lines "name hexvalue"), choices from its "choice n" lines. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "sx.h"
static struct { char n[128]; unsigned long v; } tab[65536]; static int cnt, loaded; static int ch[4096], nch, cch;
static void load(void) { FILE *f; char l[512], n[256]; unsigned long v; loaded = 1; f = fopen(getenv("SX_MODEL") ? getenv("SX_MODEL") : "/dev/null", "r"); if (!f) return;
    while (fgets(l, sizeof l, f)) { if (!strncmp(l, "choice ", 7)) { if (nch < 4096) ch[nch++] = atoi(l + 7); continue; } if (sscanf(l, "%255s %lx", n, &v) == 2 && cnt < 65536) { strncpy(tab[cnt].n, n, 127); tab[cnt++].v = v; } } fclose(f); }
static unsigned long look(const char *n) { int i; if (!loaded) load(); for (i = 0; i < cnt; i++) if (!strcmp(tab[i].n, n)) return tab[i].v; return 0; }
unsigned long sx_sym(const char *name, int idx, int bits) { char b[256]; unsigned long v; if (idx >= 0) sprintf(b, "%s%d", name, idx); else strcpy(b, name); v = look(b); return bits >= 64 ? v : v & ((1ul << bits) - 1); }
void sx_bytes(void *p, unsigned long n, const char *name) { unsigned long i; char b[256]; for (i = 0; i < n; i++) { sprintf(b, "%s.%lu", name, i); ((char *) p)[i] = (char) look(b); } }
void sx_assume(int c) { if (!c) { printf("REPLAY: assumption does not hold\n"); exit(77); } }
void sx_assert(int c, const char *msg) { if (!c) { printf("REPLAY: violated: %s\n", msg); fflush(stdout); exit(42); } }
void sx_cover(const char *w) { }
int sx_choose(int n) { int r; if (!loaded) load(); r = cch < nch ? ch[cch++] : 0; return r < n ? r : 0; }
long sx_concretize(long v) { return v; }
void sx_exit_ok(int code) { }
void sx_done(void) { exit(0); }
int sx_either(int a, int b) { return a || b; }
int sx_both(int a, int b) { return a && b; }
void sx_assert_eqf(const void *a, const void *b, int n, const char *msg) {
    int na, nb; if (n == 4) { float x, y; memcpy(&x, a, 4); memcpy(&y, b, 4); na = x != x; nb = y != y; } else if (n == 8) { double x, y; memcpy(&x, a, 8); memcpy(&y, b, 8); na = x != x; nb = y != y; } else { long double x, y; memcpy(&x, a, 10); memcpy(&y, b, 10); na = x != x; nb = y != y; }
    sx_assert((na && nb) || !memcmp(a, b, n), msg); }
#include <dlfcn.h>
int main(int argc, char **argv) { void (*f)(void) = (void (*)(void)) dlsym(0, argv[1]); if (!f) { printf("no entry %s\n", argv[1]); return 99; } f(); printf("REPLAY: completed\n"); return 0; }
