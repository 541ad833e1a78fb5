/* Harness interface of the symbolic executor; sx_native.c implements it for native replay. */
#ifndef SX_H
#define SX_H
unsigned long sx_sym(const char *name, int idx, int bits);     /* an arbitrary value of the given width, zero extended */
void sx_bytes(void *p, unsigned long n, const char *name);     /* makes n bytes arbitrary */
void sx_assume(int c);
void sx_assert(int c, const char *msg);                        /* decided for every value on this path */
void sx_cover(const char *what);                               /* reachability witness */
int sx_choose(int n);                                          /* forks over 0..n-1 */
long sx_concretize(long v);                                    /* forks over every feasible value */
void sx_exit_ok(int code);                                     /* exit(code) is an acceptable outcome from here on */
void sx_assert_eqf(const void *a, const void *b, int bytes, const char *msg);
void sx_done(void);                                            /* ends the path */
int sx_either(int a, int b);                                   /* a || b without a branch */
int sx_both(int a, int b);
#define sx_int(n) ((int) sx_sym(n, -1, 32))
#define sx_long(n) ((long) sx_sym(n, -1, 64))
#define sx_u8(n) ((unsigned char) sx_sym(n, -1, 8))
#define sx_char(n) ((char) sx_sym(n, -1, 8))
#endif
