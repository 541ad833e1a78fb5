/* Bitcode versions of the C library functions used by the code under test, for operands with symbolic bytes. */
typedef unsigned long size_t;
void *malloc(size_t);
size_t sxl_strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
int sxl_strcmp(const char *a, const char *b) { while (*a && *a == *b) { a++; b++; } return (unsigned char) *a - (unsigned char) *b; }
int sxl_strncmp(const char *a, const char *b, size_t n) { while (n && *a && *a == *b) { a++; b++; n--; } return n ? (unsigned char) *a - (unsigned char) *b : 0; }
char *sxl_strchr(const char *s, int c) { for (;; s++) { if (*s == (char) c) return (char *) s; if (!*s) return 0; } }
char *sxl_strrchr(const char *s, int c) { char *r = 0; for (;; s++) { if (*s == (char) c) r = (char *) s; if (!*s) return r; } }
int sxl_memcmp(const void *a, const void *b, size_t n) { const unsigned char *p = a, *q = b; for (; n; n--, p++, q++) if (*p != *q) return *p - *q; return 0; }
char *sxl_strdup(const char *s) { size_t n = sxl_strlen(s) + 1; char *r = malloc(n); size_t i; for (i = 0; i < n; i++) r[i] = s[i]; return r; }
void sxl_qsort(void *base, size_t n, size_t size, int (*cmp)(const void *, const void *)) {
    char *b = base; size_t i, j, k;
    for (i = 1; i < n; i++)
        for (j = i; j > 0 && cmp(b + (j - 1) * size, b + j * size) > 0; j--)
            for (k = 0; k < size; k++) { char t = b[(j - 1) * size + k]; b[(j - 1) * size + k] = b[j * size + k]; b[j * size + k] = t; }
}
char *sxl_strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) ; return r; }
char *sxl_stpcpy(char *d, const char *s) { while ((*d = *s++)) d++; return d; }
char *sxl_strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *sxl_strcat(char *d, const char *s) { sxl_strcpy(d + sxl_strlen(d), s); return d; }
char *sxl_strncat(char *d, const char *s, size_t n) { char *p = d + sxl_strlen(d); while (n-- && *s) *p++ = *s++; *p = 0; return d; }
size_t sxl_strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
char *sxl_strndup(const char *s, size_t m) { size_t n = sxl_strnlen(s, m), i; char *r = malloc(n + 1); for (i = 0; i < n; i++) r[i] = s[i]; r[n] = 0; return r; }
char *sxl_strstr(const char *h, const char *n) { size_t l = sxl_strlen(n); for (;; h++) { if (!sxl_strncmp(h, n, l)) return (char *) h; if (!*h) return 0; } }
size_t sxl_strspn(const char *s, const char *a) { size_t n = 0; while (s[n] && sxl_strchr(a, s[n])) n++; return n; }
size_t sxl_strcspn(const char *s, const char *a) { size_t n = 0; while (s[n] && !sxl_strchr(a, s[n])) n++; return n; }
char *sxl_strpbrk(const char *s, const char *a) { s += sxl_strcspn(s, a); return *s ? (char *) s : 0; }
void *sxl_memchr(const void *s, int c, size_t n) { const unsigned char *p = s; for (; n; n--, p++) if (*p == (unsigned char) c) return (void *) p; return 0; }
static int low(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int sxl_tolower(int c) { return low(c); }
int sxl_toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int sxl_strcasecmp(const char *a, const char *b) { while (*a && low(*a) == low(*b)) { a++; b++; } return low((unsigned char) *a) - low((unsigned char) *b); }
int sxl_strncasecmp(const char *a, const char *b, size_t n) { while (n && *a && low(*a) == low(*b)) { a++; b++; n--; } return n ? low((unsigned char) *a) - low((unsigned char) *b) : 0; }
int sxl_isdigit(int c) { return c >= '0' && c <= '9'; }
int sxl_isupper(int c) { return c >= 'A' && c <= 'Z'; }
int sxl_islower(int c) { return c >= 'a' && c <= 'z'; }
int sxl_isalpha(int c) { return (c | 32) >= 'a' && (c | 32) <= 'z'; }
int sxl_isalnum(int c) { return sxl_isalpha(c) || sxl_isdigit(c); }
int sxl_isxdigit(int c) { return sxl_isdigit(c) || ((c | 32) >= 'a' && (c | 32) <= 'f'); }
int sxl_isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int sxl_isprint(int c) { return c >= 32 && c < 127; }
long sxl_labs(long x) { return x < 0 ? -x : x; }
static unsigned long num(const char *s, char **e, int base, int *neg) {
    unsigned long r = 0; const char *p = s; int any = 0; *neg = 0; while (sxl_isspace(*p)) p++; if (*p == '-' || *p == '+') *neg = *p++ == '-';
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] | 32) == 'x' && sxl_isxdigit(p[2])) { base = 16; p += 2; } else if (base == 0) base = *p == '0' ? 8 : 10;
    for (;; p++) { int d = sxl_isdigit(*p) ? *p - '0' : sxl_isalpha(*p) ? (*p | 32) - 'a' + 10 : 99; if (d >= base) break; r = r * base + d; any = 1; }
    if (e) *e = (char *) (any ? p : s); return r;
}
unsigned long sxl_strtoul(const char *s, char **e, int base) { int n; unsigned long r = num(s, e, base, &n); return n ? -r : r; }
unsigned long sxl_strtoull(const char *s, char **e, int base) { return sxl_strtoul(s, e, base); }
long sxl_strtoll(const char *s, char **e, int base) { return (long) sxl_strtoul(s, e, base); }
long sxl_atol(const char *s) { return (long) sxl_strtoul(s, 0, 10); }
int sxl_atoi(const char *s) { return (int) sxl_atol(s); }
void *sxl_bsearch(const void *k, const void *b, size_t n, size_t size, int (*cmp)(const void *, const void *)) { size_t lo = 0, hi = n; while (lo < hi) { size_t m = lo + (hi - lo) / 2; const char *p = (const char *) b + m * size; int c = cmp(k, p); if (!c) return (void *) p; if (c < 0) hi = m; else lo = m + 1; } return 0; }
