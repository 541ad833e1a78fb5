/* Harness of P20: sequences of operations on wcc's containers against array models, through the public interface only. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "wcc.h"
#include "sx.h"
#ifndef NOPS
#define NOPS 4
#endif
#define MAXM 64
/* ---------------------------------------------------------------- maps of longs */
static long mk[MAXM]; static void *mv[MAXM]; static int mn;
static void *m_get(long k) { void *r = 0; int i; for (i = 0; i < mn; i++) if (mk[i] == k) r = mv[i]; return r; }
static void m_put(long k, void *v) { int i; for (i = 0; i < mn; i++) if (mk[i] == k) { mv[i] = v; return; } mk[mn] = k; mv[mn++] = v; }
static void m_del(long k) { int i; for (i = 0; i < mn; i++) if (mk[i] == k) { mn--; mk[i] = mk[mn]; mv[i] = mv[mn]; return; } }
static void lm_check(LongMap *m) {
    int n = 0, i, seen[MAXM]; long p = sx_long("probe");
    for (i = 0; i < mn; i++) { seen[i] = 0; sx_assert(longmap_get(m, mk[i]) == mv[i], "a value that was put is found"); }
    sx_assert(longmap_get(m, p) == m_get(p), "any key: found iff put and not deleted since");
    longmap_foreach(m, it) {
        long k = longmap_iterator_key(&it); int f = 0; n++;
        for (i = 0; i < mn; i++) if (mk[i] == k) { f = 1; sx_assert(!seen[i], "iteration yields an element once"); seen[i] = 1; }
        sx_assert(f, "iteration yields what is in the map");
    }
    sx_assert(n == mn, "iteration yields every element");
}
static long key(int i, int cl) { long k = sx_sym("k", i, 64); if (cl == 1) sx_assume((k & 15) == 0); if (cl == 2) sx_assume(sx_both((k & 15) == 0, sx_both(k >= 0, k < 64))); if (cl == 3) sx_assume(((k + 1) & 15) < 2); return k; }
static void lm_ops(LongMap *m, int n, int cl) {
    int i;
    for (i = 0; i < n; i++) {
        long k = key(i, cl); void *v = (void *) (sx_sym("v", i, 64) | 1);
        switch (sx_choose(3)) {
            case 0: longmap_put(m, k, v); m_put(k, v); break;
            case 1: longmap_delete(m, k); m_del(k); break;
            default: sx_assert(longmap_get(m, k) == m_get(k), "get"); i = i; break;
        }
    }
}
void h_longmap(void) { LongMap *m = new_longmap(); lm_ops(m, NOPS, 1); lm_check(m); sx_cover("longmap"); free_longmap(m); }
void h_longmap_end(void) { LongMap *m = new_longmap(); longmap_put(m, 31, m); m_put(31, m); lm_ops(m, NOPS - 2, 3); lm_check(m); sx_cover("longmap_end"); }
/* any keys */
void h_longmap_any(void) { LongMap *m = new_longmap(); int i; for (i = 0; i < 2; i++) { long k = sx_sym("k", i, 64); void *v = (void *) (sx_sym("v", i, 64) | 1); longmap_put(m, k, v); m_put(k, v); } { long k = sx_long("d"), p = sx_long("probe"); longmap_delete(m, k); m_del(k); sx_assert(longmap_get(m, p) == m_get(p), "any keys"); } }
/* around a rehash, with and without tombstones */
static void fill(LongMap *m, int n, int del, int mul) { int i; for (i = 0; i < n; i++) { longmap_put(m, (long) i * mul, (void *) (long) (i + 1)); m_put((long) i * mul, (void *) (long) (i + 1)); } for (i = 0; i < del; i++) { longmap_delete(m, (long) (i * 2 % n) * mul); m_del((long) (i * 2 % n) * mul); } }
void h_longmap_grow(void) { LongMap *m = new_longmap(); static const int c[6][3] = { { 10, 0, 1 }, { 11, 0, 16 }, { 10, 8, 1 }, { 11, 9, 3 }, { 22, 3, 16 }, { 21, 15, -1 } }; int k = sx_choose(6); fill(m, c[k][0], c[k][1], c[k][2]); lm_ops(m, NOPS - 3, 2); lm_check(m); sx_cover("grow"); }
void h_longmap_many(void) { LongMap *m = new_longmap(); int i; long a = sx_sym("a", -1, 64); sx_assume(a == (a & 3)); a = sx_concretize(a); for (i = 0; i < 60; i++) { longmap_put(m, i * 7 + a, (void *) (i + a + 1)); m_put(i * 7 + a, (void *) (i + a + 1)); if (i % 3 == 2) { longmap_delete(m, (i - 1) * 7 + a); m_del((i - 1) * 7 + a); } } { long p; for (p = -5; p < 512; p++) sx_assert(longmap_get(m, p) == m_get(p), "after growth"); } sx_assert(mn == 40, "model"); { int n = 0; longmap_foreach(m, it) n++; sx_assert(n == 40, "count"); } }
void h_longmap_copy(void) {
    LongMap *m = new_longmap(), *c; lm_ops(m, 2, 1); c = longmap_copy(m); lm_check(c);
    { long k = key(7, 1); void *old = m_get(k); longmap_put(m, k, (void *) 5); sx_assert(longmap_get(c, k) == old, "a copy is independent"); m_put(k, (void *) 5); lm_check(m); longmap_empty(m); mn = 0; lm_check(m); lm_ops(m, 1, 1); lm_check(m); }
    { int *keys, n; longmap_empty(c); longmap_put(c, 3, c); longmap_put(c, 19, c); longmap_put(c, 4, c); longmap_delete(c, 3); n = longmap_keys(c, &keys); sx_assert(n == 2 && keys[0] + keys[1] == 23 && keys[0] * keys[1] == 76, "keys"); }
}
/* ---------------------------------------------------------------- sets of longs */
void h_longset(void) {
    LongSet *a = new_longset(), *b = new_longset(), *u, *x, *c; long p, k[4]; int i, ia = 0, ib = 0, n = 0, eq = 1, all = 0;
    for (i = 0; i < 4; i++) { k[i] = sx_sym("k", i, 64); sx_assume((k[i] & 15) == 14); if (i < 2) longset_add(a, k[i]); else longset_add(b, k[i]); }
    u = longset_union(a, b); x = longset_intersection(a, b); c = longset_copy(a);
    p = sx_long("probe"); ia = sx_either(p == k[0], p == k[1]); ib = sx_either(p == k[2], p == k[3]);
    sx_assert(longset_in(a, p) == ia, "in a"); sx_assert(longset_in(b, p) == ib, "in b"); sx_assert(longset_in(u, p) == sx_either(ia, ib), "union"); sx_assert(longset_in(x, p) == sx_both(ia, ib), "intersection"); sx_assert(longset_in(c, p) == ia, "copy");
    sx_assert(longset_len(a) == 1 + (k[0] != k[1]), "length");
    eq = sx_both(sx_both(sx_either(k[0] == k[2], k[0] == k[3]), sx_either(k[1] == k[2], k[1] == k[3])), sx_both(sx_either(k[2] == k[0], k[2] == k[1]), sx_either(k[3] == k[0], k[3] == k[1])));
    sx_assert(longset_eq(a, b) == eq, "equality"); sx_assert(longset_eq(a, c) == 1, "a set equals its copy");
    longset_delete(a, p); sx_assert(!longset_in(a, p), "deleted"); sx_assert(longset_in(c, p) == ia, "the copy remains"); sx_assert(longset_len(a) == 1 + (k[0] != k[1]) - ia, "length after delete");
    longset_foreach(u, it) { long e = longset_iterator_element(&it); n++; sx_assert(sx_either(sx_either(e == k[0], e == k[1]), sx_either(e == k[2], e == k[3])), "iteration"); }
    sx_assert(n == longset_len(u), "count"); longset_empty(u); sx_assert(longset_len(u) == 0 && !longset_in(u, p), "empty"); longset_add(u, p); sx_assert(longset_in(u, p) && longset_len(u) == 1, "add to an emptied set");
    sx_cover("longset");
}
/* ---------------------------------------------------------------- maps of strings */
static char *sk[MAXM]; static void *sv[MAXM]; static int sn;
static int same(const char *a, const char *b) { while (*a && *a == *b) a++, b++; return *a == *b; }
static void *s_get(char *k) { int i; for (i = 0; i < sn; i++) if (same(sk[i], k)) return sv[i]; return 0; }
static void s_put(char *k, void *v) { int i; for (i = 0; i < sn; i++) if (same(sk[i], k)) { sv[i] = v; return; } sk[sn] = k; sv[sn++] = v; }
static void s_del(char *k) { int i; for (i = 0; i < sn; i++) if (same(sk[i], k)) { sn--; sk[i] = sk[sn]; sv[i] = sv[sn]; return; } }
static char buf[16][8];
static char *str(int i, int n) { char nm[3] = { 's', 'A' + i, 0 }; sx_bytes(buf[i], n, nm); buf[i][n] = 0; return buf[i]; }
static void sm_check(StrMap *m) {
    int n = 0, i, seen[MAXM];
    for (i = 0; i < sn; i++) { seen[i] = 0; sx_assert(strmap_get(m, sk[i]) == sv[i], "a value that was put is found"); }
    strmap_foreach(m, it) {
        char *k = strmap_iterator_key(&it); int f = 0; n++;
        for (i = 0; i < sn; i++) if (same(sk[i], k)) { f = 1; sx_assert(!seen[i], "iteration yields an element once"); seen[i] = 1; }
        sx_assert(f, "iteration yields what is in the map");
    }
    sx_assert(n == sn, "iteration yields every element");
}
/* keys "a" ... with concrete names that collide or not, plus symbolic ones */
static char *names[] = { "a", "aa", "c", "q", "rr", "s", "AA", "B", "11", "ab", "ba", "foo", "bar", "x1", "x2", "x3", "", "main", "printf", "i", "j", "k", "l", "m", "n", "o", "p" };
void h_strmap(void) {
    StrMap *m = new_strmap(); int i;
    for (i = 0; i < NOPS; i++) {
        char *k = str(i, 1); void *v = (void *) (sx_sym("v", i, 64) | 1);
        sx_assume((k[0] & 15) == 1);       /* these collide */
        switch (sx_choose(3)) {
            case 0: strmap_put(m, k, v); s_put(k, v); break;
            case 1: strmap_delete(m, k); s_del(k); break;
            default: sx_assert(strmap_get(m, k) == s_get(k), "get"); break;
        }
    }
    sm_check(m); sx_cover("strmap"); free_strmap(m);
}
void h_strmap_any(void) { StrMap *m = new_strmap(); char *a = str(0, 2), *b = "ab", *c = str(2, 2); strmap_put(m, "q", m); s_put("q", m); strmap_put(m, a, a); s_put(a, a); strmap_put(m, b, b); s_put(b, b); sx_assert(strmap_get(m, c) == s_get(c), "any probe"); strmap_delete(m, c); s_del(c); sm_check(m); sx_cover("strmap_any"); }
void h_strmap_grow(void) {
    StrMap *m = new_strmap(); int i, k = sx_choose(4), n = k == 0 ? 10 : k == 1 ? 11 : k == 2 ? 22 : 27; char *p, *q;
    for (i = 0; i < n; i++) { strmap_put(m, names[i], names[i]); s_put(names[i], names[i]); }
    if (k & 1) for (i = 0; i < n; i += 2) { strmap_delete(m, names[i]); s_del(names[i]); }
    p = str(0, 1); sx_assume((*p & 15) == 1); strmap_put(m, p, p); s_put(p, p); q = str(1, 1); sx_assume((*q & 15) == 1); sx_assert(strmap_get(m, q) == s_get(q), "probe"); for (i = 0; i < n; i++) sx_assert(strmap_get(m, names[i]) == s_get(names[i]), "names"); strmap_delete(m, p); s_del(p); sx_assert(strmap_get(m, q) == s_get(q), "probe"); sx_cover("strmap_grow");
}
void h_strset(void) {
    StrSet *a = new_strset(), *b = new_strset(), *u, *x, *d; char *k[4], *p; int i, ia, ib;
    for (i = 0; i < 4; i++) { k[i] = str(i, 1); sx_assume((k[i][0] & 15) == 1); strset_add(i < 2 ? a : b, k[i]); }
    p = str(4, 1); ia = sx_either(*p == *k[0], *p == *k[1]); ib = sx_either(*p == *k[2], *p == *k[3]);
    u = strset_union(a, b); x = strset_intersection(a, b); d = dup_strset(a);
    sx_assert(strset_in(a, p) == ia, "in a"); sx_assert(strset_in(b, p) == ib, "in b"); sx_assert(strset_in(u, p) == sx_either(ia, ib), "union"); sx_assert(strset_in(x, p) == sx_both(ia, ib), "intersection"); sx_assert(strset_in(d, p) == ia, "copy");
    strset_add(a, p); sx_assert(strset_in(a, p) == 1, "added"); sx_assert(strset_in(d, p) == ia, "the copy remains"); sx_cover("strset");
}
/* ---------------------------------------------------------------- sets of small integers */
void h_set(void) {
    int N = 7, i, v[6], p, ia, ib; Set *a = new_set(N), *b = new_set(N), *r, *c, *t = new_set(N);
    for (i = 0; i < 6; i++) { v[i] = sx_sym("v", i, 32); sx_assume(sx_both(v[i] >= 0, v[i] <= N)); if (i % 3 == 2) v[i] = i; if (i < 3) add_to_set(a, v[i]); else add_to_set(b, v[i]); }
    p = sx_int("p"); sx_assume(sx_both(p >= 0, p <= N));
    ia = sx_either(p == v[0], sx_either(p == v[1], p == v[2])); ib = sx_either(p == v[3], sx_either(p == v[4], p == v[5]));
    sx_assert(in_set(a, p) == ia, "in"); sx_assert(in_set(b, p) == ib, "in");
    r = set_union(a, b); sx_assert(in_set(r, p) == sx_either(ia, ib), "union"); set_union_to(t, a, b); sx_assert(set_eq(r, t), "union_to");
    r = set_intersection(a, b); sx_assert(in_set(r, p) == sx_both(ia, ib), "intersection"); set_intersection_to(t, a, b); sx_assert(set_eq(r, t), "intersection_to");
    r = set_difference(a, b); sx_assert(in_set(r, p) == sx_both(ia, !ib), "difference"); set_difference_to(t, a, b); sx_assert(set_eq(r, t), "difference_to");
    c = copy_set(a); sx_assert(set_eq(a, c), "a copy is equal"); delete_from_set(c, p); sx_assert(!in_set(c, p), "deleted"); sx_assert(in_set(a, p) == ia, "the original remains"); sx_assert(set_eq(a, c) == !ia, "equality"); sx_assert(set_len(a) - set_len(c) == ia, "length");
    copy_set_to(t, b); sx_assert(set_eq(t, b), "copy_set_to"); empty_set(t); sx_assert(set_len(t) == 0, "empty"); add_to_set(t, p); sx_assert(in_set(t, p) && set_len(t) == 1, "add"); set_union_to(a, a, b); sx_assert(in_set(a, p) == sx_either(ia, ib), "in place"); sx_cover("set");
}
void h_set_cache(void) {
    int N = 6, i, v[3], n = 0, j; Set *a = new_set(N); for (i = 0; i < 3; i++) { v[i] = sx_sym("v", i, 32); sx_assume(sx_both(v[i] >= 0, v[i] <= N)); add_to_set(a, v[i]); }
    cache_set_elements(a); for (i = 0; i <= N; i++) if (in_set(a, i)) { sx_assert(n < a->cached_element_count && a->cached_elements[n] == i, "cached element"); n++; } sx_assert(n == a->cached_element_count, "cached count"); free_set(a);
}
/* ---------------------------------------------------------------- stacks, lists, string buffers */
void h_stack(void) {
    Stack *s = new_stack(); int m[16], n = 0, i, v;
    for (i = 0; i < 8; i++) if (n == 0 || sx_choose(2)) { v = sx_sym("v", i, 32); push_onto_stack(s, v); m[n++] = v; sx_assert(stack_top(s) == v, "top"); } else { v = pop_from_stack(s); sx_assert(v == m[--n], "pop"); if (n) sx_assert(stack_top(s) == m[n - 1], "top"); }
    while (n) sx_assert(pop_from_stack(s) == m[--n], "pop"); sx_cover("stack"); free_stack(s);
}
void h_list(void) {
    int init = sx_choose(18), n = 40, i, p; List *l = new_list(init); void *m[40];
    for (i = 0; i < n; i++) { m[i] = (void *) sx_sym("v", i, 64); append_to_list(l, m[i]); sx_assert(l->length == i + 1 && l->elements[i] == m[i] && l->elements[0] == m[0] && l->elements[i / 2] == m[i / 2], "elements"); }
    for (i = 0; i < n; i++) sx_assert(l->elements[i] == m[i], "elements"); sx_cover("list"); free_list(l);
}
void h_sb(void) {
    static const int inits[] = { 0, 1, 2, 3, 7, 8, 16 }; static char e[512], t[64]; StringBuffer *s = new_string_buffer(inits[sx_choose(7)]); int n = 0, i, j, k;
    for (i = 0; i < 4; i++) { k = i == 2 ? 7 * sx_choose(3) : sx_choose(4) * (i + 1); for (j = 0; j < k; j++) { char c = sx_sym("c", i * 32 + j, 8); sx_assume(c != 0); t[j] = c; e[n++] = c; } t[k] = 0; append_to_string_buffer(s, t); sx_assert(s->position == n, "position"); if (i & 1) terminate_string_buffer(s); }
    terminate_string_buffer(s); e[n] = 0; for (i = 0; i <= n; i++) sx_assert(s->data[i] == e[i], "data"); sx_cover("sb"); free_string_buffer(s, 1);
}
void h_wasprintf(void) { char *r, *s = str(0, 3); int v = sx_sym("v", -1, 32), n, i; sx_assume(sx_both(v > -100, v < 100)); v = sx_concretize(v & 15); for (i = 0; i < 3; i++) sx_assume(s[i] != 0); n = wasprintf(&r, "<%s%d>", s, v); sx_assert(n == 5 + 1 + (v > 9) && r[0] == '<' && r[1] == s[0] && r[2] == s[1] && r[3] == s[2] && r[n] == 0 && r[n - 1] == '>', "formatted"); }
/* ---------------------------------------------------------------- circular lists, graphs */
void h_cll(void) { CircularLinkedList *c = 0, *l; int n = sx_choose(6), i; void *m[6]; for (i = 0; i < n; i++) { m[i] = (void *) sx_sym("v", i, 64); append_to_cll(c, m[i]); } if (n) { l = c->next; for (i = 0; i < n; i++) { sx_assert(l->target == m[i], "in order"); l = l->next; } sx_assert(l == c->next, "circular"); } free_circular_linked_list(c); sx_cover("cll"); }
void h_graph(void) {
    int N = 3, M = 4, i, j, f[4], t[4]; Graph *g = new_graph(N, M); GraphEdge *e;
    for (i = 0; i < M; i++) { f[i] = sx_concretize((long) sx_sym("f", i, 32) % N); t[i] = sx_choose(i < 3 ? N : 1); if (f[i] < 0) sx_done(); e = add_graph_edge(g, f[i], t[i]); sx_assert(e->from->id == f[i] && e->to->id == t[i] && e->id == i, "edge"); }
    for (j = 0; j < N; j++) {
        e = g->nodes[j].succ; for (i = 0; i < M; i++) if (f[i] == j) { sx_assert(e && e->id == i, "successor"); e = e->next_succ; } sx_assert(!e, "no more successors");
        e = g->nodes[j].pred; for (i = 0; i < M; i++) if (t[i] == j) { sx_assert(e && e->id == i, "predecessor"); e = e->next_pred; } sx_assert(!e, "no more predecessors");
    }
    sx_cover("graph"); free_graph(g);
}
