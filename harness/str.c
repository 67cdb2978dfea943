#include "rt_env.h"
#include "runtime/memory.h"
#include "runtime/nutils/string.h"

// pool of small strings: any finite map keyed by C string
static const char *pool_k[8];
static void *pool_v[8];
static int pool_n;
static int pool_held;
static bool ckeq(const char *a, const char *b) {
    for (int i = 0; i < 16; i++) {
        if (a[i] != b[i]) return false;
        if (!a[i]) return true;
    }
    return false;
}
static void *pool_get(const char *k) {
    VP_ASSERT(pool_held, "the pool is only touched under its lock");
    for (int i = 0; i < pool_n; i++) if (ckeq(pool_k[i], k)) return pool_v[i];
    return NULL;
}
static void *pool_put(const char *k, void *v) {
    VP_ASSERT(pool_held, "the pool is only touched under its lock");
    for (int i = 0; i < pool_n; i++) if (ckeq(pool_k[i], k)) { pool_k[i] = k; pool_v[i] = v; return NULL; }
    if (pool_n < 8) { pool_k[pool_n] = k; pool_v[pool_n++] = v; }
    return NULL;
}
struct sc_map_sv const_str_pool;
mutex_t const_str_pool_locker;
#undef sc_map_get_sv
#undef sc_map_put_sv
void *sc_map_get_sv(struct sc_map_sv *m, const char *k) { return pool_get(k); }
void *sc_map_put_sv(struct sc_map_sv *m, const char *k, void *v) { return pool_put(k, v); }
int mutex_lock(mutex_t *m) { VP_ASSERT(!pool_held, "the pool lock is not taken twice"); pool_held++; return 0; }
int mutex_unlock(mutex_t *m) { VP_ASSERT(pool_held == 1, "the pool lock is released by its holder"); pool_held--; return 0; }
rtype_t string_element_rtype = {.kind = TYPE_UINT8, .gc_heap_size = 1, .storage_size = 1};
rtype_t string_rtype = {.kind = TYPE_STRING, .hash = 7, .gc_heap_size = sizeof(n_string_t), .storage_size = sizeof(n_string_t)};
#include "runtime/nutils/string.c"

#ifndef VP_NATIVE
void *memchr(const void *s, int c, size_t n) {
    for (size_t i = 0; i < n; i++) if (((const uint8_t *) s)[i] == (uint8_t) c) return (uint8_t *) s + i;
    return NULL;
}
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
#endif
#ifndef N
#define N 3
#endif
typedef struct { int n; uint8_t b[N + 1]; uint8_t *raw; } txt_t;
// any byte sequence of length n, in storage of exactly n bytes (term: followed by a NUL)
static txt_t any_txt(int n, bool term) {
    txt_t t = {.n = n};
    t.raw = vp_alloc(n + term ? n + term : 1);
    for (int i = 0; i < n; i++) t.raw[i] = t.b[i] = vp_u8();
    return t;
}
static void is_txt(n_string_t *s, txt_t *t) {
    VP_ASSERT(s->length == t->n && rt_string_length(s) == t->n, "length of the string is its number of bytes");
    VP_ASSERT(s->capacity > s->length, "there is room for the terminator");
    VP_ASSERT(s->element_size == 1 && s->hash == 7, "string header");
    for (int i = 0; i < t->n; i++) VP_ASSERT(s->data[i] == t->b[i], "byte i of the string");
    VP_ASSERT(s->data[t->n] == 0, "NUL after the last byte");
    VP_ASSERT(!pool_held, "no lock is left held");
}
static n_vec_t as_vec(txt_t *t) {
    n_vec_t v = {.data = t->raw, .length = t->n, .capacity = t->n, .element_size = 1, .hash = 5};
    return v;
}

static void c_new(int k) {
    txt_t t = any_txt(k, false);
    n_string_t s = string_new(t.raw, t.n);
    VP_ASSERT(s.data != t.raw, "a new string has storage of its own");
    is_txt(&s, &t);
    n_vec_t v = string_to_vec(&s);
    VP_ASSERT(v.length == t.n && v.data != s.data, "conversion to bytes copies");
    for (int i = 0; i < t.n; i++) VP_ASSERT(v.data[i] == t.b[i], "byte i of the vec");
    VP_REACH("new");
}
void h_str_new(void) { VP_CASES(N + 1, c_new); }

// conversions of two byte vecs sharing the pool, and a byte vec and a literal
static void c_pool(int k) {
    txt_t a = any_txt(k % (N + 1), false), b = any_txt(k / (N + 1), false);
    n_vec_t va = as_vec(&a), vb = as_vec(&b);
    n_string_t s1 = vec_to_string(&va);
    n_string_t s2 = vec_to_string(&vb);
    is_txt(&s1, &a);
    is_txt(&s2, &b);
    VP_REACH("pool");
}
void h_str_pool(void) { VP_CASES((N + 1) * (N + 1), c_pool); }
static void c_again(int k) {
    txt_t a = any_txt(k, false);
    n_vec_t va = as_vec(&a);
    n_string_t s1 = vec_to_string(&va);
    txt_t lit = any_txt(k, true);
    n_string_t s2 = string_new_with_pool(lit.raw, lit.n);
    is_txt(&s1, &a);
    is_txt(&s2, &lit);
    VP_ASSERT(s1.data != a.raw && s2.data != lit.raw, "the string does not alias the vec");
    VP_REACH("again");
}
void h_str_again(void) { VP_CASES(N + 1, c_again); }

static void c_concat(int k) {
    txt_t a = any_txt(k % (N + 1), true), b = any_txt(k / (N + 1), true);
    n_string_t s1 = string_new(a.raw, a.n), s2 = string_new(b.raw, b.n);
    n_string_t s = string_concat(&s1, &s2);
    VP_ASSERT(s.length == a.n + b.n && s.capacity > s.length && s.element_size == 1 && s.hash == 7, "length of a concatenation is the sum");
    for (int i = 0; i < a.n; i++) VP_ASSERT(s.data[i] == a.b[i], "left part");
    for (int i = 0; i < b.n; i++) VP_ASSERT(s.data[a.n + i] == b.b[i], "right part");
    VP_ASSERT(s.data[a.n + b.n] == 0, "terminator");
    is_txt(&s1, &a);
    is_txt(&s2, &b);
    VP_REACH("concat");
}
void h_str_concat(void) { VP_CASES((N + 1) * (N + 1), c_concat); }

static void c_cmp(int k) {
    txt_t a = any_txt(k % (N + 1), true), b = any_txt(k / (N + 1), true);
    n_string_t s1 = string_new(a.raw, a.n), s2 = string_new(b.raw, b.n);
    int c = 0; // order of byte sequences, a prefix comes first
    for (int i = 0; c == 0 && i < N; i++) {
        if (i >= a.n || i >= b.n) break;
        if (a.b[i] != b.b[i]) c = a.b[i] < b.b[i] ? -1 : 1;
    }
    if (c == 0) c = a.n < b.n ? -1 : a.n > b.n ? 1 : 0;
    VP_ASSERT(string_ee(&s1, &s2) == (c == 0), "==");
    VP_ASSERT(string_ne(&s1, &s2) == (c != 0), "!=");
    VP_ASSERT(string_lt(&s1, &s2) == (c < 0), "<");
    VP_ASSERT(string_le(&s1, &s2) == (c <= 0), "<=");
    VP_ASSERT(string_gt(&s1, &s2) == (c > 0), ">");
    VP_ASSERT(string_ge(&s1, &s2) == (c >= 0), ">=");
    VP_REACH("compare");
}
void h_str_cmp(void) { VP_CASES((N + 1) * (N + 1), c_cmp); }
