#include "rt_env.h"
#include "runtime/nutils/vec.h"
#undef VEC_DEFAULT_CAPACITY
#define VEC_DEFAULT_CAPACITY 2
#include "runtime/nutils/vec.c"
rtype_t vec_rtype;

#ifndef N
#define N 3
#endif
#define CAP (3 * N + 2)
typedef struct { uint8_t b[ES]; } el_t;
static int64_t h, vh;
static el_t m1[CAP], m2[CAP];
static int n1, n2;

static el_t any_el(void) { el_t e; for (int i = 0; i < ES; i++) e.b[i] = vp_u8(); return e; }
static bool same(el_t *a, el_t *b) { for (int i = 0; i < ES; i++) if (a->b[i] != b->b[i]) return false; return true; }
static void init(void) {
    h = vp_mktype(0, TYPE_STRUCT, ES);
    vh = vp_mktype(1, TYPE_VEC, sizeof(n_vec_t));
    vec_rtype = vp_types[1];
}

// any vec of up to N elements and up to 2 spare slots, with any contents; m = its list of elements
static n_vec_t any_vec(el_t *m, int *n, int len, int spare) {
    int cap = len + spare;
    n_vec_t v = {0};
    v.length = len;
    v.capacity = cap;
    v.element_size = ES;
    v.hash = vh;
    v.data = cap ? vp_alloc(cap * ES) : NULL;
    for (int i = 0; i < cap; i++) {
        m[i] = any_el();
        ((el_t *) v.data)[i] = m[i];
    }
    *n = len;
    return v;
}

static void agree(n_vec_t *v, el_t *m, int n) {
    VP_ASSERT(rt_vec_length(v) == n, "length equals the number of elements of the history");
    VP_ASSERT(rt_vec_capacity(v) >= n, "capacity covers the length");
    int before = vp_throws;
    for (int i = 0; i < n; i++) {
        el_t out = {0};
        rti_vec_access(v, i, &out);
        VP_ASSERT(same(&out, &m[i]), "element i is the value last stored at i");
        VP_ASSERT(rt_vec_element_addr(v, i) == (n_anyptr_t) v->data + i * ES, "element address designates element i");
    }
    VP_ASSERT(vp_throws == before, "in-range access raises no error");
    uint64_t i = vp_u64();
    if (i >= n) {
        el_t out = {0};
        rti_vec_access(v, i, &out);
        VP_ASSERT(vp_throws == before + 1, "out-of-range read raises an error");
        VP_ASSERT(rt_vec_element_addr(v, i) == 0 && vp_throws == before + 2, "out-of-range address raises an error");
        vp_throws = before;
    }
}

// one operation on an arbitrary vec
static void c_step(int k) {
    init();
    n_vec_t v = any_vec(m1, &n1, k / 4 / 3, k / 4 % 3);
    el_t e = any_el();
    int op = k % 4;
    switch (op) {
        case 0:
            rt_vec_push(&v, h, &e);
            m1[n1++] = e;
            VP_REACH("push");
            break;
        case 1:
            if (n1 == 0) break;
            uint64_t i = vp_range(0, n1 - 1);
            rti_vec_assign(&v, i, &e, &vp_types[0]);
            m1[i] = e;
            VP_REACH("assign");
            break;
        case 2: { // iterator: reserves one element and returns its address
            el_t *p = (el_t *) rt_vec_iterator(&v, h);
            *p = e;
            m1[n1++] = e;
            VP_REACH("iterator");
            break;
        }
        case 3: { // explicit growth keeps the elements
            int c = n1 + vp_range(1, 2);
            rt_vec_grow(&v, h, c);
            VP_ASSERT(rt_vec_capacity(&v) == c, "requested capacity");
            break;
        }
    }
    VP_ASSERT(vp_throws == 0, "no error raised by legal operations");
    agree(&v, m1, n1);
    el_t x = any_el();
    // every slot of the capacity is usable
    if (v.length < v.capacity) {
        rt_vec_push(&v, h, &x);
        m1[n1++] = x;
        agree(&v, m1, n1);
    }
    VP_REACH("end");
}

static void c_create(int k) {
    init();
    n_vec_t v;
    int64_t len = k / 4;
    int op = k % 4;
    el_t e = any_el(), z = {0};
    if (op == 0) {
        v = rt_vec_new(vh, h, len, &e);
    } else if (op == 1) {
        v = rt_vec_cap(vh, h, len);
    } else if (op == 2) {
        rt_vec_new_out(&v, vh, h, len);
    } else {
        v = rt_unsafe_vec_new(vh, h, len);
        e = z;
    }
    VP_ASSERT(vp_throws == 0, "legal length raises no error");
    for (int i = 0; i < N; i++) m1[i] = e;
    n1 = op == 0 || op == 3 ? len : 0;
    agree(&v, m1, n1);
    el_t x = any_el();
    rt_vec_push(&v, h, &x);
    m1[n1++] = x;
    agree(&v, m1, n1);
    VP_REACH("create");
}

void h_vec_create_neg(void) {
    init();
    int64_t len = vp_i64();
    VP_ASSUME(len < 0);
    el_t e = {0};
    n_vec_t v;
    if (vp_bool()) v = rt_vec_new(vh, h, len, &e);
    else v = rt_vec_cap(vh, h, len);
    VP_ASSERT(vp_throws == 1, "a negative length or capacity raises an error");
    VP_ASSERT(v.length == 0, "no elements after an error");
    VP_REACH("negative");
}

static void c_append(int k) {
    init();
    n_vec_t a = any_vec(m1, &n1, k % (N + 1), k / (N + 1) / (N + 1)), b = any_vec(m2, &n2, k / (N + 1) % (N + 1), 0);
    rt_vec_append(&a, &b, h);
    for (int i = 0; i < n2; i++) m1[n1 + i] = m2[i];
    n1 += n2;
    agree(&a, m1, n1);
    agree(&b, m2, n2);
    VP_ASSERT(vp_throws == 0, "no error raised by legal operations");
    VP_REACH("append");
}
static void c_append_self(int k) {
    init();
    n_vec_t a = any_vec(m1, &n1, k / 3, k % 3);
    rt_vec_append(&a, &a, h);
    for (int i = 0; i < n1; i++) m1[n1 + i] = m1[i];
    agree(&a, m1, 2 * n1);
    VP_REACH("self append");
}
static void c_concat(int k) {
    init();
    n_vec_t a = any_vec(m1, &n1, k % (N + 1), k / (N + 1) / (N + 1)), b = any_vec(m2, &n2, k / (N + 1) % (N + 1), 0);
    n_vec_t c = rt_vec_concat(&a, &b, h);
    el_t m3[CAP];
    for (int i = 0; i < n1; i++) m3[i] = m1[i];
    for (int i = 0; i < n2; i++) m3[n1 + i] = m2[i];
    agree(&c, m3, n1 + n2);
    // independent of its operands
    el_t e = any_el();
    if (n1 + n2) rti_vec_assign(&c, vp_range(0, n1 + n2 - 1), &e, &vp_types[0]);
    rt_vec_push(&c, h, &e);
    agree(&a, m1, n1);
    agree(&b, m2, n2);
    VP_ASSERT(vp_throws == 0, "no error raised by legal operations");
    VP_REACH("concat");
}
static void c_copy(int k) {
    init();
    n_vec_t a = any_vec(m1, &n1, k % (N + 1), k / (N + 1) / (N + 1)), b = any_vec(m2, &n2, k / (N + 1) % (N + 1), 0);
    uint64_t got = rt_vec_copy(&a, b);
    uint64_t want = n1 < n2 ? n1 : n2;
    VP_ASSERT(got == want, "copy reports min(len(dst), len(src))");
    for (int i = 0; i < want; i++) m1[i] = m2[i];
    agree(&a, m1, n1);
    agree(&b, m2, n2);
    VP_REACH("copy");
}

static void c_slice(int k) { // legal slices: contents, sharing, independence after growth
    init();
    int odd = k % 2;
    n_vec_t a = any_vec(m1, &n1, N, odd);
    k /= 2;
    int64_t s = k % (N + 1), e = k / (N + 1);
    if (s > e) VP_STOP();
    n_vec_t c = rt_vec_slice(&a, s, e == N && odd ? -1 : e);
    VP_ASSERT(vp_throws == 0, "legal slice raises no error");
    agree(&c, m1 + s, e - s);
    // a slice shares its elements
    el_t x = any_el();
    if (s < e) {
        rti_vec_assign(&c, 0, &x, &vp_types[0]);
        m1[s] = x;
    }
    // pushing to the slice never clobbers the parent's later elements
    rt_vec_push(&c, h, &x);
    agree(&a, m1, n1);
    VP_REACH("legal slice");
}
void h_vec_slice_illegal(void) {
    init();
    n_vec_t a = any_vec(m1, &n1, N, 1);
    int64_t s = vp_i64(), e = vp_i64();
    int64_t ee = e == -1 ? n1 : e;
    n_vec_t c = rt_vec_slice(&a, s, e);
    if (s >= 0 && ee >= 0 && s <= ee && ee <= n1) {
        VP_ASSERT(vp_throws == 0 && c.length == ee - s && c.data == a.data + s * ES, "legal slice raises no error");
        VP_REACH("legal slice");
    } else {
        VP_ASSERT(vp_throws == 1, "illegal slice raises exactly one error");
        VP_ASSERT(c.length == 0, "illegal slice yields an empty vec");
        VP_REACH("illegal slice");
    }
}

void h_vec_step(void) { VP_CASES(4 * 3 * (N + 1), c_step); }
void h_vec_append_self(void) { VP_CASES(3 * (N + 1), c_append_self); }
void h_vec_slice(void) { VP_CASES(2 * (N + 1) * (N + 1), c_slice); }
void h_vec_append(void) { VP_CASES(3 * (N + 1) * (N + 1), c_append); }
void h_vec_concat(void) { VP_CASES(2 * (N + 1) * (N + 1), c_concat); }
void h_vec_copy(void) { VP_CASES(2 * (N + 1) * (N + 1), c_copy); }
void h_vec_create(void) { VP_CASES(4 * (N + 1), c_create); }
