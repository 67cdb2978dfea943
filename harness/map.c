// One operation on an arbitrary well-formed map or set (inductive step): its content as a finite
// map/set changes exactly as the operation says, and the representation stays well-formed.
#include "rt_env.h"
#include "utils/helper.h"
#ifdef KEYHASH
// key identity does not depend on which hash function is used: a cheap one keeps the formula small
// (the real one is checked by h_hash_data and used by every other entry)
static inline uint32_t vp_hash_data(uint8_t *data, uint64_t size) {
    uint32_t h = 0;
    for (uint64_t i = 0; i < size; i++) h ^= data[i];
    return h & 1;
}
#define hash_data vp_hash_data
#endif
#include "runtime/nutils/map.h"
#include "runtime/nutils/set.h"
#include "runtime/nutils/hash.h"
#undef MAP_DEFAULT_CAPACITY
#define MAP_DEFAULT_CAPACITY 4
#undef SET_DEFAULT_CAPACITY
#define SET_DEFAULT_CAPACITY 4
char *rtype_value_to_str(rtype_t *rtype, void *data_ref) { return calloc(1, 2); }
#include "runtime/nutils/map.c"
#include "runtime/nutils/set.c"

#ifndef C
#define C 4
#endif
#define SETB (1ULL << HASH_SET)
#define DELB (1ULL << HASH_DELETED)

static int64_t kh, vh2, mh;
static uint8_t K[16];  // keys of the model
static uint16_t V[16]; // their values
static int L;

static void types(void) {
    kh = vp_mktype(0, TYPE_UINT8, 1);
    vh2 = vp_mktype(1, TYPE_UINT16, 2);
    mh = vp_mktype(2, TYPE_MAP, sizeof(n_map_t));
}
static uint64_t home(uint8_t key, uint64_t cap) { return key_hash(&vp_types[0], &key) % cap; }

// well-formedness of table/keys for the first len entries
static bool wf(uint64_t *ht, uint64_t cap, uint8_t *keys, uint64_t len) {
    // each key is findable: no empty slot between its home and the slot that refers to it; slots and entries match one to one
    for (uint64_t i = 0; i < len; i++) {
        for (uint64_t j = 0; j < i; j++) if (keys[i] == keys[j]) return false;
        uint64_t s = home(keys[i], cap);
        bool found = false;
        for (uint64_t a = 0; a < cap; a++) {
            uint64_t hv = ht[s];
            if (!(hv & SETB)) return false;
            if (!(hv & DELB) && (hv & ~(SETB | DELB)) == i) { found = true; break; }
            s = s + 1 == cap ? 0 : s + 1;
        }
        if (!found) return false;
    }
    uint64_t live = 0;
    for (uint64_t s = 0; s < cap; s++) {
        if (!(ht[s] & SETB)) continue;
        if (ht[s] & DELB) continue;
        live++;
        if ((ht[s] & ~SETB) >= len) return false;
    }
    return live == len;
}

static uint64_t any_slot(void) {
    switch (vp_range(0, 2)) {
        case 0: return 0;
        case 1: return SETB | DELB;
    }
    return SETB | vp_range(0, C - 1);
}
static n_map_t any_map(int len) {
    n_map_t m = {0};
    m.capacity = C;
    m.length = len;
    m.key_rtype_hash = kh;
    m.value_rtype_hash = vh2;
    m.hash_table = vp_alloc(8 * C);
    m.key_data = vp_alloc(C);
    m.value_data = vp_alloc(2 * C);
    for (int i = 0; i < C; i++) {
        m.hash_table[i] = any_slot();
        m.key_data[i] = vp_u8();
        ((uint16_t *) m.value_data)[i] = vp_u16();
    }
    VP_ASSUME(wf(m.hash_table, C, m.key_data, len));
    for (int i = 0; i < len; i++) {
        K[i] = m.key_data[i];
        V[i] = ((uint16_t *) m.value_data)[i];
    }
    L = len;
    return m;
}
static n_set_t any_set(int len) {
    n_set_t m = {0};
    m.capacity = C;
    m.length = len;
    m.key_rtype_hash = kh;
    m.hash_table = vp_alloc(8 * C);
    m.key_data = vp_alloc(C);
    for (int i = 0; i < C; i++) {
        m.hash_table[i] = any_slot();
        m.key_data[i] = vp_u8();
    }
    VP_ASSUME(wf(m.hash_table, C, m.key_data, len));
    for (int i = 0; i < len; i++) K[i] = m.key_data[i];
    L = len;
    return m;
}
static int model_find(uint8_t k) {
    for (int i = 0; i < L; i++) if (K[i] == k) return i;
    return -1;
}
static void map_agrees(n_map_t *m) {
    uint8_t p = vp_u8(); // any key
    int i = model_find(p);
    VP_ASSERT(rt_map_length(m) == L, "len is the number of distinct keys");
    VP_ASSERT(rt_map_contains(m, &p) == (i >= 0), "a key is contained iff it was stored and not deleted");
    int before = vp_throws;
    uint16_t *r = (uint16_t *) rt_map_access(m, &p);
    if (i >= 0) VP_ASSERT(vp_throws == before && *r == V[i], "access yields the value last stored under the key");
    else VP_ASSERT(vp_throws == before + 1 && r == 0, "access to an absent key raises an error");
    VP_ASSERT(wf(m->hash_table, m->capacity, m->key_data, m->length), "representation stays well-formed");
    VP_ASSERT((double) m->length <= m->capacity * HASH_MAX_LOAD, "load");
}

static void c_map_lookup(int k) {
    types();
    n_map_t m = any_map(k);
    map_agrees(&m);
    VP_REACH("lookup");
}
static void c_map_assign(int k) {
    types();
    n_map_t m = any_map(k);
    uint8_t key = vp_u8();
    uint16_t val = vp_u16();
    *(uint16_t *) rt_map_assign(&m, &key) = val;
    int i = model_find(key);
    if (i < 0) { K[L] = key; i = L++; }
    V[i] = val;
    VP_ASSERT(vp_throws == 0, "assignment raises no error");
    map_agrees(&m);
    VP_REACH("assign");
}
// growth: the entries are compared directly; lookups in a well-formed table of the new capacity are h_map_lookup with C=8
void h_map_assign_grow(void) {
    types();
    n_map_t m = any_map(C * 3 / 4);
    uint8_t key = vp_u8();
    uint16_t val = vp_u16();
    *(uint16_t *) rt_map_assign(&m, &key) = val;
    int i = model_find(key);
    if (i < 0) { K[L] = key; i = L++; }
    V[i] = val;
    VP_ASSERT(vp_throws == 0, "assignment raises no error");
    VP_ASSERT(m.length == L, "len is the number of distinct keys");
    VP_ASSERT(m.capacity == 2 * C || (m.capacity == C && L <= C * HASH_MAX_LOAD), "the table grows");
    int p = vp_range(0, C);
    if (p < L) {
        bool found = false;
        for (int j = 0; j < L; j++) if (m.key_data[j] == K[p] && ((uint16_t *) m.value_data)[j] == V[p]) found = true;
        VP_ASSERT(found, "every entry keeps its key and value when the table grows");
    }
    VP_ASSERT(m.capacity != 2 * C || wf(m.hash_table, 2 * C, m.key_data, L), "representation stays well-formed");
    VP_ASSERT(m.capacity != C || wf(m.hash_table, C, m.key_data, L), "representation stays well-formed");
    VP_REACH("grow");
}
static void c_map_delete(int k) {
    types();
    n_map_t m = any_map(k);
    uint8_t key = vp_u8();
    rt_map_delete(&m, &key);
    int i = model_find(key);
    if (i >= 0) { L--; K[i] = K[L]; V[i] = V[L]; }
    VP_ASSERT(vp_throws == 0, "delete raises no error");
    map_agrees(&m);
    VP_REACH("delete");
}
void h_map_new(void) {
    types();
    n_map_t m;
    int op = vp_range(0, 1);
    if (op) m = rt_map_new(mh, kh, vh2);
    else rt_map_new_out(&m, mh, kh, vh2);
    VP_ASSERT(m.key_rtype_hash == kh && m.value_rtype_hash == vh2, "types recorded");
    VP_ASSERT(m.capacity == MAP_DEFAULT_CAPACITY, "initial capacity");
    L = 0;
    map_agrees(&m);
    VP_REACH("new");
}
void h_map_zero(void) { // a zero-initialised map is empty and usable
    types();
    n_map_t m = {0};
    m.key_rtype_hash = kh;
    m.value_rtype_hash = vh2;
    uint8_t p = vp_u8(), key = vp_u8();
    VP_ASSERT(!rt_map_contains(&m, &p) && rt_map_length(&m) == 0, "empty");
    rt_map_delete(&m, &p);
    VP_ASSERT(rt_map_access(&m, &p) == 0 && vp_throws == 1, "access to an absent key raises an error");
    vp_throws = 0;
    uint16_t val = vp_u16();
    *(uint16_t *) rt_map_assign(&m, &key) = val;
    K[0] = key; V[0] = val; L = 1;
    map_agrees(&m);
    VP_REACH("zero map");
}
static void set_agrees(n_set_t *m) {
    uint8_t p = vp_u8();
    VP_ASSERT(m->length == L, "len is the number of distinct elements");
    VP_ASSERT(rt_set_contains(m, &p) == (model_find(p) >= 0), "an element is contained iff it was added and not deleted");
    VP_ASSERT(wf(m->hash_table, m->capacity, m->key_data, m->length), "representation stays well-formed");
}
static void c_set_lookup(int k) {
    types();
    n_set_t m = any_set(k);
    set_agrees(&m);
    VP_REACH("lookup");
}
static void c_set_add(int k) {
    types();
    n_set_t m = any_set(k);
    uint8_t key = vp_u8();
    rt_set_add(&m, &key);
    int i = model_find(key);
    if (i < 0) K[L++] = key;
    set_agrees(&m);
    VP_REACH("add");
}
static void c_set_delete(int k) {
    types();
    n_set_t m = any_set(k);
    uint8_t key = vp_u8();
    rt_set_delete(&m, &key);
    int i = model_find(key);
    if (i >= 0) { L--; K[i] = K[L]; }
    set_agrees(&m);
    VP_REACH("delete");
}
void h_set_new(void) {
    types();
    n_set_t m = rt_set_new(mh, kh);
    L = 0;
    set_agrees(&m);
    n_set_t z = {0};
    z.key_rtype_hash = kh;
    uint8_t key = vp_u8();
    VP_ASSERT(!rt_set_contains(&z, &key), "a zero-initialised set is empty");
    rt_set_delete(&z, &key);
    rt_set_add(&z, &key);
    K[0] = key; L = 1;
    set_agrees(&z);
    VP_REACH("new");
}
#define MAXL (C * 3 / 4)
void h_map_lookup(void) { VP_CASES(MAXL + 1, c_map_lookup); }
void h_map_assign(void) { VP_CASES(MAXL, c_map_assign); }
void h_map_delete(void) { VP_CASES(MAXL + 1, c_map_delete); }
void h_set_lookup(void) { VP_CASES(MAXL + 1, c_set_lookup); }
void h_set_add(void) { VP_CASES(MAXL, c_set_add); }
void h_set_add_grow(void) { c_set_add(MAXL); }
void h_set_delete(void) { VP_CASES(MAXL + 1, c_set_delete); }

// Key identity: two keys of any supported kind are the same key iff they are equal as values.
static struct { rtype_field_t f[2]; int64_t elem; } vp_rtd;
uint8_t *rt_data_ptr;
static int kkind; // 1 string 2 struct {u8; u16} with padding 3 [u16;2] 4 i64
static void *mkkey(int len) {
    if (kkind == 1) {
        n_string_t *s = vp_alloc(sizeof(n_string_t));
        s->length = len;
        s->capacity = len + 1;
        s->element_size = 1;
        s->data = vp_alloc(len + 1);
        vp_bytes(s->data, len);
        return s;
    }
    uint8_t *p = vp_alloc(8);
    vp_bytes(p, kkind == 4 ? 8 : 4);
    return p;
}
static bool same(uint8_t *a, uint8_t *b) {
    if (kkind == 1) {
        n_string_t *x = (void *) a, *y = (void *) b;
        if (x->length != y->length) return false;
        for (int i = 0; i < x->length; i++) if (x->data[i] != y->data[i]) return false;
        return true;
    }
    if (kkind == 2) return a[0] == b[0] && a[2] == b[2] && a[3] == b[3];
    for (int i = 0; i < (kkind == 4 ? 8 : 4); i++) if (a[i] != b[i]) return false;
    return true;
}
static void c_keys(int c) {
    int la = 0, lb = 0;
    if (c < 9) { kkind = 1; la = c / 3; lb = c % 3; }
    else kkind = c - 7;
    types();
    rt_data_ptr = (uint8_t *) &vp_rtd;
    int64_t u8h = vp_mktype(3, TYPE_UINT8, 1), u16h = vp_mktype(4, TYPE_UINT16, 2), key;
    vp_rtd.f[0].hash = u8h;
    vp_rtd.f[0].offset = 0;
    vp_rtd.f[1].hash = u16h;
    vp_rtd.f[1].offset = 2;
    vp_rtd.elem = u16h;
    if (kkind == 1) key = vp_mktype(5, TYPE_STRING, sizeof(n_string_t));
    else if (kkind == 2) { key = vp_mktype(5, TYPE_STRUCT, 4); vp_types[5].hashes_offset = 0; vp_types[5].length = 2; }
    else if (kkind == 3) { key = vp_mktype(5, TYPE_ARR, 4); vp_types[5].hashes_offset = (uint8_t *) &vp_rtd.elem - rt_data_ptr; vp_types[5].length = 2; }
    else key = vp_mktype(5, TYPE_INT64, 8);
    uint8_t *a = mkkey(la), *b = mkkey(lb);
    n_map_t m = rt_map_new(mh, key, vh2);
    n_set_t st = rt_set_new(mh, key);
    uint16_t va = vp_u16();
    *(uint16_t *) rt_map_assign(&m, a) = va;
    VP_ASSERT(rt_map_contains(&m, b) == same(a, b), "a map finds a key iff it equals a stored key");
    if (same(a, b)) VP_ASSERT(*(uint16_t *) rt_map_access(&m, b) == va, "the value under an equal key");
    rt_map_delete(&m, b);
    VP_ASSERT(rt_map_length(&m) == (same(a, b) ? 0 : 1), "delete removes the equal key only");
    rt_set_add(&st, a);
    VP_ASSERT(rt_set_contains(&st, b) == same(a, b), "a set finds an element iff it equals a stored element");
    VP_REACH("keys");
}
static void c_keys2(int c) { c_keys(c + 9); }
void h_keys_struct(void) { c_keys2(0); }
void h_keys_array(void) { c_keys2(1); }
void h_keys_int(void) { c_keys2(2); }
static void c_strings(int la, int lb, bool set) {
    kkind = 1;
    types();
    int64_t key = vp_mktype(5, TYPE_STRING, sizeof(n_string_t));
    uint8_t *a = mkkey(la), *b = mkkey(lb);
    if (set) {
        n_set_t st = rt_set_new(mh, key);
        rt_set_add(&st, a);
        VP_ASSERT(rt_set_contains(&st, b) == same(a, b), "a set finds an element iff it equals a stored element");
    } else {
        n_map_t m = rt_map_new(mh, key, vh2);
        rt_map_assign(&m, a);
        VP_ASSERT(rt_map_contains(&m, b) == same(a, b), "a map finds a key iff it equals a stored key");
    }
    VP_REACH("strings");
}
void h_keys_string22(void) { c_strings(2, 2, false); }
void h_keys_string12(void) { c_strings(1, 2, false); }
void h_keys_string01(void) { c_strings(0, 1, false); }
void h_keys_string22s(void) { c_strings(2, 2, true); }
void h_hash_data(void) { // hashing a key reads only the bytes of the key, and equal keys have equal hashes
    uint8_t *a = malloc(3), *b = malloc(1), *c = malloc(1);
    vp_bytes(a, 3);
    hash_data(a, 3);
    b[0] = c[0] = vp_u8();
    VP_ASSERT(hash_data(b, 1) == hash_data(c, 1), "equal keys have equal hashes");
    VP_REACH("hash");
}
