// Environment of the runtime containers: heap = zeroed malloc, throw = counter, type table = small array.
#ifndef RT_ENV_H
#define RT_ENV_H
#include "vp.h"
#include "runtime/runtime.h"
#include "runtime/nutils/nutils.h"
#include "runtime/nutils/array.h"
#undef DEBUGF
#undef TRACEF
#undef RDEBUGF
#undef MDEBUGF
#undef TDEBUGF
#define DEBUGF(...)
#define TRACEF(...)
#define RDEBUGF(...)
#define MDEBUGF(...)
#define TDEBUGF(...)
#define tlsprintf(...) ((char *) "")

static int vp_throws; // errors raised by the code under test
#ifndef VP_OWN_THROW
void rti_throw(char *msg, bool panic) { vp_throws++; }
#endif

#define VP_NTYPES 8
static rtype_t vp_types[VP_NTYPES]; // hash i+1 -> vp_types[i]
rtype_t *rt_find_rtype(int64_t hash) {
    return (hash >= 1 && hash <= VP_NTYPES) ? &vp_types[hash - 1] : NULL;
}
static inline int64_t vp_mktype(int i, type_kind k, uint64_t size) {
    vp_types[i].kind = k;
    vp_types[i].hash = i + 1;
    vp_types[i].gc_heap_size = size;
    vp_types[i].storage_size = size;
    vp_types[i].malloc_gc_bits_offset = -1;
    vp_types[i].hashes_offset = -1;
    return i + 1;
}
#ifndef VP_OWN_MALLOC
static inline void *vp_alloc(uint64_t size) { return calloc(1, size); }
void *rti_gc_malloc(uint64_t size, rtype_t *rtype) { return vp_alloc(size); }
#endif
#ifndef VP_OWN_BARRIER
bool gc_barrier;
n_processor_t *processor_get(void) { return NULL; }
coroutine_t *coroutine_get(void) { return NULL; }
void rti_write_barrier_ptr(void *slot, void *new_obj, bool b) { *(void **) slot = new_obj; }
void rti_write_barrier_rtype(void *dst, void *src, rtype_t *rtype) { memmove(dst, src, rtype->storage_size); }
#endif
#endif
