// Native side of a counterexample replay: inputs come from the file named by VP_INPUT.
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
static FILE *in;
static int done;
uint64_t vp_u64(void) {
    unsigned long long v = 0;
    if (!in && !done) {
        const char *p = getenv("VP_INPUT");
        in = p ? fopen(p, "r") : NULL;
        if (!in) done = 1;
    }
    if (in && fscanf(in, "%llx", &v) != 1) v = 0;
    return v;
}
void vp_assume(int c, const char *txt) {
    if (!c) { fprintf(stderr, "VP_ASSUME not met: %s\n", txt); fflush(NULL); _Exit(77); }
}
void vp_assert(int c, const char *txt) {
    if (!c) { fprintf(stderr, "VP_FAIL: %s\n", txt); fflush(NULL); _Exit(42); }
}
void VP_ENTRY(void);
int main(void) { VP_ENTRY(); return 0; }
